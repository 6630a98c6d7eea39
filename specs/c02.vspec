// C02: every derivation of the text is handed out.
//# prelude
/// Is completeness (C02) / uniqueness (C03) claimed in this run?
pub open spec fn want_all() -> bool { true }
pub open spec fn want_once() -> bool { false }
//# include earley.vspec
