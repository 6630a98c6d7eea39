// C01: every parse tree handed out is a derivation of the text.
//# prelude
/// Is completeness (C02) / uniqueness (C03) claimed in this run?
pub open spec fn want_all() -> bool { false }
pub open spec fn want_once() -> bool { false }
//# include earley.vspec
