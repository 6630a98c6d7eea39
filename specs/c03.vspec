// C03: no derivation is handed out twice.
//# prelude
/// Is completeness (C02) / uniqueness (C03) claimed in this run?
pub open spec fn want_all() -> bool { false }
pub open spec fn want_once() -> bool { true }
//# include earley.vspec
