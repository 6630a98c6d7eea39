// C01-C03 at once.
//# prelude
/// Is completeness (C02) / uniqueness (C03) claimed in this run?
pub open spec fn want_all() -> bool { true }
pub open spec fn want_once() -> bool { true }
//# include earley.vspec
