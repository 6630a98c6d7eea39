// C11, where Display writes the header.
//# include chart.vspec
//# prelude
/// What has been written before the edges below node number `c`.
pub open spec fn head_out(c: int, a: Seq<char>) -> Seq<char> { a }
