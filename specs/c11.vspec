// C11, where the recursive function writes the header, at node number 0.
//# include chart.vspec
//# prelude
/// What has been written before the edges below node number `c`.
pub open spec fn head_out(c: int, a: Seq<char>) -> Seq<char> { if c == 0 { a + "flowchart TD\n"@ } else { a } }
