// What a grammar derives.
//# include core.vspec
//# prelude
use crate::shim::bs;
pub type AbsProd = (Term, Seq<Term>);
/// One (left hand side, alternative) pair per alternative, in order.
pub open spec fn alts(p: Production, k: int) -> Seq<AbsProd> {
    Seq::new(k as nat, |j: int| (p.lhs, p.rhs@[j].terms@))
}
pub open spec fn flat_n(ps: Seq<Production>, n: int) -> Seq<AbsProd> decreases n {
    if n <= 0 { Seq::empty() } else { flat_n(ps, n - 1) + alts(ps[n - 1], ps[n - 1].rhs@.len() as int) }
}
pub open spec fn flat(g: Grammar) -> Seq<AbsProd> { flat_n(g.productions@, g.productions@.len() as int) }
/// A derivation: the text of a terminal, or a production number with one derivation per term of it.
pub enum DT { Leaf(Seq<char>), Node(int, Seq<DT>) }
/// The bytes a derivation reads.
pub open spec fn dyield(d: DT) -> Seq<u8> decreases d, 0int {
    match d { DT::Leaf(s) => bs(s), DT::Node(p, ch) => dyields(ch, ch.len() as int) }
}
pub open spec fn dyields(ch: Seq<DT>, k: int) -> Seq<u8> decreases ch, k {
    if 0 < k <= ch.len() { dyields(ch, k - 1) + dyield(ch[k - 1]) } else { Seq::empty() }
}
/// `d` is a derivation of the grammar `g` (from the left hand side of its root production).
pub open spec fn dvalid(g: Seq<AbsProd>, d: DT) -> bool decreases d {
    match d {
        DT::Leaf(_) => false,
        DT::Node(p, ch) => 0 <= p < g.len() && ch.len() == g[p].1.len()
            && forall|k: int| 0 <= k < ch.len() ==> match g[p].1[k] {
                Term::Terminal(s) => #[trigger] ch[k] == DT::Leaf(s@),
                Term::Nonterminal(_) => ch[k] is Node && 0 <= ch[k]->Node_0 < g.len() && g[ch[k]->Node_0].0 == g[p].1[k] && dvalid(g, ch[k]),
            },
    }
}
/// `d` derives exactly the text `input` from `start`.
pub open spec fn derives(g: Seq<AbsProd>, start: Term, input: Seq<char>, d: DT) -> bool {
    dvalid(g, d) && g[d->Node_0].0 == start && dyield(d) == bs(input)
}
