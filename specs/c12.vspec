// The text form of a parse tree (C12).
//# include core.vspec
//# include termshow.vspec
//# module grammar
use crate::fmt;
//# item grammar::ParseTreeNode noeq noclone
//# item grammar::ParseTree noeq noclone
//# item grammar::ParseTreeFormatSet
//# prelude
use crate::shim::*;
pub use crate::grammar::{ParseTree, ParseTreeNode};
/// The column under an ancestor that has more children to come.
pub open spec fn column(more: bool) -> Seq<char> { if more { seq!['│', ' ', ' ', ' '] } else { seq![' ', ' ', ' ', ' '] } }
pub open spec fn branch(last: bool) -> Seq<char> { if last { seq!['└', '─', '─', ' '] } else { seq!['├', '─', '─', ' '] } }
/// The columns of the first `k` ancestors.
pub open spec fn columns(more: Seq<bool>, k: int) -> Seq<char> decreases k { if k <= 0 { Seq::empty() } else { columns(more, k - 1) + column(more[k - 1]) } }
/// Indentation of a node at depth `more.len()`.
pub open spec fn indent(more: Seq<bool>, last: bool) -> Seq<char> { if more.len() == 0 { Seq::empty() } else { columns(more, more.len() - 1) + branch(last) } }
pub open spec fn kid_name<'g>(n: ParseTreeNode<'g>) -> Seq<char> { match n { ParseTreeNode::Terminal(s) => quoted('"', s@), ParseTreeNode::Nonterminal(t) => term_text(*t.lhs) } }
pub open spec fn kid_names<'g>(v: Seq<ParseTreeNode<'g>>, k: int) -> Seq<char> decreases k { if k <= 0 { Seq::empty() } else { kid_names(v, k - 1) + seq![' '] + kid_name(v[k - 1]) } }
/// The lines of `t` and everything below it; `more[i]`: the ancestor at depth i has more children to come.
pub open spec fn tree_text<'g>(t: ParseTree<'g>, more: Seq<bool>, last: bool) -> Seq<char> decreases t, 0int {
    indent(more, last) + term_text(*t.lhs) + " ::="@ + kid_names(t.rhs@, t.rhs@.len() as int) + seq!['\n'] + kids_text(t.rhs, more, t.rhs@.len() as int)
}
pub open spec fn kids_text<'g>(v: Vec<ParseTreeNode<'g>>, more: Seq<bool>, k: int) -> Seq<char> decreases v, k {
    if 0 < k <= v.len() { kids_text(v, more, k - 1) + kid_text(v[k - 1], more.push(k < v.len()), k == v.len()) } else { Seq::empty() }
}
pub open spec fn kid_text<'g>(n: ParseTreeNode<'g>, more: Seq<bool>, last: bool) -> Seq<char> decreases n, 0int {
    match n { ParseTreeNode::Terminal(s) => indent(more, last) + quoted('"', s@) + seq!['\n'], ParseTreeNode::Nonterminal(t) => tree_text(t, more, last) }
}
// The same text, as what is appended to what was written before.
pub open spec fn name_out<'g>(n: ParseTreeNode<'g>, a: Seq<char>) -> Seq<char> { match n { ParseTreeNode::Terminal(s) => (a.push('"') + s@).push('"'), ParseTreeNode::Nonterminal(t) => a + term_text(*t.lhs) } }
pub open spec fn names_out<'g>(v: Seq<ParseTreeNode<'g>>, k: int, a: Seq<char>) -> Seq<char> decreases k { if k <= 0 { a } else { name_out(v[k - 1], names_out(v, k - 1, a).push(' ')) } }
pub open spec fn head_out<'g>(t: ParseTree<'g>, more: Seq<bool>, last: bool, a: Seq<char>) -> Seq<char> { ((a + indent(more, last)) + term_text(*t.lhs)).push(' ').push(':').push(':').push('=') }
pub open spec fn tree_out<'g>(t: ParseTree<'g>, more: Seq<bool>, last: bool, a: Seq<char>) -> Seq<char> decreases t, 0int {
    kids_out(t.rhs, more, t.rhs@.len() as int, names_out(t.rhs@, t.rhs@.len() as int, head_out(t, more, last, a)).push('\n'))
}
pub open spec fn kids_out<'g>(v: Vec<ParseTreeNode<'g>>, more: Seq<bool>, k: int, a: Seq<char>) -> Seq<char> decreases v, k {
    if 0 < k <= v.len() { kid_out(v[k - 1], more.push(k < v.len()), k == v.len(), kids_out(v, more, k - 1, a)) } else { a }
}
pub open spec fn kid_out<'g>(n: ParseTreeNode<'g>, more: Seq<bool>, last: bool, a: Seq<char>) -> Seq<char> decreases n, 0int {
    match n { ParseTreeNode::Terminal(s) => ((a + indent(more, last)).push('"') + s@).push('"').push('\n'), ParseTreeNode::Nonterminal(t) => tree_out(t, more, last, a) }
}
pub proof fn lemma_names<'g>(v: Seq<ParseTreeNode<'g>>, k: int, a: Seq<char>)
    ensures names_out(v, k, a) =~= a + kid_names(v, k), decreases k,
{ if k > 0 { lemma_names(v, k - 1, a); } }
pub proof fn lemma_tree<'g>(t: ParseTree<'g>, more: Seq<bool>, last: bool, a: Seq<char>)
    ensures tree_out(t, more, last, a) == a + tree_text(t, more, last), decreases t, 0int,
{
    let n = t.rhs@.len() as int;
    reveal_strlit(" ::=");
    let h = head_out(t, more, last, a);
    lemma_names(t.rhs@, n, h);
    let l = names_out(t.rhs@, n, h).push('\n');
    lemma_kids(t.rhs, more, n, l);
    assert(h =~= a + (indent(more, last) + term_text(*t.lhs) + " ::="@));
    assert(l =~= a + (indent(more, last) + term_text(*t.lhs) + " ::="@ + kid_names(t.rhs@, n) + seq!['\n']));
    assert(l + kids_text(t.rhs, more, n) =~= a + tree_text(t, more, last));
}
pub proof fn lemma_kids<'g>(v: Vec<ParseTreeNode<'g>>, more: Seq<bool>, k: int, a: Seq<char>)
    ensures kids_out(v, more, k, a) == a + kids_text(v, more, k), decreases v, k,
{
    if 0 < k <= v.len() {
        lemma_kids(v, more, k - 1, a);
        let m = more.push(k < v.len()); let b = kids_out(v, more, k - 1, a);
        assert(kid_out(v[k - 1], m, k == v.len(), b) =~= b + kid_text(v[k - 1], m, k == v.len())) by {
            match v[k - 1] {
                ParseTreeNode::Terminal(s) => { assert(((b + indent(m, k == v.len())).push('"') + s@).push('"').push('\n') =~= b + (indent(m, k == v.len()) + quoted('"', s@) + seq!['\n'])); }
                ParseTreeNode::Nonterminal(t) => { assert(v[k - 1]->Nonterminal_0 == t); lemma_tree(t, m, k == v.len(), b); }
            }
        }
        assert(kids_out(v, more, k, a) =~= a + kids_text(v, more, k));
    } else { assert(a =~= a + Seq::<char>::empty()); }
}
/// Which of the columns below `depth` are active.
pub open spec fn cols(s: Set<usize>, depth: int) -> Seq<bool> { Seq::new(depth as nat, |i: int| s.contains(i as usize)) }
pub open spec fn agrees(s: Set<usize>, depth: int, more: Seq<bool>) -> bool { more.len() == depth && forall|i: int| 0 <= i < depth ==> #[trigger] more[i] == s.contains(i as usize) }
pub broadcast proof fn b_agrees(s: Set<usize>, depth: int, more: Seq<bool>)
    requires #[trigger] agrees(s, depth, more), ensures more == cols(s, depth),
{ assert(more =~= cols(s, depth)); }
//# fn grammar::ParseTree::fmt_node_prefix
@spec
ensures final($1)@ == old($1)@,
    final($0).sink_ok() == old($0).sink_ok(), old($0).sink_ok() ==> r.is_ok(),
    r.is_ok() ==> forall|more: Seq<bool>| agrees(old($1)@, $2 as int, more) ==> final($0)@ =~= old($0)@ + #[trigger] indent(more, $3),
@opt strlits
@opt addlit
@start
broadcast use b_agrees;
let ghost c = cols($1@, $2 as int);
@loop 0
$1@ == old($1)@, $0.sink_ok() == old($0).sink_ok(),
$it0.pos() <= $2,
$0@ =~= old($0)@ + (if $it0.pos() < $2 || $2 == 0 { columns(c, $it0.pos() as int) } else { indent(c, $3) }),
//# fn grammar::ParseTree::fmt
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
ensures forall|i: usize| i < $2 ==> final($1)@.contains(i) == old($1)@.contains(i),
    final($0).sink_ok() == old($0).sink_ok(), old($0).sink_ok() ==> r.is_ok(),
    r.is_ok() ==> forall|more: Seq<bool>| agrees(old($1)@, $2 as int, more) ==> final($0)@ == #[trigger] tree_out(*self, more, $3, old($0)@),
@opt catlits
@opt addlit
@start
broadcast use b_agrees;
let ghost c = cols($1@, $2 as int);
let ghost n = self.rhs@.len() as int;
let ghost head = head_out(*self, c, $3, $0@);
let ghost line = names_out(self.rhs@, n, head).push('\n');
proof { assert(agrees($1@, $2 as int, c)); assert(tree_out(*self, c, $3, $0@) == kids_out(self.rhs, c, n, line)); }
@loop 0
$0.sink_ok() == old($0).sink_ok(), $0@ == names_out(self.rhs@, $it0.pos() as int, head),
forall|i: usize| i < $2 ==> $1@.contains(i) == old($1)@.contains(i), n > 0 ==> $1@.contains($2),
@loop 1
$0.sink_ok() == old($0).sink_ok(), $0@ == kids_out(self.rhs, c, $it1.pos() as int, line),
forall|i: usize| i < $2 ==> $1@.contains(i) == old($1)@.contains(i), $it1.pos() < n ==> $1@.contains($2),
@loopend 1
proof {
    let k = $it1.pos() as int; let more = c.push(k < n); let b = kids_out(self.rhs, c, k - 1, line);
    assert(kids_out(self.rhs, c, k, line) == kid_out(self.rhs[k - 1], more, k == n, b));
    assert(kid_out(self.rhs[k - 1], more, k == n, b) == match self.rhs[k - 1] { ParseTreeNode::Terminal(s) => ((b + indent(more, k == n)).push('"') + s@).push('"').push('\n'), ParseTreeNode::Nonterminal(t) => tree_out(t, more, k == n, b) });
}
//# fn grammar::ParseTree@Display::fmt
@as VDisplay v_fmt
@implspec
open spec fn disp(&self) -> Seq<char> { tree_text(*self, Seq::empty(), true) }
@start
proof { assert(agrees(Set::<usize>::empty(), 0, Seq::empty())); lemma_tree(*self, Seq::empty(), true, $0@); }
