// Mermaid labels and charts (C11).
//# include core.vspec
//# module grammar
use crate::fmt;
//# item grammar::ParseTreeNode noeq noclone
//# item grammar::ParseTree noeq noclone
//# item grammar::MermaidParseTree
//# prelude
use crate::shim::*;
pub use crate::grammar::{ParseTree, ParseTreeNode, MermaidParseTree};
pub open spec fn special(c: char) -> bool { c == '"' || c == '&' || c == '#' || c == '<' || c == '>' || c == '[' || c == '\\' || c == ']' || c == ';' || c == '\n' || c == '\r' }
/// The label of one character, appended to `a`.
pub open spec fn esc1_out(c: char, a: Seq<char>) -> Seq<char> { if special(c) { (a.push('#') + dec(c as u32 as nat)).push(';') } else { a.push(c) } }
pub open spec fn esc_out(s: Seq<char>, k: int) -> Seq<char> decreases k { if k <= 0 { Seq::empty() } else { esc1_out(s[k - 1], esc_out(s, k - 1)) } }
#[verifier::opaque]
pub open spec fn esc(s: Seq<char>) -> Seq<char> { esc_out(s, s.len() as int) }
pub proof fn lemma_esc_plain(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> !special(#[trigger] s[i]),
    ensures esc_out(s, k) == s.subrange(0, k), decreases k,
{ if k > 0 { lemma_esc_plain(s, k - 1); assert(s.subrange(0, k) =~= s.subrange(0, k - 1).push(s[k - 1])); } else { assert(s.subrange(0, 0) =~= Seq::empty()); } }
//# fn grammar::escape_mermaid_label
@muts out
@spec
ensures r@ == esc($0@),
@opt catlits
@start
proof { reveal(esc); assert($0@.subrange(0, $0@.len() as int) =~= $0@); if forall|i: int| 0 <= i < $0@.len() ==> !special(#[trigger] $0@[i]) { lemma_esc_plain($0@, $0@.len() as int); } }
@loop 0
$m0@ == esc_out($0@, $it0.pos() as int),
//# prelude
// Nothing special is left but the entity marks, and reading the entities back gives the label.
pub open spec fn esc1(c: char) -> Seq<char> { esc1_out(c, Seq::empty()) }
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn num(t: Seq<char>) -> nat decreases t.len() { if t.len() == 0 { 0 } else { num(t.drop_last()) * 10 + (t.last() as u32 - '0' as u32) as nat } }
/// Where the first ';' at or after `i` is.
pub open spec fn semi(t: Seq<char>, i: int) -> int decreases t.len() - i { if i < 0 || i >= t.len() || t[i] == ';' { i } else { semi(t, i + 1) } }
/// What an escaped label stands for: `#digits;` is the character of that number, everything else itself.
pub open spec fn unesc(t: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { Seq::empty() }
    else if t[0] != '#' { seq![t[0]] + unesc(t.drop_first()) }
    else {
        let e = semi(t, 1);
        if 1 <= e < t.len() { seq![num(t.subrange(1, e)) as u32 as char] + unesc(t.subrange(e + 1, t.len() as int)) } else { Seq::empty() }
    }
}
pub proof fn lemma_dec(n: nat)
    ensures dec(n).len() > 0, num(dec(n)) == n, forall|i: int| 0 <= i < dec(n).len() ==> is_digit(#[trigger] dec(n)[i]), decreases n,
{
    if n < 10 { assert(dec(n) =~= seq![digit(n)]); assert(dec(n).drop_last() =~= Seq::empty()); assert(num(dec(n).drop_last()) == 0); }
    else { lemma_dec(n / 10); assert(dec(n).drop_last() =~= dec(n / 10)); }
}
pub proof fn lemma_semi(t: Seq<char>, i: int, e: int)
    requires 0 <= i <= e < t.len(), t[e] == ';', forall|k: int| i <= k < e ==> #[trigger] t[k] != ';',
    ensures semi(t, i) == e, decreases e - i,
{ if i < e { lemma_semi(t, i + 1, e); } }
pub proof fn lemma_unesc1(c: char, rest: Seq<char>)
    ensures unesc(esc1(c) + rest) == seq![c] + unesc(rest),
{
    let t = esc1(c) + rest;
    if special(c) {
        let n = c as u32 as nat;
        lemma_dec(n);
        let e = 1 + dec(n).len() as int;
        assert(esc1(c) =~= (seq!['#'] + dec(n)).push(';'));
        assert(t[0] == '#' && t[e] == ';');
        assert forall|k: int| 1 <= k < e implies #[trigger] t[k] != ';' by { assert(t[k] == dec(n)[k - 1]); assert(is_digit(dec(n)[k - 1])); }
        lemma_semi(t, 1, e);
        assert(t.subrange(1, e) =~= dec(n));
        assert(t.subrange(e + 1, t.len() as int) =~= rest);
    } else {
        assert(t[0] == c); assert(t.drop_first() =~= rest);
    }
}
pub proof fn lemma_esc_cat(s: Seq<char>, k: int)
    requires 0 < k <= s.len(),
    ensures esc_out(s, k) =~= esc1(s[0]) + esc_out(s.drop_first(), k - 1), decreases k,
{
    if k > 1 { lemma_esc_cat(s, k - 1); assert(s.drop_first()[k - 2] == s[k - 1]); }
    else { assert(esc_out(s, 0) =~= Seq::empty()); }
}
/// Escaping loses nothing.
pub proof fn lemma_lossless(s: Seq<char>)
    ensures unesc(esc(s)) == s, decreases s.len(),
{
    reveal(esc);
    if s.len() > 0 {
        lemma_esc_cat(s, s.len() as int);
        lemma_lossless(s.drop_first());
        lemma_unesc1(s[0], esc(s.drop_first()));
        assert(seq![s[0]] + s.drop_first() =~= s);
    }
}
/// No special character is left except '#' and ';'.
pub proof fn lemma_no_special(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures forall|i: int| 0 <= i < esc_out(s, k).len() && special(#[trigger] esc_out(s, k)[i]) ==> esc_out(s, k)[i] == '#' || esc_out(s, k)[i] == ';', decreases k,
{
    if k > 0 {
        lemma_no_special(s, k - 1);
        let a = esc_out(s, k - 1); let d = dec(s[k - 1] as u32 as nat);
        lemma_dec(s[k - 1] as u32 as nat);
        assert forall|i: int| 0 <= i < esc_out(s, k).len() && special(#[trigger] esc_out(s, k)[i]) implies esc_out(s, k)[i] == '#' || esc_out(s, k)[i] == ';' by {
            if i < a.len() { assert(esc_out(s, k)[i] == a[i]); }
            else if special(s[k - 1]) && a.len() < i < a.len() + 1 + d.len() { assert(esc_out(s, k)[i] == d[i - a.len() - 1]); assert(is_digit(d[i - a.len() - 1])); }
        }
    }
}
// The chart.
pub open spec fn name_of(t: Term) -> Seq<char> { match t { Term::Nonterminal(s) => s@, Term::Terminal(s) => s@ } }
/// Every node of the tree is labelled by a nonterminal (as in every tree the parser builds).
pub open spec fn labelled<'g>(t: ParseTree<'g>) -> bool decreases t, 0int { t.lhs is Nonterminal && forall|k: int| 0 <= k < t.rhs@.len() ==> node_labelled(#[trigger] t.rhs[k]) }
pub open spec fn node_labelled<'g>(n: ParseTreeNode<'g>) -> bool decreases n, 0int { match n { ParseTreeNode::Terminal(_) => true, ParseTreeNode::Nonterminal(t) => labelled(t) } }
pub open spec fn node_name<'g>(n: ParseTreeNode<'g>) -> Seq<char> { match n { ParseTreeNode::Terminal(s) => s@, ParseTreeNode::Nonterminal(t) => name_of(*t.lhs) } }
/// The line for the edge from node number `i` to node number `j`.
pub open spec fn edge_out(i: int, l: Seq<char>, j: int, r: Seq<char>, a: Seq<char>) -> Seq<char> {
    (((((a + dec(i as nat)).push('[').push('"') + esc(l)).push('"').push(']').push(' ').push('-').push('-').push('>').push(' ') + dec(j as nat)).push('[').push('"')) + esc(r)).push('"').push(']').push('\n')
}
/// The edges below `t`, whose number is `c`, in pre-order, and the last number used.
pub open spec fn below<'g>(t: ParseTree<'g>, c: int, a: Seq<char>) -> (Seq<char>, int) decreases t, 0int { belows(t.rhs, name_of(*t.lhs), c, t.rhs@.len() as int, a) }
pub open spec fn belows<'g>(v: Vec<ParseTreeNode<'g>>, l: Seq<char>, c: int, k: int, a: Seq<char>) -> (Seq<char>, int) decreases v, k {
    if 0 < k <= v.len() { let (b, m) = belows(v, l, c, k - 1, a); node_below(v[k - 1], m + 1, edge_out(c, l, m + 1, node_name(v[k - 1]), b)) } else { (a, c) }
}
pub open spec fn node_below<'g>(n: ParseTreeNode<'g>, c: int, a: Seq<char>) -> (Seq<char>, int) decreases n, 0int {
    match n { ParseTreeNode::Terminal(_) => (a, c), ParseTreeNode::Nonterminal(t) => below(t, c, a) }
}
pub open spec fn chart<'g>(t: ParseTree<'g>) -> Seq<char> { below(t, 0, "flowchart TD\n"@).0 }
pub proof fn lemma_below<'g>(t: ParseTree<'g>, c: int, a: Seq<char>, p: Seq<char>)
    ensures below(t, c, p + a) == (p + below(t, c, a).0, below(t, c, a).1), below(t, c, a).1 >= c, decreases t, 0int,
{ lemma_belows(t.rhs, name_of(*t.lhs), c, t.rhs@.len() as int, a, p); }
pub proof fn lemma_belows<'g>(v: Vec<ParseTreeNode<'g>>, l: Seq<char>, c: int, k: int, a: Seq<char>, p: Seq<char>)
    ensures belows(v, l, c, k, p + a) == (p + belows(v, l, c, k, a).0, belows(v, l, c, k, a).1), belows(v, l, c, k, a).1 >= c, decreases v, k,
{
    if 0 < k <= v.len() {
        lemma_belows(v, l, c, k - 1, a, p);
        let (b, m) = belows(v, l, c, k - 1, a);
        let e = edge_out(c, l, m + 1, node_name(v[k - 1]), b);
        assert(edge_out(c, l, m + 1, node_name(v[k - 1]), p + b) =~= p + e);
        let n = v[k - 1];
        assert(belows(v, l, c, k, a) == node_below(n, m + 1, e));
        assert(belows(v, l, c, k, p + a) == node_below(n, m + 1, p + e));
        assert(node_below(n, m + 1, e) == match n { ParseTreeNode::Terminal(_) => (e, m + 1), ParseTreeNode::Nonterminal(t) => below(t, m + 1, e) });
        assert(node_below(n, m + 1, p + e) == match n { ParseTreeNode::Terminal(_) => (p + e, m + 1), ParseTreeNode::Nonterminal(t) => below(t, m + 1, p + e) });
        match n { ParseTreeNode::Terminal(_) => {}, ParseTreeNode::Nonterminal(t) => { assert(v[k - 1]->Nonterminal_0 == t); lemma_below(t, m + 1, e, p); } }
    }
}
//# fn grammar::MermaidParseTree::fmt
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
requires labelled(*self.parse_tree),
ensures final($0).sink_ok() == old($0).sink_ok(), old($0).sink_ok() ==> r.is_ok(),
    r.is_ok() ==> (final($0)@, *final($1) as int) == below(*self.parse_tree, *old($1) as int, head_out(*old($1) as int, old($0)@)),
@opt catlits
@opt addlit
@start
let ghost a = head_out(*$1 as int, $0@);
let ghost v = self.parse_tree.rhs;
let ghost l = name_of(*self.parse_tree.lhs);
let ghost c = *$1 as int;
proof { reveal_strlit("flowchart TD\n"); reveal_strlit("flowchart TD"); assert("flowchart TD\n"@ =~= "flowchart TD"@.push('\n')); assert(below(*self.parse_tree, c, a) == belows(v, l, c, v@.len() as int, a)); }
@loop 0
$0.sink_ok() == old($0).sink_ok(), *$1 >= c, ($0@, *$1 as int) == belows(v, l, c, $it0.pos() as int, a),
@loopstart 0
proof { let n = v[$it0.pos() - 1]; assert(node_labelled(n)); assert(node_labelled(n) == match n { ParseTreeNode::Terminal(_) => true, ParseTreeNode::Nonterminal(t) => labelled(t) }); match n { ParseTreeNode::Terminal(_) => {}, ParseTreeNode::Nonterminal(t) => { assert(labelled(t)); assert(t.lhs is Nonterminal); } } }
@loopend 0
proof {
    let k = $it0.pos() as int; let (b, m) = belows(v, l, c, k - 1, a);
    let e = edge_out(c, l, m + 1, node_name(v[k - 1]), b);
    assert(belows(v, l, c, k, a) == node_below(v[k - 1], m + 1, e));
    assert(node_below(v[k - 1], m + 1, e) == match v[k - 1] { ParseTreeNode::Terminal(_) => (e, m + 1), ParseTreeNode::Nonterminal(t) => below(t, m + 1, e) });
    match v[k - 1] { ParseTreeNode::Terminal(_) => {}, ParseTreeNode::Nonterminal(t) => { lemma_below(t, m + 1, e, Seq::empty()); } }
}
//# fn grammar::MermaidParseTree@Display::fmt
@as VDisplay v_fmt
@implspec
open spec fn disp(&self) -> Seq<char> { chart(*self.parse_tree) }
open spec fn disp_req(&self) -> bool { labelled(*self.parse_tree) }
@opt catlits
@start
proof { reveal_strlit("flowchart TD\n"); reveal_strlit("flowchart TD"); assert("flowchart TD\n"@ =~= "flowchart TD"@.push('\n')); lemma_below(*self.parse_tree, 0, "flowchart TD\n"@, $0@); }
//# fn grammar::ParseTree::mermaid
@spec
ensures r.parse_tree == self,
