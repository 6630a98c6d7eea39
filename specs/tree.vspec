// Earley arena: input ranges, traversals, matching and predicting (C01-C03).
//# include parsegrammar.vspec
//# prelude
pub use crate::grammar::{ParseTree, ParseTreeNode};

/// A parse tree as a value.
pub enum PT { Leaf(Seq<char>), Node(Term, Seq<PT>) }
pub open spec fn pt(g: Seq<AbsProd>, d: DT) -> PT decreases d, 0int {
    match d { DT::Leaf(s) => PT::Leaf(s), DT::Node(p, ch) => PT::Node(g[p].0, pts(g, ch, ch.len() as int)) }
}
pub open spec fn pts(g: Seq<AbsProd>, ch: Seq<DT>, k: int) -> Seq<PT> decreases ch, k {
    if 0 < k <= ch.len() { pts(g, ch, k - 1).push(pt(g, ch[k - 1])) } else { Seq::empty() }
}
pub open spec fn tview<'g>(t: ParseTree<'g>) -> PT decreases t, 0int {
    PT::Node(*t.lhs, tviews(t.rhs, t.rhs@.len() as int))
}
pub open spec fn tviews<'g>(v: Vec<ParseTreeNode<'g>>, k: int) -> Seq<PT> decreases v, k {
    if 0 < k <= v.len() { tviews(v, k - 1).push(nview(v[k - 1])) } else { Seq::empty() }
}
pub open spec fn nview<'g>(n: ParseTreeNode<'g>) -> PT decreases n, 0int {
    match n { ParseTreeNode::Terminal(s) => PT::Leaf(s@), ParseTreeNode::Nonterminal(t) => tview(t) }
}
//# item grammar::ParseTreeNode noeq noclone
//# item grammar::ParseTree noeq noclone
//# fn grammar::ParseTree::new
@spec
ensures r.lhs == $0, r.rhs == $1,
//# module earley::input_range
//# item earley::input_range::InputRangeOffset
//# item earley::input_range::InputRange
//# fn earley::input_range::InputRangeOffset::total_len
@spec
requires self.start + self.len <= usize::MAX,
ensures r == self.start + self.len,
//# fn earley::input_range::InputRange::new
@spec
ensures r.input == $0, r.offset.start == 0, r.offset.len == 0,
//# fn earley::input_range::InputRange::next
@spec
requires self.offset.start + self.offset.len <= usize::MAX,
ensures boundary(bs(self.input@), self.offset.start + self.offset.len) ==>
    bs(r@) == bs(self.input@).subrange(self.offset.start + self.offset.len, bs(self.input@).len() as int),
//# fn earley::input_range::InputRange::after
@spec
requires self.offset.start + self.offset.len <= usize::MAX,
ensures r.input == self.input, r.offset.start == self.offset.start + self.offset.len, r.offset.len == 0,
//# fn earley::input_range::InputRange::advance_by
@spec
requires self.offset.start + self.offset.len + $0 <= bs(self.input@).len(), self.offset.len + $0 <= usize::MAX,
ensures r.input == self.input, r.offset.start == self.offset.start, r.offset.len == self.offset.len + $0,
//# fn earley::input_range::InputRange::is_complete
@spec
ensures self.offset.start == 0 ==> r == (self.offset.len == bs(self.input@).len()),
//# module earley::traversal
use crate::earley::input_range::*;
use crate::parser::grammar::{Production, ProductionId, ParseGrammar};
use crate::append_vec::*;
use vstd::std_specs::convert::{FromSpecImpl,FromSpec,IntoSpec};
impl FromSpecImpl<usize> for TraversalId { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: usize) -> Self { TraversalId(v) } }
impl FromSpecImpl<TraversalId> for usize { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: TraversalId) -> Self { v.0 } }
pub type Arena<'g> = Seq<Traversal<'g>>;
impl<'g> Traversal<'g> {
    pub open spec fn start(&self) -> int { self.input_range.offset.start as int }
    pub open spec fn total(&self) -> int { self.input_range.offset.start + self.input_range.offset.len }
    pub open spec fn pid(&self) -> int { self.production_id.0 as int }
}
/// The derivations of the terms matched so far by traversal `i`.
pub open spec fn kids<'g>(a: Arena<'g>, i: int) -> Seq<DT> decreases i, 0int {
    match a[i].from {
        None => Seq::empty(),
        Some(e) => if 0 <= e.parent_id.0 < i { kids(a, e.parent_id.0 as int).push(match e.term {
            TermMatch::Terminal(s) => DT::Leaf(s@),
            TermMatch::Nonterminal(c) => if c.0 < i { dt(a, c.0 as int) } else { arbitrary() },
        }) } else { Seq::empty() },
    }
}
pub open spec fn dt<'g>(a: Arena<'g>, i: int) -> DT decreases i, 1int { DT::Node(a[i].pid(), kids(a, i)) }
/// What holds of every traversal in the arena, for grammar `g`, text `input` and start term `st`.
pub open spec fn tr_ok<'g>(g: Seq<AbsProd>, input: &'g str, st: Term, a: Arena<'g>, i: int) -> bool {
    let t = a[i];
    &&& t.id.0 == i && 0 <= t.pid() < g.len()
    &&& t.input_range.input == input && t.total() <= bs(input@).len() && boundary(bs(input@), t.total())
    &&& t.is_starting == (t.start() == 0 && g[t.pid()].0 == st)
    &&& kids(a, i).len() <= g[t.pid()].1.len() && t.unmatched@ == g[t.pid()].1.subrange(kids(a, i).len() as int, g[t.pid()].1.len() as int)
    &&& match t.from {
        None => t.input_range.offset.len == 0,
        Some(e) => e.parent_id.0 < i && edge_ok(g, input, a, i, a[e.parent_id.0 as int], e.term),
    }
}
pub open spec fn edge_ok<'g>(g: Seq<AbsProd>, input: &'g str, a: Arena<'g>, i: int, q: Traversal<'g>, m: TermMatch<'g>) -> bool {
    let t = a[i];
    &&& q.production_id == t.production_id && q.start() == t.start() && q.unmatched@.len() > 0
    &&& can_match(g, input, a, q, m) && m_below(m, i)
    &&& t.input_range.offset.len == q.input_range.offset.len + m_len(a, m)
}
pub open spec fn m_below<'g>(m: TermMatch<'g>, i: int) -> bool { match m { TermMatch::Terminal(s) => true, TermMatch::Nonterminal(c) => c.0 < i } }
pub open spec fn m_len<'g>(a: Arena<'g>, m: TermMatch<'g>) -> int {
    match m { TermMatch::Terminal(s) => bs(s@).len() as int, TermMatch::Nonterminal(c) => a[c.0 as int].input_range.offset.len as int }
}
/// `m` may be matched as the next term of `q`.
pub open spec fn can_match<'g>(g: Seq<AbsProd>, input: &'g str, a: Arena<'g>, q: Traversal<'g>, m: TermMatch<'g>) -> bool {
    &&& q.unmatched@.len() > 0
    &&& match m {
        TermMatch::Terminal(s) => (match q.unmatched@[0] { Term::Terminal(x) => x@ == s@, _ => false })
            && q.total() + bs(s@).len() <= bs(input@).len() && bs(input@).subrange(q.total(), q.total() + bs(s@).len()) == bs(s@),
        TermMatch::Nonterminal(c) => q.unmatched@[0] is Nonterminal && c.0 < a.len() && a[c.0 as int].unmatched@.len() == 0
            && a[c.0 as int].start() == q.total() && g[a[c.0 as int].pid()].0 == q.unmatched@[0],
    }
}
pub open spec fn arena_ok<'g>(g: Seq<AbsProd>, input: &'g str, st: Term, a: Arena<'g>) -> bool {
    &&& a.len() <= usize::MAX
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] tr_ok(g, input, st, a, i)
}
pub open spec fn roots_ok<'g>(a: Arena<'g>, m: Map<TraversalRoot, TraversalId>) -> bool {
    &&& forall|k: TraversalRoot| #[trigger] m.contains_key(k) ==> m[k].0 < a.len() && a[m[k].0 as int].from is None
            && a[m[k].0 as int].production_id == k.production_id && a[m[k].0 as int].start() == k.input_start
    &&& forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).from is None ==> has_key(m, TraversalRoot { production_id: a[i].production_id, input_start: a[i].input_range.offset.start }, i)
}
pub open spec fn has_key<K>(m: Map<K, TraversalId>, k: K, i: int) -> bool { m.contains_key(k) && m[k].0 == i }
pub open spec fn edges_ok<'g>(a: Arena<'g>, m: Map<TraversalEdge<'g>, TraversalId>) -> bool {
    &&& forall|k: TraversalEdge<'g>| #[trigger] m.contains_key(k) ==> m[k].0 < a.len() && a[m[k].0 as int].from == Some(k)
    &&& forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).from is Some ==> has_key(m, a[i].from->0, i)
}
impl<'g> TraversalTree<'g> {
    pub open spec fn a(&self) -> Arena<'g> { self.arena.vec@ }
    pub open spec fn inv(&self, g: Seq<AbsProd>, input: &'g str, st: Term) -> bool {
        arena_ok(g, input, st, self.a()) && roots_ok(self.a(), self.tree_roots@) && edges_ok(self.a(), self.edges@)
    }
}
/// `b` extends `a`.
pub open spec fn ext<'g>(a: Arena<'g>, b: Arena<'g>) -> bool { a.is_prefix_of(b) }
pub open spec fn has_root<'g>(a: Arena<'g>, p: int, s: int) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).from is None && a[i].pid() == p && a[i].start() == s }
/// Every production of the start term has its root at position 0.
pub open spec fn starts_present<'g>(g: Seq<AbsProd>, st: Term, a: Arena<'g>) -> bool { forall|p: int| 0 <= p < g.len() && (#[trigger] g[p]).0 == st ==> has_root(a, p, 0) }

pub proof fn lemma_kids_ext<'g>(a: Arena<'g>, b: Arena<'g>, i: int)
    requires ext(a, b), 0 <= i < a.len(),
    ensures kids(a, i) == kids(b, i), dt(a, i) == dt(b, i),
    decreases i,
{
    assert(a[i] == b[i]);
    match a[i].from {
        Some(e) => {
            if 0 <= e.parent_id.0 < i {
                lemma_kids_ext(a, b, e.parent_id.0 as int);
                match e.term { TermMatch::Nonterminal(c) => { if c.0 < i { lemma_kids_ext(a, b, c.0 as int); } } _ => {} }
            }
        }
        None => {}
    }
}
pub proof fn lemma_arena_push<'g>(g: Seq<AbsProd>, input: &'g str, st: Term, a: Arena<'g>, t: Traversal<'g>)
    requires arena_ok(g, input, st, a), a.len() < usize::MAX, tr_ok(g, input, st, a.push(t), a.len() as int),
    ensures arena_ok(g, input, st, a.push(t)), ext(a, a.push(t)),
{
    let b = a.push(t);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] tr_ok(g, input, st, b, i) by {
        if i < a.len() {
            assert(tr_ok(g, input, st, a, i));
            lemma_kids_ext(a, b, i);
        }
    }
}
//# item earley::traversal::TraversalId
//# fn earley::traversal::TraversalId@From<usize>::from
@trait
//# fn earley::traversal::usize@From<TraversalId>::from
@trait
//# item earley::traversal::TermMatch
//# item earley::traversal::Traversal
//# item earley::traversal::TraversalEdge
//# item earley::traversal::TraversalRoot
//# item earley::traversal::TraversalArena
//# item earley::traversal::TreeRootMap
//# item earley::traversal::TreeEdgeMap
//# item earley::traversal::TraversalTree
//# fn earley::traversal::Traversal::next_unmatched
@spec
ensures r == (if self.unmatched@.len() > 0 { Some(&self.unmatched@[0]) } else { None }),
//# fn earley::traversal::TraversalTree::get
@spec
requires $0.0 < self.a().len(),
ensures *r == self.a()[$0.0 as int],
//# fn earley::traversal::TraversalTree::get_matching
@spec
requires $0.0 < self.a().len(),
ensures r == (if self.a()[$0.0 as int].unmatched@.len() > 0 { Some(&self.a()[$0.0 as int].unmatched@[0]) } else { None }),
//# module earley::traversal
/// The exact effect of matching `m` as the next term of traversal `p`.
pub open spec fn after_match<'g>(o: TraversalTree<'g>, n: TraversalTree<'g>, p: TraversalId, m: TermMatch<'g>, r: TraversalId) -> bool {
    let e = TraversalEdge { term: m, parent_id: p };
    let q = o.a()[p.0 as int];
    let t = n.a().last();
    &&& n.tree_roots@ == o.tree_roots@
    &&& if o.edges@.contains_key(e) { n.a() == o.a() && n.edges@ == o.edges@ && r == o.edges@[e] } else {
        &&& n.a().len() == o.a().len() + 1 && n.a() == o.a().push(t) && n.a().len() <= usize::MAX
        &&& n.edges@ == o.edges@.insert(e, r) && r.0 == o.a().len()
        &&& t.id == r && t.production_id == q.production_id && t.is_starting == q.is_starting && t.from == Some(e)
        &&& t.unmatched@ == q.unmatched@.subrange(1, q.unmatched@.len() as int)
        &&& t.input_range.input == q.input_range.input && t.start() == q.start()
        &&& (q.total() + m_len(o.a(), m) <= bs(q.input_range.input@).len() ==> t.input_range.offset.len == q.input_range.offset.len + m_len(o.a(), m))
    }
}
/// The exact effect of predicting production `p` at position `s`.
pub open spec fn after_predict<'g>(o: TraversalTree<'g>, n: TraversalTree<'g>, p: Production<'g>, input: &'g str, s: int, starting: bool, r: TraversalId) -> bool {
    let k = TraversalRoot { production_id: p.id, input_start: s as usize };
    let t = n.a().last();
    &&& n.edges@ == o.edges@
    &&& if o.tree_roots@.contains_key(k) { n.a() == o.a() && n.tree_roots@ == o.tree_roots@ && r == o.tree_roots@[k] } else {
        &&& n.a().len() == o.a().len() + 1 && n.a() == o.a().push(t) && n.a().len() <= usize::MAX
        &&& n.tree_roots@ == o.tree_roots@.insert(k, r) && r.0 == o.a().len()
        &&& t.id == r && t.production_id == p.id && t.is_starting == starting && t.from is None
        &&& t.unmatched@ == p.rhs.terms@
        &&& t.input_range.input == input && t.start() == s && t.input_range.offset.len == 0
    }
}
//# inline append_vec::AppendOnlyVec::push_with_id
//# default earley::traversal::TraversalTree
@spec
ensures r.a() == Seq::<Traversal<'gram>>::empty(), r.tree_roots@ == Map::<TraversalRoot, TraversalId>::empty(), r.edges@ == Map::<TraversalEdge<'gram>, TraversalId>::empty(),
//# fn earley::traversal::TraversalTree::_predict
@spec
requires $0.offset.start + $0.offset.len <= usize::MAX,
ensures after_predict(*old(self), *final(self), *$1, $0.input, $0.offset.start + $0.offset.len, $2, r),
//# fn earley::traversal::TraversalTree::predict_starting
@spec
requires $1.offset.start + $1.offset.len <= usize::MAX,
ensures after_predict(*old(self), *final(self), *$0, $1.input, $1.offset.start + $1.offset.len, true, r),
//# fn earley::traversal::TraversalTree::predict
@spec
requires $1.offset.start + $1.offset.len <= usize::MAX,
ensures after_predict(*old(self), *final(self), *$0, $1.input, $1.offset.start + $1.offset.len, false, r),
//# fn earley::traversal::TraversalTree::match_term
@spec
requires $0.0 < old(self).a().len(), old(self).a()[$0.0 as int].id == $0, old(self).a()[$0.0 as int].unmatched@.len() > 0,
    old(self).a()[$0.0 as int].total() + m_len(old(self).a(), $1) <= bs(old(self).a()[$0.0 as int].input_range.input@).len(),
    m_below($1, old(self).a().len() as int),
    old(self).a()[$0.0 as int].input_range.offset.len + m_len(old(self).a(), $1) <= usize::MAX,
ensures after_match(*old(self), *final(self), $0, $1, r),
//# module earley::traversal
use vstd::utf8::valid_utf8;
pub proof fn lemma_boundary_step(i: Seq<u8>, p: int, l: Seq<u8>)
    requires boundary(i, p), valid_utf8(i), valid_utf8(l), p + l.len() <= i.len(), i.subrange(p, p + l.len()) == l,
    ensures boundary(i, p + l.len()),
{
    let a = i.subrange(0, p);
    let q = p + l.len();
    lemma_utf8_concat(a, l);
    assert(i.subrange(0, q) =~= a + l);
    assert(i =~= i.subrange(0, q) + i.subrange(q, i.len() as int));
    lemma_utf8_cancel(i.subrange(0, q), i.subrange(q, i.len() as int));
}
/// Matching a term that can be matched keeps the invariant and yields the traversal reached by that edge.
pub proof fn lemma_match<'g>(g: Seq<AbsProd>, input: &'g str, st: Term, o: TraversalTree<'g>, n: TraversalTree<'g>, p: TraversalId, m: TermMatch<'g>, r: TraversalId)
    requires o.inv(g, input, st), p.0 < o.a().len(), can_match(g, input, o.a(), o.a()[p.0 as int], m), after_match(o, n, p, m, r),
    ensures n.inv(g, input, st), ext(o.a(), n.a()), r.0 < n.a().len(), n.a()[r.0 as int].from == Some(TraversalEdge { term: m, parent_id: p }),
{
    let e = TraversalEdge { term: m, parent_id: p };
    let a = o.a();
    let b = n.a();
    assert(tr_ok(g, input, st, a, p.0 as int));
    if !o.edges@.contains_key(e) {
        let q = a[p.0 as int];
        let t = b.last();
        let i = a.len() as int;
        assert(b[i] == t);
        assert(ext(a, b));
        lemma_kids_ext(a, b, p.0 as int);
        assert(kids(b, i).len() == kids(a, p.0 as int).len() + 1);
        assert(t.unmatched@ =~= g[t.pid()].1.subrange(kids(b, i).len() as int, g[t.pid()].1.len() as int));
        match m {
            TermMatch::Terminal(s) => {
                lemma_utf8_valid(input@); lemma_utf8_valid(s@);
                lemma_boundary_step(bs(input@), q.total(), bs(s@));
            }
            TermMatch::Nonterminal(c) => { assert(tr_ok(g, input, st, a, c.0 as int)); assert(b[c.0 as int] == a[c.0 as int]); }
        }
        assert(b[p.0 as int] == q);
        assert(edge_ok(g, input, b, i, q, m));
        assert(tr_ok(g, input, st, b, i));
        assert(b == a.push(t));
        lemma_arena_push(g, input, st, a, t);
        assert forall|j: int| 0 <= j < b.len() && (#[trigger] b[j]).from is Some implies has_key(n.edges@, b[j].from->0, j) by {
            if j < a.len() { assert(b[j] == a[j]); assert(has_key(o.edges@, a[j].from->0, j)); }
        }
        assert forall|k: TraversalEdge<'g>| #[trigger] n.edges@.contains_key(k) implies n.edges@[k].0 < b.len() && b[n.edges@[k].0 as int].from == Some(k) by {
            if k != e { assert(o.edges@.contains_key(k)); }
        }
        assert forall|j: int| 0 <= j < b.len() && (#[trigger] b[j]).from is None implies has_key(n.tree_roots@, TraversalRoot { production_id: b[j].production_id, input_start: b[j].input_range.offset.start }, j) by { assert(b[j] == a[j]); }
        assert forall|k: TraversalRoot| #[trigger] n.tree_roots@.contains_key(k) implies n.tree_roots@[k].0 < b.len() && b[n.tree_roots@[k].0 as int].from is None
            && b[n.tree_roots@[k].0 as int].production_id == k.production_id && b[n.tree_roots@[k].0 as int].start() == k.input_start by { assert(o.tree_roots@.contains_key(k)); }
    }
}
pub proof fn lemma_predict<'g>(g: Seq<AbsProd>, input: &'g str, st: Term, o: TraversalTree<'g>, n: TraversalTree<'g>, p: Production<'g>, s: int, starting: bool, r: TraversalId)
    requires o.inv(g, input, st), after_predict(o, n, p, input, s, starting, r),
        0 <= p.id.0 < g.len(), p.rhs.terms@ == g[p.id.0 as int].1, *p.lhs == g[p.id.0 as int].0,
        0 <= s <= bs(input@).len(), boundary(bs(input@), s),
        starting ==> s == 0 && g[p.id.0 as int].0 == st,
        !starting ==> starts_present(g, st, o.a()),
    ensures n.inv(g, input, st), ext(o.a(), n.a()), r.0 < n.a().len(), n.a()[r.0 as int].from is None, n.a()[r.0 as int].pid() == p.id.0, n.a()[r.0 as int].start() == s,
{
    broadcast use axiom_str_len;
    let a = o.a();
    let b = n.a();
    let k = TraversalRoot { production_id: p.id, input_start: s as usize };
    assert(bs(input@).len() <= isize::MAX);
    if !o.tree_roots@.contains_key(k) {
        let t = b.last();
        let i = a.len() as int;
        assert(b[i] == t);
        assert(ext(a, b));
        if s == 0 && g[p.id.0 as int].0 == st && !starting {
            assert(has_root(a, p.id.0 as int, 0));
            let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).from is None && a[j].pid() == p.id.0 && a[j].start() == 0;
            assert(has_key(o.tree_roots@, TraversalRoot { production_id: a[j].production_id, input_start: a[j].input_range.offset.start }, j));
            assert(false);
        }
        assert(t.unmatched@ =~= g[t.pid()].1.subrange(kids(b, i).len() as int, g[t.pid()].1.len() as int));
        assert(tr_ok(g, input, st, b, i));
        assert(b == a.push(t));
        lemma_arena_push(g, input, st, a, t);
        assert forall|j: int| 0 <= j < b.len() && (#[trigger] b[j]).from is Some implies has_key(n.edges@, b[j].from->0, j) by { assert(b[j] == a[j]); }
        assert forall|k: TraversalEdge<'g>| #[trigger] n.edges@.contains_key(k) implies n.edges@[k].0 < b.len() && b[n.edges@[k].0 as int].from == Some(k) by { assert(o.edges@.contains_key(k)); }
        assert forall|j: int| 0 <= j < b.len() && (#[trigger] b[j]).from is None implies has_key(n.tree_roots@, TraversalRoot { production_id: b[j].production_id, input_start: b[j].input_range.offset.start }, j) by {
            if j < a.len() { assert(b[j] == a[j]); assert(has_key(o.tree_roots@, TraversalRoot { production_id: a[j].production_id, input_start: a[j].input_range.offset.start }, j)); }
        }
        assert forall|kk: TraversalRoot| #[trigger] n.tree_roots@.contains_key(kk) implies n.tree_roots@[kk].0 < b.len() && b[n.tree_roots@[kk].0 as int].from is None
            && b[n.tree_roots@[kk].0 as int].production_id == kk.production_id && b[n.tree_roots@[kk].0 as int].start() == kk.input_start by { if kk != k { assert(o.tree_roots@.contains_key(kk)); } }
    } else { assert(ext(a, b)); }
}
