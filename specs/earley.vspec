// Earley parsing (C01-C03).
//# include tree.vspec
//# module earley::traversal
pub open spec fn ups<'g>(a: Arena<'g>) -> bool { forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).from is Some ==> a[i].from->0.parent_id.0 < i && m_below(a[i].from->0.term, i) }
/// `c` is `l` or one of its ancestors.
pub open spec fn anc<'g>(a: Arena<'g>, c: int, l: int) -> bool decreases l {
    c == l || match a[l].from { Some(e) => 0 <= e.parent_id.0 < l && anc(a, c, e.parent_id.0 as int), None => false }
}
pub proof fn lemma_anc_up<'g>(a: Arena<'g>, c: int, l: int)
    requires anc(a, c, l), a[c].from is Some, 0 <= a[c].from->0.parent_id.0 < c, c <= l,
    ensures anc(a, a[c].from->0.parent_id.0 as int, l),
    decreases l,
{
    if c == l {
        assert(anc(a, a[c].from->0.parent_id.0 as int, a[c].from->0.parent_id.0 as int));
    } else { lemma_anc_le(a, c, a[l].from->0.parent_id.0 as int); lemma_anc_up(a, c, a[l].from->0.parent_id.0 as int); }
}
pub proof fn lemma_anc_le<'g>(a: Arena<'g>, c: int, l: int)
    requires anc(a, c, l),
    ensures c <= l,
    decreases l,
{
    if c != l { lemma_anc_le(a, c, a[l].from->0.parent_id.0 as int); }
}
impl<'g, 't> TraversalMatchIter<'g, 't> {
    pub open spec fn wf(&self) -> bool {
        ups(self.tree.a()) && self.last.0 < self.tree.a().len() && self.current.0 <= self.last.0 && anc(self.tree.a(), self.current.0 as int, self.last.0 as int)
    }
    pub fn v_into_iter(self) -> (r: Self) ensures r == self { self }
}
//# item earley::traversal::TraversalMatchIter
//# fn earley::traversal::TraversalMatchIter::new
@muts current
@spec
requires ups($1.a()), $0.0 < $1.a().len(),
ensures r.wf(), r.tree == $1, r.last == $0, r.tree.a()[r.current.0 as int].from is None,
@loop 0
invariant ups($1.a()), $0.0 < $1.a().len(), $m0.0 < $1.a().len(), anc($1.a(), $m0.0 as int, $0.0 as int),

decreases $m0.0,
@loopstart 0
proof { lemma_anc_le($1.a(), $m0.0 as int, $0.0 as int); if $1.a()[$m0.0 as int].from is Some { lemma_anc_up($1.a(), $m0.0 as int, $0.0 as int); } }
@end
proof { lemma_anc_le($1.a(), $m0.0 as int, $0.0 as int); }
//# fn earley::traversal::TraversalMatchIter@Iterator::next
@muts scan
@spec
requires old(self).wf(),
ensures final(self).wf(), final(self).tree == old(self).tree, final(self).last == old(self).last,
    r.is_none() == (old(self).current == old(self).last),
    match r { None => final(self).current == old(self).current,
        Some(m) => final(self).tree.a()[final(self).current.0 as int].from == Some(TraversalEdge { term: *m, parent_id: old(self).current }) },
@loop 0
invariant *self == *old(self), self.wf(), $m0.0 < self.tree.a().len(), $m0 != self.current,
anc(self.tree.a(), self.current.0 as int, $m0.0 as int), anc(self.tree.a(), $m0.0 as int, self.last.0 as int),

decreases $m0.0,
@loopstart 0
proof { lemma_anc_le(self.tree.a(), $m0.0 as int, self.last.0 as int); if self.tree.a()[$m0.0 as int].from is Some { lemma_anc_up(self.tree.a(), $m0.0 as int, self.last.0 as int); } }
//# fn earley::traversal::TraversalTree::get_matched
@rettype TraversalMatchIter<'gram, '_>
@spec
requires ups(self.a()), $0.0 < self.a().len(),
ensures r.wf(), r.tree == self, r.last == $0, self.a()[r.current.0 as int].from is None,
//# module earley
use crate::earley::input_range::*;
use crate::earley::traversal::*;
use crate::parser::grammar::{ProductionId, ParseGrammar};
use std::rc::Rc;
pub open spec fn pids_ok<'g>(g: Seq<AbsProd>, a: Arena<'g>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).pid() < g.len() }
pub proof fn lemma_pts_push(g: Seq<AbsProd>, ch: Seq<DT>, x: DT)
    ensures pts(g, ch.push(x), ch.len() as int + 1) == pts(g, ch, ch.len() as int).push(pt(g, x)),
{
    lemma_pts_push_a(g, ch, x, ch.len() as int);
    assert(ch.push(x)[ch.len() as int] == x);
}
pub proof fn lemma_pts_push_a(g: Seq<AbsProd>, ch: Seq<DT>, x: DT, k: int)
    requires 0 <= k <= ch.len(),
    ensures pts(g, ch.push(x), k) == pts(g, ch, k),
    decreases k,
{
    if k > 0 { lemma_pts_push_a(g, ch, x, k - 1); assert(ch.push(x)[k - 1] == ch[k - 1]); }
}
pub proof fn lemma_tviews_push<'g>(v: Vec<ParseTreeNode<'g>>, w: Vec<ParseTreeNode<'g>>, k: int)
    requires 0 <= k <= v@.len(), v@.is_prefix_of(w@),
    ensures tviews(w, k) == tviews(v, k),
    decreases k,
{
    if k > 0 { lemma_tviews_push(v, w, k - 1); assert(w@[k - 1] == v@[k - 1]); }
}
//# fn earley::parse_tree
@muts rhs
@attr #[verifier::spinoff_prover]
@next 0
@spec
requires ups($0.a()), pids_ok($1.abs(), $0.a()), $2.0 < $0.a().len(),
ensures tview(r) == pt($1.abs(), dt($0.a(), $2.0 as int)),
decreases $2.0,
@loop 0
invariant $it.wf(), $it.tree == $0, $it.last == $2, $m0@.len() == kids($0.a(), $it.current.0 as int).len(),
    tviews($m0, $m0@.len() as int) == pts($1.abs(), kids($0.a(), $it.current.0 as int), $m0@.len() as int),
decreases $2.0 - $it.current.0,
@loopstart 0
let ghost v0 = $m0; let ghost cur = $it.current;
proof { lemma_anc_le($0.a(), cur.0 as int, $2.0 as int); }
@loopend 0
proof { let x = $m0@.last(); let d = kids($0.a(), $it.current.0 as int).last(); let e = $0.a()[$it.current.0 as int].from->0;
    match e.term { TermMatch::Terminal(s) => { assert(d == DT::Leaf(s@)); assert(pt($1.abs(), d) == PT::Leaf(s@)); assert(nview(x) == PT::Leaf(s@)); }
        TermMatch::Nonterminal(c) => { assert(d == dt($0.a(), c.0 as int)); assert(nview(x) == tview(x->Nonterminal_0)); assert(nview(x) == pt($1.abs(), d)); } }
    assert($m0@ == v0@.push(x));
    assert(tviews($m0, $m0@.len() as int) == tviews($m0, $m0@.len() - 1).push(nview(x)));
    lemma_tviews_push(v0, $m0, v0@.len() as int);
    lemma_pts_push($1.abs(), kids($0.a(), cur.0 as int), kids($0.a(), $it.current.0 as int).last());
    assert(kids($0.a(), $it.current.0 as int) == kids($0.a(), cur.0 as int).push(kids($0.a(), $it.current.0 as int).last())); }
//# module earley
use crate::append_vec::*;
use std::collections::VecDeque;
/// What the run is about: grammar, text and start term.
pub ghost struct Env<'g> { pub g: Seq<AbsProd>, pub input: &'g str, pub st: Term }
pub open spec fn done(q: TraversalQueue, i: TraversalId) -> bool { q.processed@.contains(i) && !q.queue@.contains(i) }
pub open spec fn q_ok(q: TraversalQueue, n: nat) -> bool {
    &&& q.queue@.no_duplicates()
    &&& forall|i: TraversalId| #[trigger] q.queue@.contains(i) ==> q.processed@.contains(i)
    &&& forall|i: TraversalId| #[trigger] q.processed@.contains(i) ==> i.0 < n
}
pub open spec fn after_push(o: TraversalQueue, n: TraversalQueue, id: TraversalId) -> bool {
    &&& n.processed@ =~= o.processed@.insert(id)
    &&& n.queue@ == (if o.processed@.contains(id) { o.queue@ } else { o.queue@.push(id) })
}
pub open spec fn root_proc<'g>(a: Arena<'g>, q: TraversalQueue, p: int, s: int) -> bool {
    exists|i: TraversalId| #[trigger] q.processed@.contains(i) && i.0 < a.len() && a[i.0 as int].from is None && a[i.0 as int].pid() == p && a[i.0 as int].start() == s
}
pub open spec fn edge_proc<'g>(a: Arena<'g>, q: TraversalQueue, par: TraversalId, m: TermMatch<'g>) -> bool {
    exists|i: TraversalId| #[trigger] q.processed@.contains(i) && i.0 < a.len() && a[i.0 as int].from == Some(TraversalEdge { term: m, parent_id: par })
}
pub open spec fn listed<'g>(m: Map<CompletionKey<'g>, Vec<TraversalId>>, t: Term, s: usize, i: TraversalId) -> bool {
    m.contains_key(CompletionKey { term: &t, input_start: s }) && m[CompletionKey { term: &t, input_start: s }]@.contains(i)
}
/// Completion maps list only what belongs under the key.
pub open spec fn comp_ok<'g>(g: Seq<AbsProd>, a: Arena<'g>, c: CompletionMap<'g>) -> bool {
    &&& forall|t: Term, s: usize, i: TraversalId| #[trigger] listed(c.incomplete@, t, s, i) ==> i.0 < a.len() && a[i.0 as int].unmatched@.len() > 0
        && a[i.0 as int].unmatched@[0] == t && t is Nonterminal && a[i.0 as int].total() == s
    &&& forall|t: Term, s: usize, i: TraversalId| #[trigger] listed(c.complete@, t, s, i) ==> i.0 < a.len() && a[i.0 as int].unmatched@.len() == 0
        && g[a[i.0 as int].pid()].0 == t && a[i.0 as int].start() == s
}
pub open spec fn base<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>) -> bool {
    &&& tree.inv(e.g, e.input, e.st)
    &&& q_ok(q, tree.a().len())
    &&& comp_ok(e.g, tree.a(), c)
    &&& forall|p: int| 0 <= p < e.g.len() && (#[trigger] e.g[p]).0 == e.st ==> root_proc(tree.a(), q, p, 0)
    &&& tree.a().len() > 0 ==> tree.a()[0].is_starting
}
/// Everything the algorithm owes for a processed traversal has been done.
pub open spec fn expanded<'g>(e: Env<'g>, a: Arena<'g>, q: TraversalQueue, c: CompletionMap<'g>, i: TraversalId) -> bool {
    let t = a[i.0 as int];
    if t.unmatched@.len() == 0 { listed(c.complete@, e.g[t.pid()].0, t.input_range.offset.start, i) } else {
        match t.unmatched@[0] {
            Term::Nonterminal(_) => listed(c.incomplete@, t.unmatched@[0], t.total() as usize, i)
                && forall|p: int| 0 <= p < e.g.len() && (#[trigger] e.g[p]).0 == t.unmatched@[0] ==> root_proc(a, q, p, t.total()),
            Term::Terminal(_) => forall|s: &'g str| #[trigger] can_match(e.g, e.input, a, t, TermMatch::Terminal(s)) ==> edge_proc(a, q, i, TermMatch::Terminal(s)),
        }
    }
}
pub open spec fn closed_but<'g>(e: Env<'g>, a: Arena<'g>, q: TraversalQueue, c: CompletionMap<'g>, cur: Option<TraversalId>) -> bool { want_all() ==> closed_all(e, a, q, c, cur) }
pub open spec fn closed_all<'g>(e: Env<'g>, a: Arena<'g>, q: TraversalQueue, c: CompletionMap<'g>, cur: Option<TraversalId>) -> bool {
    &&& forall|i: TraversalId| #[trigger] q.processed@.contains(i) && !q.queue@.contains(i) && Some(i) != cur ==> expanded(e, a, q, c, i)
    &&& forall|t: Term, s: usize, i: TraversalId, k: TraversalId| #[trigger] listed(c.incomplete@, t, s, i) && #[trigger] listed(c.complete@, t, s, k) && Some(i) != cur && Some(k) != cur
        ==> edge_proc(a, q, i, TermMatch::Nonterminal(k))
}
/// A traversal that is a parse of the whole text.
pub open spec fn full<'g>(e: Env<'g>, a: Arena<'g>, i: TraversalId) -> bool {
    i.0 < a.len() && a[i.0 as int].unmatched@.len() == 0 && a[i.0 as int].is_starting && a[i.0 as int].start() == 0 && a[i.0 as int].total() == bs(e.input@).len()
}
/// Since `q0`: nothing is undone, and no full parse other than `cur` has been passed over.
pub open spec fn hist<'g>(e: Env<'g>, a: Arena<'g>, q0: TraversalQueue, q: TraversalQueue, cur: Option<TraversalId>) -> bool {
    &&& cur is Some ==> done(q, cur->0)
    &&& want_once() ==> forall|i: TraversalId| #[trigger] done(q0, i) ==> done(q, i) && Some(i) != cur
    &&& want_all() ==> forall|i: TraversalId| #[trigger] done(q, i) && full(e, a, i) && Some(i) != cur ==> done(q0, i)
}
#[verifier::opaque]
pub open spec fn run_inv<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, q0: TraversalQueue, cur: Option<TraversalId>) -> bool {
    base(e, tree, q, c) && closed_but(e, tree.a(), q, c, cur) && hist(e, tree.a(), q0, q, cur)
}
pub proof fn lemma_mono_root<'g>(a: Arena<'g>, q: TraversalQueue, a2: Arena<'g>, q2: TraversalQueue, p: int, s: int)
    requires root_proc(a, q, p, s), ext(a, a2), q.processed@.subset_of(q2.processed@),
    ensures root_proc(a2, q2, p, s),
{
    let i = choose|i: TraversalId| #[trigger] q.processed@.contains(i) && i.0 < a.len() && a[i.0 as int].from is None && a[i.0 as int].pid() == p && a[i.0 as int].start() == s;
    assert(q2.processed@.contains(i)); assert(a2[i.0 as int] == a[i.0 as int]);
}
pub proof fn lemma_mono_edge<'g>(a: Arena<'g>, q: TraversalQueue, a2: Arena<'g>, q2: TraversalQueue, par: TraversalId, m: TermMatch<'g>)
    requires edge_proc(a, q, par, m), ext(a, a2), q.processed@.subset_of(q2.processed@),
    ensures edge_proc(a2, q2, par, m),
{
    let i = choose|i: TraversalId| #[trigger] q.processed@.contains(i) && i.0 < a.len() && a[i.0 as int].from == Some(TraversalEdge { term: m, parent_id: par });
    assert(q2.processed@.contains(i)); assert(a2[i.0 as int] == a[i.0 as int]);
}
pub proof fn lemma_mono_expanded<'g>(e: Env<'g>, a: Arena<'g>, q: TraversalQueue, a2: Arena<'g>, q2: TraversalQueue, c: CompletionMap<'g>, i: TraversalId)
    requires expanded(e, a, q, c, i), i.0 < a.len(), ext(a, a2), q.processed@.subset_of(q2.processed@),
    ensures expanded(e, a2, q2, c, i),
{
    let t = a[i.0 as int];
    assert(a2[i.0 as int] == t);
    if t.unmatched@.len() > 0 {
        match t.unmatched@[0] {
            Term::Nonterminal(_) => {
                assert forall|p: int| 0 <= p < e.g.len() && (#[trigger] e.g[p]).0 == t.unmatched@[0] implies root_proc(a2, q2, p, t.total()) by { lemma_mono_root(a, q, a2, q2, p, t.total()); }
            }
            Term::Terminal(_) => {
                assert forall|s: &'g str| #[trigger] can_match(e.g, e.input, a2, t, TermMatch::Terminal(s)) implies edge_proc(a2, q2, i, TermMatch::Terminal(s)) by {
                    assert(can_match(e.g, e.input, a, t, TermMatch::Terminal(s)));
                    lemma_mono_edge(a, q, a2, q2, i, TermMatch::Terminal(s));
                }
            }
        }
    }
}
/// Growing the arena and queueing the traversal obtained keeps everything.
pub proof fn lemma_push<'g>(e: Env<'g>, o: TraversalTree<'g>, n: TraversalTree<'g>, q: TraversalQueue, q2: TraversalQueue, c: CompletionMap<'g>, q0: TraversalQueue, cur: Option<TraversalId>, r: TraversalId)
    requires run_inv(e, o, q, c, q0, cur), n.inv(e.g, e.input, e.st), ext(o.a(), n.a()), r.0 < n.a().len(), after_push(q, q2, r), n.a()[0].is_starting,
    ensures run_inv(e, n, q2, c, q0, cur), q2.processed@.contains(r), q.processed@.subset_of(q2.processed@),
{
    reveal(run_inv);
    let a = o.a();
    let b = n.a();
    assert forall|i: TraversalId| i.0 < a.len() implies #[trigger] b[i.0 as int] == a[i.0 as int] by {}
    assert forall|i: TraversalId| #[trigger] q2.queue@.contains(i) == (q.queue@.contains(i) || (i == r && !q.processed@.contains(r))) by {
        if !q.processed@.contains(r) {
            if q.queue@.contains(i) { let k = choose|k: int| 0 <= k < q.queue@.len() && q.queue@[k] == i; assert(q2.queue@[k] == i); }
            if i == r { assert(q2.queue@[q.queue@.len() as int] == r); }
        }
    }
    if !q.processed@.contains(r) { assert(!q.queue@.contains(r)); assert forall|k: int| 0 <= k < q.queue@.len() implies #[trigger] q.queue@[k] != r by { assert(q.queue@.contains(q.queue@[k])); } }
    assert(q2.queue@.no_duplicates());
    assert(q_ok(q2, b.len()));
    assert forall|p: int| 0 <= p < e.g.len() && (#[trigger] e.g[p]).0 == e.st implies root_proc(b, q2, p, 0) by { lemma_mono_root(a, q, b, q2, p, 0); }
    if want_all() { assert forall|i: TraversalId| #[trigger] q2.processed@.contains(i) && !q2.queue@.contains(i) && Some(i) != cur implies expanded(e, b, q2, c, i) by {
        assert(q.processed@.contains(i));
        lemma_mono_expanded(e, a, q, b, q2, c, i);
    } }
    if want_all() { assert forall|t: Term, s: usize, i: TraversalId, k: TraversalId| #[trigger] listed(c.incomplete@, t, s, i) && #[trigger] listed(c.complete@, t, s, k) && Some(i) != cur && Some(k) != cur
        implies edge_proc(b, q2, i, TermMatch::Nonterminal(k)) by { lemma_mono_edge(a, q, b, q2, i, TermMatch::Nonterminal(k)); } }
    if want_once() { assert forall|i: TraversalId| #[trigger] done(q0, i) implies done(q2, i) && Some(i) != cur by { assert(done(q, i)); } }
    if want_all() { assert forall|i: TraversalId| #[trigger] done(q2, i) && full(e, b, i) && Some(i) != cur implies done(q0, i) by { assert(done(q, i)); assert(q.processed@.contains(i)); } }
}

pub proof fn lemma_pop<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, q2: TraversalQueue, c: CompletionMap<'g>, q0: TraversalQueue)
    requires run_inv(e, tree, q, c, q0, None), q.queue@.len() > 0, q2.processed@ == q.processed@, q2.queue@ == q.queue@.subrange(1, q.queue@.len() as int),
    ensures run_inv(e, tree, q2, c, q0, Some(q.queue@[0])), done(q2, q.queue@[0]), want_once() ==> !done(q0, q.queue@[0]), q.queue@[0].0 < tree.a().len(), tree.a()[0].is_starting,
        tr_ok(e.g, e.input, e.st, tree.a(), q.queue@[0].0 as int),
{
    reveal(run_inv);
    let cur = q.queue@[0];
    let a = tree.a();
    assert(q.queue@.contains(cur));
    assert(q.processed@.contains(cur));
    assert forall|i: TraversalId| #[trigger] q2.queue@.contains(i) == (q.queue@.contains(i) && i != cur) by {
        if q.queue@.contains(i) && i != cur { let k = choose|k: int| 0 <= k < q.queue@.len() && q.queue@[k] == i; assert(q2.queue@[k - 1] == i); }
        if q2.queue@.contains(i) { let k = choose|k: int| 0 <= k < q2.queue@.len() && q2.queue@[k] == i; assert(q.queue@[k + 1] == i); assert(q.queue@[0] == cur); }
    }
    assert(q2.queue@.no_duplicates());
    assert(!done(q, cur));
    assert forall|p: int| 0 <= p < e.g.len() && (#[trigger] e.g[p]).0 == e.st implies root_proc(a, q2, p, 0) by { lemma_mono_root(a, q, a, q2, p, 0); }
    if want_all() { assert forall|i: TraversalId| #[trigger] q2.processed@.contains(i) && !q2.queue@.contains(i) && i != cur implies expanded(e, a, q2, c, i) by {
        assert(q.processed@.contains(i));
        lemma_mono_expanded(e, a, q, a, q2, c, i);
    } }
    if want_all() { assert forall|t: Term, s: usize, i: TraversalId, k: TraversalId| #[trigger] listed(c.incomplete@, t, s, i) && #[trigger] listed(c.complete@, t, s, k) && i != cur && k != cur
        implies edge_proc(a, q2, i, TermMatch::Nonterminal(k)) by { lemma_mono_edge(a, q, a, q2, i, TermMatch::Nonterminal(k)); } }
    if want_once() { assert forall|i: TraversalId| #[trigger] done(q0, i) implies done(q2, i) && i != cur by { assert(done(q, i)); } }
    if want_all() { assert forall|i: TraversalId| #[trigger] done(q2, i) && full(e, a, i) && i != cur implies done(q0, i) by { assert(done(q, i)); } }
}
/// The exact effect of recording a traversal in the completion maps.
pub open spec fn after_cinsert<'g>(o: CompletionMap<'g>, n: CompletionMap<'g>, t: Traversal<'g>, lhs: Term) -> bool {
    if t.unmatched@.len() == 0 {
        &&& n.incomplete@ == o.incomplete@
        &&& forall|x: Term, s: usize, i: TraversalId| #[trigger] listed(n.complete@, x, s, i) == (listed(o.complete@, x, s, i) || (x == lhs && s == t.start() && i == t.id))
    } else {
        &&& n.complete@ == o.complete@
        &&& if t.unmatched@[0] is Nonterminal {
            forall|x: Term, s: usize, i: TraversalId| #[trigger] listed(n.incomplete@, x, s, i) == (listed(o.incomplete@, x, s, i) || (x == t.unmatched@[0] && s == t.total() && i == t.id))
        } else { n.incomplete@ == o.incomplete@ }
    }
}
pub proof fn lemma_cinsert<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, c2: CompletionMap<'g>, q0: TraversalQueue, cur: TraversalId)
    requires run_inv(e, tree, q, c, q0, Some(cur)), cur.0 < tree.a().len(), after_cinsert(c, c2, tree.a()[cur.0 as int], e.g[tree.a()[cur.0 as int].pid()].0),
    ensures run_inv(e, tree, q, c2, q0, Some(cur)),
{
    reveal(run_inv);
    let a = tree.a();
    assert(tr_ok(e.g, e.input, e.st, a, cur.0 as int));
    if want_all() { assert forall|i: TraversalId| #[trigger] q.processed@.contains(i) && !q.queue@.contains(i) && i != cur implies expanded(e, a, q, c2, i) by { assert(expanded(e, a, q, c, i)); } }
}
/// Once everything owed for `cur` has been done, nothing is left open.
pub proof fn lemma_finish<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, q0: TraversalQueue, cur: TraversalId)
    requires run_inv(e, tree, q, c, q0, Some(cur)), want_all() ==> expanded(e, tree.a(), q, c, cur),
        want_all() ==> forall|t: Term, s: usize, k: TraversalId| #[trigger] listed(c.incomplete@, t, s, cur) && #[trigger] listed(c.complete@, t, s, k) ==> edge_proc(tree.a(), q, cur, TermMatch::Nonterminal(k)),
        want_all() ==> forall|t: Term, s: usize, i: TraversalId| #[trigger] listed(c.incomplete@, t, s, i) && #[trigger] listed(c.complete@, t, s, cur) ==> edge_proc(tree.a(), q, i, TermMatch::Nonterminal(cur)),
    ensures base(e, tree, q, c), closed_but(e, tree.a(), q, c, None), !full(e, tree.a(), cur) ==> run_inv(e, tree, q, c, q0, None),
{
    reveal(run_inv);
}
//# item earley::TraversalQueue
//# item earley::CompletionKey
//# item earley::CompletionMap
//# default earley::TraversalQueue
@spec
ensures r.processed@ == Set::<TraversalId>::empty(), r.queue@ == Seq::<TraversalId>::empty(),
//# fn earley::TraversalQueue::pop_front
@spec
ensures
    match r { None => old(self).queue@.len() == 0 && q_same(*old(self), *final(self)),
        Some(i) => popped(*old(self), *final(self), i) },
//# fn earley::TraversalQueue::push_back
@spec
ensures after_push(*old(self), *final(self), $0),
//# fn earley::CompletionKey::new_start
@spec
ensures r == (CompletionKey { term: $0, input_start: $1.offset.start }),
//# fn earley::CompletionKey::new_total
@spec
requires $1.offset.start + $1.offset.len <= usize::MAX,
ensures r == (CompletionKey { term: $0, input_start: ($1.offset.start + $1.offset.len) as usize }),
//# fn earley::sorted_vec_insert
@spec
ensures forall|i: TraversalId| #[trigger] final($0)@.contains(i) == (old($0)@.contains(i) || i == $1),
@start
broadcast use lemma_insert_contains;
//# fn earley::CompletionMap::with_capacity
@spec
ensures r.incomplete@ == Map::<CompletionKey<'gram>, Vec<TraversalId>>::empty(), r.complete@ == Map::<CompletionKey<'gram>, Vec<TraversalId>>::empty(),
//# fn earley::CompletionMap::get_incomplete
@rettype SeqIter<TraversalId>
@spec
ensures r.pos() == 0, forall|i: TraversalId| #![trigger r.all().contains(i)] #![trigger listed(self.incomplete@, *$0, $1.input_range.offset.start, i)] r.all().contains(i) == listed(self.incomplete@, *$0, $1.input_range.offset.start, i),
    forall|k: int| 0 <= k < r.all().len() ==> listed(self.incomplete@, *$0, $1.input_range.offset.start, #[trigger] r.all()[k]),
@start
broadcast use lemma_index_contains;
//# fn earley::CompletionMap::get_complete
@rettype SeqIter<TraversalId>
@spec
requires $1.offset.start + $1.offset.len <= usize::MAX,
ensures r.pos() == 0, forall|i: TraversalId| #![trigger r.all().contains(i)] #![trigger listed(self.complete@, *$0, ($1.offset.start + $1.offset.len) as usize, i)] r.all().contains(i) == listed(self.complete@, *$0, ($1.offset.start + $1.offset.len) as usize, i),
    forall|k: int| 0 <= k < r.all().len() ==> listed(self.complete@, *$0, ($1.offset.start + $1.offset.len) as usize, #[trigger] r.all()[k]),
@start
broadcast use lemma_index_contains;
//# fn earley::CompletionMap::insert
@spec
requires $0.total() <= usize::MAX,
ensures after_cinsert(*old(self), *final(self), *$0, *$1),
//# module earley
pub open spec fn popped(o: TraversalQueue, n: TraversalQueue, i: TraversalId) -> bool {
    o.queue@.len() > 0 && i == o.queue@[0] && n.processed@ == o.processed@ && n.queue@ == o.queue@.subrange(1, o.queue@.len() as int)
}
pub open spec fn grew<'g>(a: Arena<'g>, q: TraversalQueue, a2: Arena<'g>, q2: TraversalQueue) -> bool { ext(a, a2) && q.processed@.subset_of(q2.processed@) }
pub broadcast proof fn b_mono_root<'g>(a: Arena<'g>, q: TraversalQueue, a2: Arena<'g>, q2: TraversalQueue, p: int, s: int)
    requires #[trigger] root_proc(a, q, p, s), #[trigger] grew(a, q, a2, q2),
    ensures root_proc(a2, q2, p, s),
{ lemma_mono_root(a, q, a2, q2, p, s); }
pub broadcast proof fn b_mono_edge<'g>(a: Arena<'g>, q: TraversalQueue, a2: Arena<'g>, q2: TraversalQueue, par: TraversalId, m: TermMatch<'g>)
    requires #[trigger] edge_proc(a, q, par, m), #[trigger] grew(a, q, a2, q2),
    ensures edge_proc(a2, q2, par, m),
{ lemma_mono_edge(a, q, a2, q2, par, m); }
pub broadcast proof fn b_pop<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, q2: TraversalQueue, c: CompletionMap<'g>, q0: TraversalQueue, i: TraversalId)
    requires #[trigger] run_inv(e, tree, q, c, q0, None), #[trigger] popped(q, q2, i),
    ensures run_inv(e, tree, q2, c, q0, Some(i)), done(q2, i), want_once() ==> !done(q0, i), i.0 < tree.a().len(), tree.a()[0].is_starting,
        tr_ok(e.g, e.input, e.st, tree.a(), i.0 as int),
{ lemma_pop(e, tree, q, q2, c, q0); }
pub broadcast proof fn b_predict<'g>(e: Env<'g>, o: TraversalTree<'g>, n: TraversalTree<'g>, q: TraversalQueue, q2: TraversalQueue, c: CompletionMap<'g>, q0: TraversalQueue, cur: TraversalId,
        p: crate::parser::grammar::Production<'g>, s: int, r: TraversalId)
    requires #[trigger] run_inv(e, o, q, c, q0, Some(cur)), #[trigger] after_predict(o, n, p, e.input, s, false, r), #[trigger] after_push(q, q2, r),
        0 <= p.id.0 < e.g.len(), p.rhs.terms@ == e.g[p.id.0 as int].1, *p.lhs == e.g[p.id.0 as int].0, boundary(bs(e.input@), s), o.a().len() > 0,
    ensures run_inv(e, n, q2, c, q0, Some(cur)), grew(o.a(), q, n.a(), q2), root_proc(n.a(), q2, p.id.0 as int, s),
{
    reveal(run_inv);
    assert forall|p: int| 0 <= p < e.g.len() && (#[trigger] e.g[p]).0 == e.st implies has_root(o.a(), p, 0) by {
        assert(root_proc(o.a(), q, p, 0));
        let i = choose|i: TraversalId| #[trigger] q.processed@.contains(i) && i.0 < o.a().len() && o.a()[i.0 as int].from is None && o.a()[i.0 as int].pid() == p && o.a()[i.0 as int].start() == 0;
        assert(o.a()[i.0 as int].from is None);
    }
    lemma_predict(e.g, e.input, e.st, o, n, p, s, false, r);
    assert(n.a()[0] == o.a()[0]);
    lemma_push(e, o, n, q, q2, c, q0, Some(cur), r);
}
pub broadcast proof fn b_match<'g>(e: Env<'g>, o: TraversalTree<'g>, n: TraversalTree<'g>, q: TraversalQueue, q2: TraversalQueue, c: CompletionMap<'g>, q0: TraversalQueue, cur: TraversalId,
        par: TraversalId, m: TermMatch<'g>, r: TraversalId)
    requires #[trigger] run_inv(e, o, q, c, q0, Some(cur)), #[trigger] after_match(o, n, par, m, r), #[trigger] after_push(q, q2, r),
        par.0 < o.a().len(), can_match(e.g, e.input, o.a(), o.a()[par.0 as int], m),
    ensures run_inv(e, n, q2, c, q0, Some(cur)), grew(o.a(), q, n.a(), q2), edge_proc(n.a(), q2, par, m),
{
    reveal(run_inv);
    lemma_match(e.g, e.input, e.st, o, n, par, m, r);
    assert(n.a()[0] == o.a()[0]);
    lemma_push(e, o, n, q, q2, c, q0, Some(cur), r);
}
pub broadcast proof fn b_cinsert<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, c2: CompletionMap<'g>, q0: TraversalQueue, cur: TraversalId, t: Traversal<'g>, lhs: Term)
    requires #[trigger] run_inv(e, tree, q, c, q0, Some(cur)), #[trigger] after_cinsert(c, c2, t, lhs), cur.0 < tree.a().len(), t == tree.a()[cur.0 as int], lhs == e.g[t.pid()].0,
    ensures run_inv(e, tree, q, c2, q0, Some(cur)),
{ lemma_cinsert(e, tree, q, c, c2, q0, cur); }
pub broadcast proof fn b_inc<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, q0: TraversalQueue, cur: TraversalId, t: Term, s: usize, i: TraversalId)
    requires #[trigger] run_inv(e, tree, q, c, q0, Some(cur)), #[trigger] listed(c.incomplete@, t, s, i),
    ensures i.0 < tree.a().len(), tree.a()[i.0 as int].unmatched@.len() > 0, tree.a()[i.0 as int].unmatched@[0] == t, tree.a()[i.0 as int].total() == s, t is Nonterminal,
        tr_ok(e.g, e.input, e.st, tree.a(), i.0 as int),
{
    reveal(run_inv);}
pub broadcast proof fn b_com<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, q0: TraversalQueue, cur: TraversalId, t: Term, s: usize, i: TraversalId)
    requires #[trigger] run_inv(e, tree, q, c, q0, Some(cur)), #[trigger] listed(c.complete@, t, s, i),
    ensures i.0 < tree.a().len(), tree.a()[i.0 as int].unmatched@.len() == 0, tree.a()[i.0 as int].start() == s, e.g[tree.a()[i.0 as int].pid()].0 == t,
        tr_ok(e.g, e.input, e.st, tree.a(), i.0 as int),
{
    reveal(run_inv);}
pub open spec fn q_same(o: TraversalQueue, n: TraversalQueue) -> bool { o.queue@ == n.queue@ && o.processed@ == n.processed@ }
pub broadcast proof fn b_same<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, q2: TraversalQueue, c: CompletionMap<'g>, q0: TraversalQueue)
    requires #[trigger] run_inv(e, tree, q, c, q0, None), #[trigger] q_same(q, q2),
    ensures run_inv(e, tree, q2, c, q0, None),
{
    reveal(run_inv);
    broadcast use {b_mono_root, b_mono_edge};
    let a = tree.a();
    assert(grew(a, q, a, q2));
    if want_all() { assert forall|i: TraversalId| #[trigger] q2.processed@.contains(i) && !q2.queue@.contains(i) implies expanded(e, a, q2, c, i) by { assert(q.processed@.contains(i)); lemma_mono_expanded(e, a, q, a, q2, c, i); } }
    if want_once() { assert forall|i: TraversalId| #[trigger] done(q0, i) implies done(q2, i) by { assert(done(q, i)); } }
    if want_all() { assert forall|i: TraversalId| #[trigger] done(q2, i) && full(e, a, i) implies done(q0, i) by { assert(done(q, i)); } }
}
pub open spec fn nt_done<'g>(e: Env<'g>, a: Arena<'g>, q: TraversalQueue, c: CompletionMap<'g>, cur: TraversalId) -> bool {
    let t = a[cur.0 as int];
    &&& t.unmatched@.len() > 0 && t.unmatched@[0] is Nonterminal
    &&& want_all() ==> nt_all(e, a, q, c, cur)
}
pub open spec fn nt_all<'g>(e: Env<'g>, a: Arena<'g>, q: TraversalQueue, c: CompletionMap<'g>, cur: TraversalId) -> bool {
    let t = a[cur.0 as int];
    &&& listed(c.incomplete@, t.unmatched@[0], t.total() as usize, cur)
    &&& forall|p: int| 0 <= p < e.g.len() && (#[trigger] e.g[p]).0 == t.unmatched@[0] ==> root_proc(a, q, p, t.total())
    &&& forall|k: TraversalId| #[trigger] listed(c.complete@, t.unmatched@[0], t.total() as usize, k) ==> edge_proc(a, q, cur, TermMatch::Nonterminal(k))
}
pub open spec fn scan_done<'g>(e: Env<'g>, a: Arena<'g>, q: TraversalQueue, cur: TraversalId) -> bool {
    let t = a[cur.0 as int];
    &&& t.unmatched@.len() > 0 && t.unmatched@[0] is Terminal
    &&& want_all() ==> forall|s: &'g str| #[trigger] can_match(e.g, e.input, a, t, TermMatch::Terminal(s)) ==> edge_proc(a, q, cur, TermMatch::Terminal(s))
}
pub open spec fn com_done<'g>(e: Env<'g>, a: Arena<'g>, q: TraversalQueue, c: CompletionMap<'g>, cur: TraversalId) -> bool {
    let t = a[cur.0 as int];
    &&& t.unmatched@.len() == 0
    &&& want_all() ==> listed(c.complete@, e.g[t.pid()].0, t.input_range.offset.start, cur)
    &&& want_all() ==> forall|i: TraversalId| #[trigger] listed(c.incomplete@, e.g[t.pid()].0, t.input_range.offset.start, i) ==> edge_proc(a, q, i, TermMatch::Nonterminal(cur))
}
/// `cur` is complete and nothing is left open.
#[verifier::opaque]
pub open spec fn fin_ok<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, q0: TraversalQueue, cur: TraversalId) -> bool {
    base(e, tree, q, c) && closed_but(e, tree.a(), q, c, None) && hist(e, tree.a(), q0, q, Some(cur))
}
pub broadcast proof fn b_finish<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, q0: TraversalQueue, cur: TraversalId)
    requires #[trigger] run_inv(e, tree, q, c, q0, Some(cur)), cur.0 < tree.a().len(),
    ensures nt_done(e, tree.a(), q, c, cur) ==> run_inv(e, tree, q, c, q0, None),
        scan_done(e, tree.a(), q, cur) ==> run_inv(e, tree, q, c, q0, None),
        com_done(e, tree.a(), q, c, cur) ==> fin_ok(e, tree, q, c, q0, cur) && (!full(e, tree.a(), cur) ==> run_inv(e, tree, q, c, q0, None)),
{
    reveal(fin_ok);
    reveal(run_inv);
    let a = tree.a();
    if nt_done(e, a, q, c, cur) || scan_done(e, a, q, cur) || com_done(e, a, q, c, cur) {
        assert(tr_ok(e.g, e.input, e.st, a, cur.0 as int));
        if want_all() { assert(expanded(e, a, q, c, cur)); }
    if want_all() { assert forall|t: Term, s: usize, k: TraversalId| #[trigger] listed(c.incomplete@, t, s, cur) && #[trigger] listed(c.complete@, t, s, k) implies edge_proc(a, q, cur, TermMatch::Nonterminal(k)) by {} }
    if want_all() { assert forall|t: Term, s: usize, i: TraversalId| #[trigger] listed(c.incomplete@, t, s, i) && #[trigger] listed(c.complete@, t, s, cur) implies edge_proc(a, q, i, TermMatch::Nonterminal(cur)) by {} }
        lemma_finish(e, tree, q, c, q0, cur);
    }
}
pub broadcast proof fn b_prefix(p: Seq<u8>, i: Seq<u8>, t: int)
    requires 0 <= t <= i.len(),
    ensures #[trigger] p.is_prefix_of(i.subrange(t, i.len() as int)) == (t + p.len() <= i.len() && i.subrange(t, t + p.len()) == p),
{
    let r = i.subrange(t, i.len() as int);
    if p.is_prefix_of(r) { assert(i.subrange(t, t + p.len()) =~= p) by { assert forall|k: int| 0 <= k < p.len() implies i[t + k] == #[trigger] p[k] by { assert(r[k] == p[k]); } } }
    if t + p.len() <= i.len() && i.subrange(t, t + p.len()) == p { assert forall|k: int| 0 <= k < p.len() implies r[k] == #[trigger] p[k] by { assert(i.subrange(t, t + p.len())[k] == p[k]); } }
}
/// What a call of `earley` starts from and leaves.
pub open spec fn state_ok<'g>(e: Env<'g>, g: Seq<AbsProd>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>) -> bool {
    e.g == g && base(e, tree, q, c) && closed_but(e, tree.a(), q, c, None)
}
pub open spec fn pick<'g>(g: Seq<AbsProd>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>) -> Env<'g> { choose|e: Env<'g>| state_ok(e, g, tree, q, c) }
/// One step of the iteration: the next full traversal, or none is left.
#[verifier::opaque]
pub open spec fn step<'g>(e: Env<'g>, a0: Arena<'g>, q0: TraversalQueue, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, r: Option<TraversalId>) -> bool {
    &&& state_ok(e, e.g, tree, q, c) && ext(a0, tree.a())
    &&& want_once() ==> forall|i: TraversalId| #[trigger] done(q0, i) ==> done(q, i)
    &&& want_all() ==> forall|i: TraversalId| #[trigger] done(q, i) && full(e, tree.a(), i) ==> done(q0, i) || r == Some(i)
    &&& match r { Some(id) => full(e, tree.a(), id) && done(q, id) && (want_once() ==> !done(q0, id)), None => want_all() ==> q.queue@.len() == 0 }
}
pub proof fn lemma_start<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>)
    requires state_ok(e, e.g, tree, q, c),
    ensures run_inv(e, tree, q, c, q, None), tree.a().len() == 0 ==> q.queue@.len() == 0,
{
    reveal(run_inv);
    if q.queue@.len() > 0 { assert(q.queue@.contains(q.queue@[0])); }
}
pub broadcast proof fn b_exit_none<'g>(e: Env<'g>, a0: Arena<'g>, q0: TraversalQueue, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, r: Option<TraversalId>)
    requires #[trigger] run_inv(e, tree, q, c, q0, None), q.queue@.len() == 0, ext(a0, tree.a()), r is None,
    ensures #[trigger] step(e, a0, q0, tree, q, c, r),
{ reveal(run_inv); reveal(step); }
pub broadcast proof fn b_exit_some<'g>(e: Env<'g>, a0: Arena<'g>, q0: TraversalQueue, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, r: Option<TraversalId>)
    requires r is Some, #[trigger] fin_ok(e, tree, q, c, q0, r->0), full(e, tree.a(), r->0), ext(a0, tree.a()),
    ensures #[trigger] step(e, a0, q0, tree, q, c, r),
{ reveal(fin_ok); reveal(step); }
//# fn earley::earley
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::spinoff_prover]
@attr #[verifier::rlimit(60)]
@spec
requires $3.wf(), exists|e: Env<'gram>| state_ok(e, $3.abs(), *old($1), *old($0), *old($2)),
ensures step(pick($3.abs(), *old($1), *old($0), *old($2)), old($1).a(), *old($0), *final($1), *final($0), *final($2), r),
    old($1).a().len() == 0 ==> r.is_none() && final($1).a() == old($1).a() && final($0).processed@ == old($0).processed@ && final($0).queue@ == old($0).queue@,
@start
let ghost e = pick($3.abs(), *$1, *$0, *$2);
let ghost q0 = *$0;
let ghost a0 = $1.a();
proof { lemma_start(e, *$1, *$0, *$2); }
broadcast use {b_mono_root, b_mono_edge, b_pop, b_predict, b_match, b_cinsert, b_inc, b_com, b_same, b_finish, b_exit_none, b_exit_some, b_prefix, axiom_str_len, axiom_str_ext};
@loop 0
invariant run_inv(e, *$1, *$0, *$2, q0, None), ext(a0, $1.a()),
    a0.len() == 0 ==> $1.a() == a0 && $0.processed@ == q0.processed@ && $0.queue@ == q0.queue@,
@loopstart 0
let ghost a1 = $1.a();
let ghost cur = $v0;
@loopend 0
proof {
let t = a1[cur.0 as int];
assert($1.a()[cur.0 as int] == t);
if t.unmatched@.len() > 0 {
  if t.unmatched@[0] is Nonterminal { assert(nt_done(e, $1.a(), *$0, *$2, cur)); }
  else { assert(scan_done(e, $1.a(), *$0, cur)); }
} else { assert(com_done(e, $1.a(), *$0, *$2, cur)); }
}
@loop 1
run_inv(e, *$1, *$0, *$2, q0, Some(cur)), ext(a1, $1.a()),
want_all() ==> forall|k: int| 0 <= k < $it1.pos() ==> root_proc($1.a(), *$0, (#[trigger] $it1.all()[k]).id.0 as int, a1[cur.0 as int].total()),
@loop 2
run_inv(e, *$1, *$0, *$2, q0, Some(cur)), ext(a1, $1.a()),
want_all() ==> forall|p: int| 0 <= p < e.g.len() && (#[trigger] e.g[p]).0 == a1[cur.0 as int].unmatched@[0] ==> root_proc($1.a(), *$0, p, a1[cur.0 as int].total()),
want_all() ==> forall|k: int| 0 <= k < $it2.pos() ==> edge_proc($1.a(), *$0, cur, TermMatch::Nonterminal(#[trigger] $it2.all()[k])),
@loop 3
run_inv(e, *$1, *$0, *$2, q0, Some(cur)), ext(a1, $1.a()),
want_all() ==> forall|k: int| 0 <= k < $it3.pos() ==> edge_proc($1.a(), *$0, #[trigger] $it3.all()[k], TermMatch::Nonterminal(cur)),
//# module earley
pub open spec fn term_ok(g: Seq<AbsProd>, t: Term, d: DT) -> bool {
    match t {
        Term::Terminal(s) => d == DT::Leaf(s@),
        Term::Nonterminal(_) => d is Node && 0 <= d->Node_0 < g.len() && g[d->Node_0].0 == t && dvalid(g, d),
    }
}
pub proof fn lemma_dvalid(g: Seq<AbsProd>, p: int, ch: Seq<DT>)
    ensures dvalid(g, DT::Node(p, ch)) == (0 <= p < g.len() && ch.len() == g[p].1.len() && forall|k: int| 0 <= k < ch.len() ==> term_ok(g, g[p].1[k], #[trigger] ch[k])),
{
    if 0 <= p < g.len() && ch.len() == g[p].1.len() {
        if dvalid(g, DT::Node(p, ch)) {
            assert forall|k: int| 0 <= k < ch.len() implies term_ok(g, g[p].1[k], #[trigger] ch[k]) by {}
        }
        if forall|k: int| 0 <= k < ch.len() ==> term_ok(g, g[p].1[k], #[trigger] ch[k]) {
            assert forall|k: int| 0 <= k < ch.len() implies match g[p].1[k] {
                Term::Terminal(s) => #[trigger] ch[k] == DT::Leaf(s@),
                Term::Nonterminal(_) => ch[k] is Node && 0 <= ch[k]->Node_0 < g.len() && g[ch[k]->Node_0].0 == g[p].1[k] && dvalid(g, ch[k]),
            } by { assert(term_ok(g, g[p].1[k], ch[k])); }
        }
    }
}
pub proof fn lemma_dyields_prefix(ch: Seq<DT>, x: DT, k: int)
    requires 0 <= k <= ch.len(),
    ensures dyields(ch.push(x), k) == dyields(ch, k),
    decreases k,
{
    if k > 0 { lemma_dyields_prefix(ch, x, k - 1); assert(ch.push(x)[k - 1] == ch[k - 1]); }
}
pub proof fn lemma_dyields_push(ch: Seq<DT>, x: DT)
    ensures dyields(ch.push(x), ch.len() as int + 1) == dyields(ch, ch.len() as int) + dyield(x),
{
    lemma_dyields_prefix(ch, x, ch.len() as int);
    assert(ch.push(x)[ch.len() as int] == x);
}
/// Every traversal stands for a derivation of exactly its window of the input.
pub proof fn lemma_sound<'g>(g: Seq<AbsProd>, input: &'g str, st: Term, a: Arena<'g>, i: int)
    requires arena_ok(g, input, st, a), 0 <= i < a.len(),
    ensures forall|k: int| 0 <= k < kids(a, i).len() ==> term_ok(g, g[a[i].pid()].1[k], #[trigger] kids(a, i)[k]),
        dyields(kids(a, i), kids(a, i).len() as int) == bs(input@).subrange(a[i].start(), a[i].total()),
    decreases i,
{
    assert(tr_ok(g, input, st, a, i));
    let inp = bs(input@);
    match a[i].from {
        None => { assert(inp.subrange(a[i].start(), a[i].total()) =~= Seq::<u8>::empty()); }
        Some(ed) => {
            let pi = ed.parent_id.0 as int;
            let q = a[pi];
            assert(tr_ok(g, input, st, a, pi));
            lemma_sound(g, input, st, a, pi);
            let n = kids(a, pi).len() as int;
            let x = kids(a, i).last();
            assert(kids(a, i) == kids(a, pi).push(x));
            assert(q.unmatched@[0] == g[q.pid()].1[n]);
            match ed.term {
                TermMatch::Terminal(s) => {
                    assert(x == DT::Leaf(s@));
                    assert(term_ok(g, g[q.pid()].1[n], x));
                    assert(dyield(x) == bs(s@));
                }
                TermMatch::Nonterminal(c) => {
                    let ci = c.0 as int;
                    lemma_sound(g, input, st, a, ci);
                    assert(tr_ok(g, input, st, a, ci));
                    assert(x == dt(a, ci));
                    lemma_dvalid(g, a[ci].pid(), kids(a, ci));
                    assert(kids(a, ci).len() == g[a[ci].pid()].1.len()) by { assert(a[ci].unmatched@.len() == g[a[ci].pid()].1.len() - kids(a, ci).len()); }
                    assert(dvalid(g, x));
                    assert(term_ok(g, g[q.pid()].1[n], x));
                    assert(dyield(x) == dyields(kids(a, ci), kids(a, ci).len() as int));
                }
            }
            lemma_dyields_push(kids(a, pi), x);
            assert(inp.subrange(q.start(), q.total()) + inp.subrange(q.total(), a[i].total()) =~= inp.subrange(a[i].start(), a[i].total()));
            assert forall|k: int| 0 <= k < kids(a, i).len() implies term_ok(g, g[a[i].pid()].1[k], #[trigger] kids(a, i)[k]) by { if k < n { assert(kids(a, i)[k] == kids(a, pi)[k]); } }
        }
    }
}
pub proof fn lemma_full_derives<'g>(e: Env<'g>, tree: TraversalTree<'g>, i: TraversalId)
    requires tree.inv(e.g, e.input, e.st), full(e, tree.a(), i),
    ensures derives(e.g, e.st, e.input@, dt(tree.a(), i.0 as int)),
{
    let a = tree.a();
    let ii = i.0 as int;
    assert(tr_ok(e.g, e.input, e.st, a, ii));
    lemma_sound(e.g, e.input, e.st, a, ii);
    lemma_dvalid(e.g, a[ii].pid(), kids(a, ii));
    assert(kids(a, ii).len() == e.g[a[ii].pid()].1.len()) by { assert(a[ii].unmatched@.len() == e.g[a[ii].pid()].1.len() - kids(a, ii).len()); }
    assert(bs(e.input@).subrange(0, bs(e.input@).len() as int) =~= bs(e.input@));
    assert(dyield(dt(a, ii)) == dyields(kids(a, ii), kids(a, ii).len() as int));
}
/// Two traversals with the same production, start and matched derivations are the same traversal.
pub proof fn lemma_inj<'g>(e: Env<'g>, tree: TraversalTree<'g>, i: int, j: int)
    requires tree.inv(e.g, e.input, e.st), 0 <= i < tree.a().len(), 0 <= j < tree.a().len(),
        tree.a()[i].pid() == tree.a()[j].pid(), tree.a()[i].start() == tree.a()[j].start(), kids(tree.a(), i) == kids(tree.a(), j),
    ensures i == j,
    decreases i,
{
    broadcast use axiom_str_ext;
    let a = tree.a();
    assert(tr_ok(e.g, e.input, e.st, a, i)); assert(tr_ok(e.g, e.input, e.st, a, j));
    if a[i].from is None {
        assert(kids(a, i).len() == 0);
        assert(a[j].from is None) by { if a[j].from is Some { assert(kids(a, j).len() > 0); } }
        assert(has_key(tree.tree_roots@, TraversalRoot { production_id: a[i].production_id, input_start: a[i].input_range.offset.start }, i));
        assert(has_key(tree.tree_roots@, TraversalRoot { production_id: a[j].production_id, input_start: a[j].input_range.offset.start }, j));
    } else {
        assert(kids(a, i).len() > 0);
        assert(a[j].from is Some);
        let ei = a[i].from->0; let ej = a[j].from->0;
        let pi = ei.parent_id.0 as int; let pj = ej.parent_id.0 as int;
        assert(kids(a, i).drop_last() =~= kids(a, pi)); assert(kids(a, j).drop_last() =~= kids(a, pj));
        let x = kids(a, i).last();
        assert(tr_ok(e.g, e.input, e.st, a, pi)); assert(tr_ok(e.g, e.input, e.st, a, pj));
        lemma_inj(e, tree, pi, pj);
        match ei.term {
            TermMatch::Terminal(s) => {
                assert(x == DT::Leaf(s@));
                match ej.term { TermMatch::Terminal(s2) => { assert(s@ == s2@); assert(s == s2); } TermMatch::Nonterminal(c2) => { assert(x == dt(a, c2.0 as int)); assert(false); } }
            }
            TermMatch::Nonterminal(c) => {
                assert(x == dt(a, c.0 as int));
                match ej.term {
                    TermMatch::Terminal(s2) => { assert(x == DT::Leaf(s2@)); assert(false); }
                    TermMatch::Nonterminal(c2) => {
                        assert(x == dt(a, c2.0 as int));
                        lemma_inj(e, tree, c.0 as int, c2.0 as int);
                    }
                }
            }
        }
        assert(ei == ej);
        assert(has_key(tree.edges@, a[i].from->0, i)); assert(has_key(tree.edges@, a[j].from->0, j));
    }
}
/// With an empty queue, every derivation that fits the input from a predicted position has been found.
pub proof fn lemma_complete<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, d: DT, s: int, k: int) -> (i: TraversalId)
    requires base(e, tree, q, c), closed_all(e, tree.a(), q, c, None), q.queue@.len() == 0,
        dvalid(e.g, d), root_proc(tree.a(), q, d->Node_0, s), 0 <= k <= d->Node_1.len(), 0 <= s,
        s + dyields(d->Node_1, k).len() <= bs(e.input@).len(), bs(e.input@).subrange(s, s + dyields(d->Node_1, k).len()) == dyields(d->Node_1, k),
    ensures q.processed@.contains(i), i.0 < tree.a().len(), tree.a()[i.0 as int].pid() == d->Node_0, tree.a()[i.0 as int].start() == s,
        kids(tree.a(), i.0 as int) == d->Node_1.subrange(0, k), tree.a()[i.0 as int].total() == s + dyields(d->Node_1, k).len(),
    decreases d, k,
{
    broadcast use axiom_str_ext;
    let a = tree.a();
    let p = d->Node_0;
    let ch = d->Node_1;
    let inp = bs(e.input@);
    lemma_dvalid(e.g, p, ch);
    if k == 0 {
        let i = choose|i: TraversalId| #[trigger] q.processed@.contains(i) && i.0 < a.len() && a[i.0 as int].from is None && a[i.0 as int].pid() == p && a[i.0 as int].start() == s;
        assert(tr_ok(e.g, e.input, e.st, a, i.0 as int));
        assert(kids(a, i.0 as int) =~= ch.subrange(0, 0));
        i
    } else {
        let y0 = dyields(ch, k - 1);
        let y1 = dyield(ch[k - 1]);
        assert(dyields(ch, k) == y0 + y1);
        assert(inp.subrange(s, s + y0.len()) =~= y0) by { assert forall|z: int| 0 <= z < y0.len() implies inp[s + z] == #[trigger] y0[z] by { assert(inp.subrange(s, s + (y0 + y1).len())[z] == (y0 + y1)[z]); } }
        assert(inp.subrange(s + y0.len(), s + y0.len() + y1.len()) =~= y1) by { assert forall|z: int| 0 <= z < y1.len() implies inp[s + y0.len() + z] == #[trigger] y1[z] by { assert(inp.subrange(s, s + (y0 + y1).len())[y0.len() + z] == (y0 + y1)[y0.len() + z]); } }
        let i0 = lemma_complete(e, tree, q, c, d, s, k - 1);
        let t = a[i0.0 as int];
        assert(tr_ok(e.g, e.input, e.st, a, i0.0 as int));
        assert(kids(a, i0.0 as int).len() == k - 1);
        let term = e.g[p].1[k - 1];
        assert(t.unmatched@[0] == term);
        assert(!q.queue@.contains(i0));
        assert(expanded(e, a, q, c, i0));
        let x = ch[k - 1];
        assert(term_ok(e.g, term, x));
        match term {
            Term::Terminal(txt) => {
                let sl: &'g str = str_of(txt); broadcast use axiom_str_of;
                let m: TermMatch<'g> = TermMatch::Terminal(sl);
                assert(dyield(x) == bs(txt@));
                assert(can_match(e.g, e.input, a, t, m));
                assert(edge_proc(a, q, i0, m));
                let i = choose|i: TraversalId| #[trigger] q.processed@.contains(i) && i.0 < a.len() && a[i.0 as int].from == Some(TraversalEdge { term: m, parent_id: i0 });
                assert(tr_ok(e.g, e.input, e.st, a, i.0 as int));
                assert(kids(a, i.0 as int) == kids(a, i0.0 as int).push(x));
                assert(kids(a, i.0 as int) =~= ch.subrange(0, k));
                i
            }
            Term::Nonterminal(_) => {
                let p2 = x->Node_0;
                let ch2 = x->Node_1;
                assert(e.g[p2].0 == term);
                assert(root_proc(a, q, p2, t.total()));
                assert(dyield(x) == dyields(ch2, ch2.len() as int));
                let c2 = lemma_complete(e, tree, q, c, x, t.total(), ch2.len() as int);
                lemma_dvalid(e.g, p2, ch2);
                assert(ch2.subrange(0, ch2.len() as int) =~= ch2);
                assert(tr_ok(e.g, e.input, e.st, a, c2.0 as int));
                assert(a[c2.0 as int].unmatched@.len() == 0);
                assert(!q.queue@.contains(c2));
                assert(expanded(e, a, q, c, c2));
                assert(listed(c.incomplete@, term, t.total() as usize, i0));
                assert(listed(c.complete@, term, t.total() as usize, c2));
                let m: TermMatch<'g> = TermMatch::Nonterminal(c2);
                assert(edge_proc(a, q, i0, m));
                let i = choose|i: TraversalId| #[trigger] q.processed@.contains(i) && i.0 < a.len() && a[i.0 as int].from == Some(TraversalEdge { term: m, parent_id: i0 });
                assert(tr_ok(e.g, e.input, e.st, a, i.0 as int));
                assert(kids(a, i.0 as int).last() == dt(a, c2.0 as int));
                assert(dt(a, c2.0 as int) == DT::Node(p2, ch2));
                assert(x == DT::Node(p2, ch2));
                assert(kids(a, i.0 as int) == kids(a, i0.0 as int).push(x));
                assert(kids(a, i.0 as int) =~= ch.subrange(0, k));
                i
            }
        }
    }
}
pub proof fn lemma_all_found<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, d: DT) -> (i: TraversalId)
    requires base(e, tree, q, c), closed_all(e, tree.a(), q, c, None), q.queue@.len() == 0, derives(e.g, e.st, e.input@, d),
    ensures done(q, i), full(e, tree.a(), i), dt(tree.a(), i.0 as int) == d,
{
    let a = tree.a();
    let p = d->Node_0; let ch = d->Node_1;
    lemma_dvalid(e.g, p, ch);
    assert(e.g[p].0 == e.st);
    assert(root_proc(a, q, p, 0));
    assert(dyield(d) == dyields(ch, ch.len() as int));
    assert(bs(e.input@).subrange(0, bs(e.input@).len() as int) =~= bs(e.input@));
    let i = lemma_complete(e, tree, q, c, d, 0, ch.len() as int);
    assert(ch.subrange(0, ch.len() as int) =~= ch);
    assert(tr_ok(e.g, e.input, e.st, a, i.0 as int));
    assert(d == DT::Node(p, ch));
    i
}
//# module earley
/// Which traversals have been handed out as parses.
pub open spec fn found<'g>(e: Env<'g>, a: Arena<'g>, q: TraversalQueue, i: TraversalId) -> bool { done(q, i) && full(e, a, i) }
pub open spec fn all_start<'g>(q: TraversalQueue) -> bool { q.queue@.no_duplicates() && forall|i: TraversalId| #[trigger] q.processed@.contains(i) ==> q.queue@.contains(i) }
pub open spec fn start_inv<'g>(e: Env<'g>, tree: TraversalTree<'g>, q: TraversalQueue) -> bool {
    tree.inv(e.g, e.input, e.st) && q_ok(q, tree.a().len()) && all_start(q) && (tree.a().len() > 0 ==> tree.a()[0].is_starting)
}
pub proof fn lemma_boundary0(s: Seq<char>)
    ensures boundary(bs(s), 0),
{
    lemma_utf8_valid(s);
    lemma_utf8_valid(Seq::<char>::empty());
    assert(bs(Seq::<char>::empty()) =~= Seq::<u8>::empty());
    assert(bs(s).subrange(0, 0) =~= Seq::<u8>::empty());
    assert(bs(s).subrange(0, bs(s).len() as int) =~= bs(s));
}
pub broadcast proof fn b_start<'g>(e: Env<'g>, o: TraversalTree<'g>, n: TraversalTree<'g>, q: TraversalQueue, q2: TraversalQueue, p: crate::parser::grammar::Production<'g>, r: TraversalId)
    requires #[trigger] start_inv(e, o, q), #[trigger] after_predict(o, n, p, e.input, 0, true, r), #[trigger] after_push(q, q2, r),
        0 <= p.id.0 < e.g.len(), p.rhs.terms@ == e.g[p.id.0 as int].1, *p.lhs == e.g[p.id.0 as int].0, *p.lhs == e.st,
    ensures start_inv(e, n, q2), grew(o.a(), q, n.a(), q2), root_proc(n.a(), q2, p.id.0 as int, 0),
{
    lemma_boundary0(e.input@);
    lemma_predict(e.g, e.input, e.st, o, n, p, 0, true, r);
    assert forall|i: TraversalId| #[trigger] q2.queue@.contains(i) == (q.queue@.contains(i) || (i == r && !q.processed@.contains(r))) by {
        if !q.processed@.contains(r) {
            if q.queue@.contains(i) { let k = choose|k: int| 0 <= k < q.queue@.len() && q.queue@[k] == i; assert(q2.queue@[k] == i); }
            if i == r { assert(q2.queue@[q.queue@.len() as int] == r); }
        }
    }
    if !q.processed@.contains(r) { assert(!q.queue@.contains(r)); assert forall|k: int| 0 <= k < q.queue@.len() implies #[trigger] q.queue@[k] != r by { assert(q.queue@.contains(q.queue@[k])); } }
    if o.a().len() > 0 { assert(n.a()[0] == o.a()[0]); } else {
        assert(!o.tree_roots@.contains_key(TraversalRoot { production_id: p.id, input_start: 0usize }));
    }
    assert(q2.processed@.contains(r));
}
//# fn earley::TraversalQueue::push_back_starting
@spec
requires $1.wf(), old(self).processed@ == Set::<TraversalId>::empty(), old(self).queue@ == Seq::<TraversalId>::empty(), old($0).a().len() == 0,
    old($0).tree_roots@ == Map::<TraversalRoot, TraversalId>::empty(), old($0).edges@ == Map::<TraversalEdge<'gram>, TraversalId>::empty(),
    $3.offset.start == 0, $3.offset.len == 0,
ensures forall|c: CompletionMap<'gram>| c.incomplete@ == Map::<CompletionKey<'gram>, Vec<TraversalId>>::empty() && c.complete@ == Map::<CompletionKey<'gram>, Vec<TraversalId>>::empty()
    ==> #[trigger] state_ok(Env { g: $1.abs(), input: $3.input, st: *$2 }, $1.abs(), *final($0), *final(self), c),
    forall|i: TraversalId| !#[trigger] done(*final(self), i),
@start
broadcast use {b_start, b_mono_root};
let ghost e = Env { g: $1.abs(), input: $3.input, st: *$2 };
@loop 0
start_inv(e, *$0, *self),
forall|k: int| 0 <= k < $it0.pos() ==> root_proc($0.a(), *self, (#[trigger] $it0.all()[k]).id.0 as int, 0),
//# item earley::ParserHold
//# fn earley::ParserHold::as_ref
@spec
ensures *r == self.gp(),
//# item earley::ParseTreeIter
//# module earley
impl<'g> ParserHold<'g> {
    pub open spec fn gp(&self) -> GrammarParser<'g> { match self { ParserHold::Borrowed(p) => **p, ParserHold::Owned(p) => **p } }
}
impl<'g> ParseTreeIter<'g> {
    pub open spec fn g(&self) -> Seq<AbsProd> { self.parser.gp().parse_grammar.abs() }
    pub open spec fn a(&self) -> Arena<'g> { self.traversal_tree.a() }
    pub open spec fn inv(&self, e: Env<'g>) -> bool {
        self.parser.gp().parse_grammar.wf() && state_ok(e, self.g(), self.traversal_tree, self.queue, self.completions)
    }
    pub open spec fn found(&self, e: Env<'g>, i: TraversalId) -> bool { found(e, self.a(), self.queue, i) }
}
/// The run a parser, a text and a start term stand for.
pub open spec fn env_of<'g>(p: GrammarParser<'g>, input: &'g str, st: Option<&'g Term>) -> Env<'g> {
    Env { g: p.parse_grammar.abs(), input, st: match st { Some(t) => *t, None => *p.starting_term } }
}
/// `id` is a parse of the whole text, not handed out before (C03), and no other was passed over (C02).
pub open spec fn gives<'g>(e: Env<'g>, o: ParseTreeIter<'g>, n: ParseTreeIter<'g>, id: TraversalId) -> bool {
    &&& n.found(e, id)
    &&& want_once() ==> !o.found(e, id) && forall|i: TraversalId| #[trigger] o.found(e, i) ==> n.found(e, i)
    &&& want_all() ==> forall|i: TraversalId| #[trigger] n.found(e, i) ==> o.found(e, i) || i == id
}
/// What one `next` does, for the run `e`.
pub open spec fn next_ok<'g>(e: Env<'g>, o: ParseTreeIter<'g>, n: ParseTreeIter<'g>, r: Option<ParseTree<'g>>) -> bool {
    &&& n.inv(e) && ext(o.a(), n.a())
    &&& match r {
        Some(t) => exists|id: TraversalId| gives(e, o, n, id) && tview(t) == pt(e.g, dt(n.a(), id.0 as int)),
        None => {
            &&& want_once() ==> forall|i: TraversalId| #[trigger] o.found(e, i) ==> n.found(e, i)
            &&& want_all() ==> n.queue.queue@.len() == 0 && forall|i: TraversalId| #[trigger] n.found(e, i) ==> o.found(e, i)
        }
    }
}
pub proof fn lemma_env_unique<'g>(e: Env<'g>, f: Env<'g>, g: Seq<AbsProd>, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>)
    requires state_ok(e, g, tree, q, c), state_ok(f, g, tree, q, c), tree.a().len() > 0,
    ensures e == f,
{
    assert(tr_ok(e.g, e.input, e.st, tree.a(), 0));
    assert(tr_ok(f.g, f.input, f.st, tree.a(), 0));
}
//# fn earley::ParseTreeIter::new
@spec
requires $0.gp().parse_grammar.wf(),
ensures r.parser == $0, r.inv(env_of($0.gp(), $1, $2)), forall|i: TraversalId| !#[trigger] r.found(env_of($0.gp(), $1, $2), i),
//# module earley
pub open spec fn it_pick<'g>(o: ParseTreeIter<'g>) -> Env<'g> { pick(o.g(), o.traversal_tree, o.queue, o.completions) }
pub broadcast proof fn b_step<'g>(e: Env<'g>, a0: Arena<'g>, q0: TraversalQueue, tree: TraversalTree<'g>, q: TraversalQueue, c: CompletionMap<'g>, r: Option<TraversalId>)
    requires #[trigger] step(e, a0, q0, tree, q, c, r), r is Some,
    ensures ups(tree.a()), pids_ok(e.g, tree.a()), (r->0).0 < tree.a().len(),
{
    reveal(step);
    let a = tree.a();
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).pid() < e.g.len() by { assert(tr_ok(e.g, e.input, e.st, a, i)); }
    assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).from is Some implies a[i].from->0.parent_id.0 < i && m_below(a[i].from->0.term, i) by { assert(tr_ok(e.g, e.input, e.st, a, i)); }
}
/// `n` is `o` after a step that gives `ri`, of which `t` is the tree.
pub open spec fn stepped<'g>(o: ParseTreeIter<'g>, n: ParseTreeIter<'g>, ri: Option<TraversalId>, t: Option<ParseTree<'g>>) -> bool {
    &&& ri.is_some() == t.is_some() && (t is Some ==> tview(t->0) == pt(o.g(), dt(n.a(), (ri->0).0 as int)))
    &&& n.parser == o.parser
    &&& o.a().len() == 0 ==> ri.is_none() && n.a() == o.a() && n.queue.processed@ == o.queue.processed@ && n.queue.queue@ == o.queue.queue@
}
pub proof fn lemma_next<'g>(o: ParseTreeIter<'g>, n: ParseTreeIter<'g>, t: Option<ParseTree<'g>>, e: Env<'g>)
    requires o.inv(e),
        exists|ri: Option<TraversalId>| #[trigger] step(it_pick(o), o.a(), o.queue, n.traversal_tree, n.queue, n.completions, ri) && stepped(o, n, ri, t),
    ensures next_ok(e, o, n, t),
{
    let ri = choose|ri: Option<TraversalId>| #[trigger] step(it_pick(o), o.a(), o.queue, n.traversal_tree, n.queue, n.completions, ri) && stepped(o, n, ri, t);
    let p = it_pick(o);
    reveal(step);
    assert(state_ok(p, o.g(), o.traversal_tree, o.queue, o.completions));
    let a = o.a(); let b = n.a();
    if a.len() == 0 {
        assert(e.g == p.g);
        assert forall|q: int| 0 <= q < e.g.len() implies (#[trigger] e.g[q]).0 != e.st by { if e.g[q].0 == e.st { assert(root_proc(a, o.queue, q, 0)); } }
        assert(n.inv(e));
        assert forall|i: TraversalId| #[trigger] n.found(e, i) == o.found(e, i) by {}
    } else {
        lemma_env_unique(e, p, o.g(), o.traversal_tree, o.queue, o.completions);
        assert(n.inv(e));
        if want_once() { assert forall|i: TraversalId| #[trigger] o.found(e, i) implies n.found(e, i) by { assert(done(o.queue, i)); assert(b[i.0 as int] == a[i.0 as int]); } }
        if want_all() { assert forall|i: TraversalId| #[trigger] n.found(e, i) implies o.found(e, i) || ri == Some(i) by {
            assert(done(n.queue, i));
            if ri != Some(i) { assert(done(o.queue, i)); assert(o.queue.processed@.contains(i)); assert(b[i.0 as int] == a[i.0 as int]); }
        } }
        if ri is Some { assert(gives(e, o, n, ri->0)); }
    }
}
//# fn earley::ParseTreeIter@Iterator::next
@opt allreturns
@spec
requires exists|e: Env<'gram>| old(self).inv(e),
ensures final(self).parser == old(self).parser, forall|e: Env<'gram>| #[trigger] old(self).inv(e) ==> next_ok(e, *old(self), *final(self), r),
@start
let ghost o = *self;
proof { let e = choose|e: Env<'gram>| self.inv(e); assert(state_ok(it_pick(o), o.g(), o.traversal_tree, o.queue, o.completions)) by { assert(state_ok(e, o.g(), o.traversal_tree, o.queue, o.completions)); } }
broadcast use b_step;
@end
proof {
    let p = it_pick(o); let a0 = o.a(); let nn = *self;
    assert(nn.traversal_tree == self.traversal_tree && nn.queue == self.queue && nn.completions == self.completions);
    assert(nn.parser == o.parser);
    assert(exists|ri: Option<TraversalId>| #[trigger] step(p, a0, o.queue, nn.traversal_tree, nn.queue, nn.completions, ri) );
    assert(exists|ri: Option<TraversalId>| #[trigger] step(p, a0, o.queue, nn.traversal_tree, nn.queue, nn.completions, ri) && stepped(o, nn, ri, __tail));
    assert forall|e: Env<'gram>| #[trigger] o.inv(e) implies next_ok(e, o, *self, __tail) by { lemma_next(o, *self, __tail, e); }
}
//# module earley
/// `ds` are derivations of the text, one per tree (C01), and no two are the same (C03).
pub open spec fn parses_of<'g>(e: Env<'g>, ts: Seq<ParseTree<'g>>, ds: Seq<DT>) -> bool {
    &&& ds.len() == ts.len()
    &&& forall|k: int| 0 <= k < ts.len() ==> tview(#[trigger] ts[k]) == pt(e.g, ds[k])
    &&& forall|k: int| 0 <= k < ds.len() ==> derives(e.g, e.st, e.input@, #[trigger] ds[k])
    &&& want_once() ==> ds.no_duplicates()
}
pub proof fn lemma_dt_inj<'g>(e: Env<'g>, tree: TraversalTree<'g>, i: TraversalId, j: TraversalId)
    requires tree.inv(e.g, e.input, e.st), full(e, tree.a(), i), full(e, tree.a(), j), dt(tree.a(), i.0 as int) == dt(tree.a(), j.0 as int),
    ensures i == j,
{
    lemma_inj(e, tree, i.0 as int, j.0 as int);
}
impl<'g> ParseTreeIter<'g> {
    /// C01-C03 as one statement about draining the iterator: what it has handed out so far are
    /// trees of distinct derivations of the text, and once it is exhausted every derivation was there.
    #[verifier::exec_allows_no_decreases_clause]
    pub fn theorem_collect(&mut self, Ghost(e): Ghost<Env<'g>>) -> (r: (Vec<ParseTree<'g>>, Ghost<Seq<DT>>))
        requires old(self).inv(e), forall|i: TraversalId| !#[trigger] old(self).found(e, i),
        ensures parses_of(e, r.0@, r.1@), want_all() ==> forall|d: DT| #[trigger] derives(e.g, e.st, e.input@, d) ==> r.1@.contains(d),
    {
        let mut out: Vec<ParseTree<'g>> = Vec::new();
        let ghost mut ids: Seq<TraversalId> = Seq::empty();
        loop
            invariant self.inv(e), ids.len() == out@.len(),
                forall|k: int| 0 <= k < ids.len() ==> full(e, self.a(), #[trigger] ids[k]),
                want_once() ==> ids.no_duplicates() && forall|k: int| 0 <= k < ids.len() ==> self.found(e, #[trigger] ids[k]),
                want_all() ==> forall|i: TraversalId| #[trigger] self.found(e, i) ==> ids.contains(i),
                forall|k: int| 0 <= k < out@.len() ==> tview(#[trigger] out@[k]) == pt(e.g, dt(self.a(), ids[k].0 as int)),
        {
            let ghost o = *self;
            let ghost out0 = out@;
            let ghost ids0 = ids;
            let nx = self.next();
            assert(next_ok(e, o, *self, nx));
            proof {
                assert forall|k: int| 0 <= k < out0.len() implies tview(#[trigger] out0[k]) == pt(e.g, dt(self.a(), ids0[k].0 as int)) by {
                    assert(full(e, o.a(), ids0[k]));
                    lemma_kids_ext(o.a(), self.a(), ids0[k].0 as int);
                }
                assert forall|k: int| 0 <= k < ids0.len() implies full(e, self.a(), #[trigger] ids0[k]) by { assert(full(e, o.a(), ids0[k])); assert(o.a()[ids0[k].0 as int] == self.a()[ids0[k].0 as int]); }
            }
            match nx {
                Some(t) => {
                    proof {
                        let id = choose|id: TraversalId| gives(e, o, *self, id) && tview(t) == pt(e.g, dt(self.a(), id.0 as int));
                        ids = ids.push(id);
                        assert(ids[ids0.len() as int] == id);
                        assert forall|k: int| 0 <= k < ids0.len() implies #[trigger] ids[k] == ids0[k] by {}
                        if want_once() {
                            assert forall|k: int| 0 <= k < ids0.len() implies #[trigger] ids0[k] != id by { assert(o.found(e, ids0[k])); }
                            assert forall|k: int| 0 <= k < ids.len() implies self.found(e, #[trigger] ids[k]) by { if k < ids0.len() { assert(o.found(e, ids0[k])); } }
                        }
                        if want_all() { assert forall|i: TraversalId| #[trigger] self.found(e, i) implies ids.contains(i) by {
                            if i != id { assert(o.found(e, i)); assert(ids0.contains(i)); let k = choose|k: int| 0 <= k < ids0.len() && ids0[k] == i; assert(ids[k] == i); }
                        } }
                    }
                    out.push(t);
                }
                None => {
                    let ghost a = self.a();
                    let ghost ds = Seq::new(ids.len(), |k: int| dt(a, ids[k].0 as int));
                    proof {
                        assert forall|k: int| 0 <= k < ds.len() implies derives(e.g, e.st, e.input@, #[trigger] ds[k]) by { assert(full(e, a, ids[k])); lemma_full_derives(e, self.traversal_tree, ids[k]); }
                        if want_once() { assert forall|k: int, l: int| 0 <= k < ds.len() && 0 <= l < ds.len() && k != l implies #[trigger] ds[k] != #[trigger] ds[l] by {
                            assert(full(e, a, ids[k])); assert(full(e, a, ids[l]));
                            if ds[k] == ds[l] { lemma_dt_inj(e, self.traversal_tree, ids[k], ids[l]); }
                        } }
                        if want_all() { assert forall|d: DT| #[trigger] derives(e.g, e.st, e.input@, d) implies ds.contains(d) by {
                            let i = lemma_all_found(e, self.traversal_tree, self.queue, self.completions, d);
                            assert(self.found(e, i));
                            assert(o.found(e, i));
                            let k = choose|k: int| 0 <= k < ids.len() && ids[k] == i;
                            assert(ds[k] == d);
                        } }
                    }
                    return (out, Ghost(ds));
                }
            }
        }
    }
}
//# module earley
/// A fresh run of `e`: `theorem_collect` applies to it.
pub open spec fn ready<'g>(it: ParseTreeIter<'g>, e: Env<'g>) -> bool { it.inv(e) && forall|i: TraversalId| !#[trigger] it.found(e, i) }
//# fn earley::parse
@rettype ParseTreeIter<'gram>
@spec
requires $0.parse_grammar.wf(),
ensures ready(r, env_of(*$0, $1, $2)),
//# fn earley::parse_with_parser_rc
@rettype ParseTreeIter<'gram>
@spec
requires $0.parse_grammar.wf(),
ensures ready(r, env_of(*$0, $1, $2)),
//# module parser
use crate::earley::*;
//# fn parser::GrammarParser::parse_input_starting_with
@rettype ParseTreeIter<'gram>
@spec
requires self.parse_grammar.wf(),
ensures ready(r, env_of(*self, $0, Some($1))),
//# fn parser::GrammarParser::parse_input
@rettype ParseTreeIter<'gram>
@spec
requires self.parse_grammar.wf(),
ensures ready(r, env_of(*self, $0, None)),
//# module grammar
use std::rc::Rc;
use crate::earley::*;
//# fn grammar::Grammar::parse_input
@rettype ParseTreeIter<'gram>
@spec
requires self.productions@.len() > 0,
ensures ready(r, Env { g: flat(*self), input: $0, st: self.productions@[0].lhs }),
//# fn grammar::Grammar::parse_input_starting_with
@rettype ParseTreeIter<'gram>
@spec
requires self.productions@.len() > 0,
ensures ready(r, Env { g: flat(*self), input: $0, st: *$1 }),
//# module earley
/// C01-C03 end to end, over the contracts of the real entry points: build a parser and read a text.
pub fn theorem_parse<'g>(p: &'g GrammarParser<'g>, Ghost(g): Ghost<Grammar>, input: &'g str) -> (r: (Vec<ParseTree<'g>>, Ghost<Seq<DT>>))
    requires p.parse_grammar.wf(), p.parse_grammar.abs() == flat(g), *p.starting_term == g.productions@[0].lhs,
    ensures parses_of(Env { g: flat(g), input, st: g.productions@[0].lhs }, r.0@, r.1@),
        want_all() ==> forall|d: DT| #[trigger] derives(flat(g), g.productions@[0].lhs, input@, d) ==> r.1@.contains(d),
{
    let mut it = p.parse_input(input);
    it.theorem_collect(Ghost(Env { g: flat(g), input, st: g.productions@[0].lhs }))
}
