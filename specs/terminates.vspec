// Which grammars can generate (C06): Grammar::terminates decides productivity of the first left hand side.
//# include derive.vspec
//# prelude
/// Every nonterminal among `ts` is one of `s`.
pub open spec fn covered(ts: Seq<Term>, s: Seq<&Term>) -> bool { forall|k: int| 0 <= k < ts.len() && (#[trigger] ts[k]) is Nonterminal ==> s.contains(&ts[k]) }
/// Some alternative of `p` uses only nonterminals of `s`.
pub open spec fn prod_ok(p: Production, s: Seq<&Term>) -> bool { exists|j: int| 0 <= j < p.rhs@.len() && covered((#[trigger] p.rhs@[j]).terms@, s) }
/// `t` derives some string of terminals.
pub open spec fn productive(g: Grammar, t: Term) -> bool { exists|d: DT| derives_from(g, t, d) }
pub open spec fn derives_from(g: Grammar, t: Term, d: DT) -> bool { dvalid(flat(g), d) && flat(g)[d->Node_0].0 == t }
pub open spec fn all_productive(g: Grammar, s: Seq<&Term>) -> bool { forall|k: int| 0 <= k < s.len() ==> productive(g, *#[trigger] s[k]) }
pub open spec fn rules<'a>(o: Option<&'a Vec<&'a Term>>) -> Seq<&'a Term> { match o { Some(v) => v@, None => Seq::empty() } }
pub open spec fn can_end(g: Grammar) -> bool { g.productions@.len() == 0 || productive(g, g.productions@[0].lhs) }
pub open spec fn saturated(ps: Seq<Production>, s: Seq<&Term>, k: int) -> bool { forall|i: int| 0 <= i < k ==> prod_ok(#[trigger] ps[i], s) ==> s.contains(&ps[i].lhs) }
pub open spec fn saturated0(ps: Seq<Production>, s: Seq<&Term>, k: int) -> bool { forall|i: int| 0 <= i < k ==> prod_ok(#[trigger] ps[i], Seq::empty()) ==> s.contains(&ps[i].lhs) }
/// How many of the first `k` productions are not yet in `s`.
pub open spec fn unmarked(ps: Seq<Production>, s: Seq<&Term>, k: int) -> nat decreases k {
    if k <= 0 { 0 } else { unmarked(ps, s, k - 1) + (if s.contains(&ps[k - 1].lhs) { 0nat } else { 1nat }) }
}
pub proof fn lemma_unmarked(ps: Seq<Production>, s: Seq<&Term>, x: &Term, k: int)
    requires 0 <= k <= ps.len(),
    ensures unmarked(ps, s.push(x), k) <= unmarked(ps, s, k), (exists|i: int| 0 <= i < k && !s.contains(&ps[i].lhs) && #[trigger] ps[i].lhs == *x) ==> unmarked(ps, s.push(x), k) < unmarked(ps, s, k),
    decreases k,
{
    if k > 0 {
        lemma_unmarked(ps, s, x, k - 1);
        let y = &ps[k - 1].lhs;
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
        if y == x { assert(s.push(x)[s.len() as int] == y); }
    }
}
pub proof fn lemma_flat_at(ps: Seq<Production>, n: int, i: int, j: int) -> (q: int)
    requires 0 <= i < n <= ps.len(), 0 <= j < ps[i].rhs@.len(),
    ensures 0 <= q < flat_n(ps, n).len(), flat_n(ps, n)[q] == (ps[i].lhs, ps[i].rhs@[j].terms@),
    decreases n,
{
    if i == n - 1 { flat_n(ps, n - 1).len() + j } else { lemma_flat_at(ps, n - 1, i, j) }
}
pub proof fn lemma_flat_from(ps: Seq<Production>, n: int, q: int) -> (r: (int, int))
    requires 0 <= n <= ps.len(), 0 <= q < flat_n(ps, n).len(),
    ensures 0 <= r.0 < n, 0 <= r.1 < ps[r.0].rhs@.len(), flat_n(ps, n)[q] == (ps[r.0].lhs, ps[r.0].rhs@[r.1].terms@),
    decreases n,
{
    if n <= 0 { (0, 0) } else if q >= flat_n(ps, n - 1).len() { (n - 1, q - flat_n(ps, n - 1).len()) } else { lemma_flat_from(ps, n - 1, q) }
}
pub proof fn lemma_marks(g: Grammar, i: int, s: Seq<&Term>)
    requires 0 <= i < g.productions@.len(), prod_ok(g.productions@[i], s), all_productive(g, s),
    ensures productive(g, g.productions@[i].lhs),
{
    let ps = g.productions@;
    let j = choose|j: int| 0 <= j < ps[i].rhs@.len() && covered((#[trigger] ps[i].rhs@[j]).terms@, s);
    let ts = ps[i].rhs@[j].terms@;
    let q = lemma_flat_at(ps, ps.len() as int, i, j);
    let ch = Seq::new(ts.len(), |k: int| match ts[k] { Term::Terminal(x) => DT::Leaf(x@), Term::Nonterminal(_) => choose|d: DT| derives_from(g, ts[k], d) });
    assert forall|k: int| 0 <= k < ch.len() implies match flat(g)[q].1[k] {
        Term::Terminal(s) => #[trigger] ch[k] == DT::Leaf(s@),
        Term::Nonterminal(_) => ch[k] is Node && 0 <= ch[k]->Node_0 < flat(g).len() && flat(g)[ch[k]->Node_0].0 == flat(g)[q].1[k] && dvalid(flat(g), ch[k]),
    } by {
        if ts[k] is Nonterminal {
            assert(s.contains(&ts[k]));
            let m = choose|m: int| 0 <= m < s.len() && s[m] == &ts[k];
            assert(productive(g, *s[m]));
            assert(derives_from(g, ts[k], ch[k]));
        }
    }
    assert(dvalid(flat(g), DT::Node(q, ch)));
    assert(derives_from(g, ps[i].lhs, DT::Node(q, ch)));
}
pub proof fn lemma_saturated(g: Grammar, s: Seq<&Term>, d: DT)
    requires saturated(g.productions@, s, g.productions@.len() as int), dvalid(flat(g), d),
    ensures s.contains(&flat(g)[d->Node_0].0),
    decreases d,
{
    let ps = g.productions@;
    let q = d->Node_0; let ch = d->Node_1;
    let (i, j) = lemma_flat_from(ps, ps.len() as int, q);
    let ts = ps[i].rhs@[j].terms@;
    assert forall|k: int| 0 <= k < ts.len() && (#[trigger] ts[k]) is Nonterminal implies s.contains(&ts[k]) by {
        assert(flat(g)[q].1[k] == ts[k]);
        assert(dvalid(flat(g), ch[k]));
        lemma_saturated(g, s, ch[k]);
    }
    assert(covered(ps[i].rhs@[j].terms@, s));
    assert(prod_ok(ps[i], s));
}
pub proof fn lemma_unproductive(g: Grammar, s: Seq<&Term>, t: Term)
    requires saturated(g.productions@, s, g.productions@.len() as int), !s.contains(&t),
    ensures !productive(g, t),
{
    if productive(g, t) { let d = choose|d: DT| derives_from(g, t, d); lemma_saturated(g, s, d); }
}
//# fn expression::Expression::terminates
@spec
ensures r == covered(self.terms@, rules($0)),
@start
let ghost rs = rules($0);
@loop 0
forall|k: int| 0 <= k < $it0.pos() && (#[trigger] self.terms@[k]) is Nonterminal ==> rs.contains(&self.terms@[k]),
//# fn production::Production::has_terminating_expression
@spec
ensures r == prod_ok(*self, rules($0)),
@closure 0
params &Expression
ret (b: bool)
ensures b == covered($p0.terms@, rules($0))
//# fn grammar::Grammar::terminates
@muts terminating_rules is_progress
@spec
ensures r == can_end(*self),
@start
broadcast use lemma_push_contains;
let ghost ps = self.productions@;
proof {
    assert forall|i: int, s: Seq<&Term>| 0 <= i < ps.len() && #[trigger] prod_ok(ps[i], s) && all_productive(*self, s) implies productive(*self, ps[i].lhs) by { lemma_marks(*self, i, s); }
    assert forall|s: Seq<&Term>, t: Term| #[trigger] saturated(ps, s, ps.len() as int) && !#[trigger] s.contains(&t) implies !productive(*self, t) by { lemma_unproductive(*self, s, t); }
    assert forall|s: Seq<&Term>| #[trigger] saturated0(ps, s, ps.len() as int) && s.len() == 0 implies !productive(*self, ps[0].lhs) by { assert(s =~= Seq::empty()); lemma_unproductive(*self, s, ps[0].lhs); }
}
@loop 0
all_productive(*self, $m0@), saturated0(ps, $m0@, $it0.pos() as int),
@loop 1
invariant all_productive(*self, $m0@), !$m1 ==> saturated(ps, $m0@, ps.len() as int),

decreases unmarked(ps, $m0@, ps.len() as int), (if $m1 { 1int } else { 0int }),
@loopstart 1
let ghost u0 = unmarked(ps, $m0@, ps.len() as int);
@loop 2
all_productive(*self, $m0@), !$m1 ==> saturated(ps, $m0@, $it2.pos() as int),
unmarked(ps, $m0@, ps.len() as int) <= u0, $m1 ==> unmarked(ps, $m0@, ps.len() as int) < u0,
@loopstart 2
let ghost v0 = $m0@;
@loopend 2
proof { if $m0@.len() > v0.len() { lemma_unmarked(ps, v0, $m0@.last(), ps.len() as int); } }
