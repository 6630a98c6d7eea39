// Generation follows the strategy, and is reproducible (C15).
//# include terminates.vspec
//# include genbase.vspec
//# module generation
/// A strategy is a function of its state, the production and the depth: `next` gives the state after and the choice. (Any strategy
/// is, when whatever else it looks at is counted as its state.)
pub trait GenerationStrategy: Sized {
    spec fn state(&self) -> int;
    spec fn next(s: int, p: Production, depth: int) -> (int, Option<Expression>);
    fn choose<'p>(&mut self, production: &'p Production, depth: usize) -> (r: Option<&'p Expression>)
        requires production.rhs@.len() > 0,
        ensures r is Some ==> production.rhs@.contains(*r->0),
            (final(self).state(), match r { Some(e) => Some(*e), None => None }) == Self::next(old(self).state(), *production, depth as int);
}
//# prelude
use crate::generation::GenerationStrategy;
pub open spec fn is_nt(t: Term, n: Seq<char>) -> bool { match t { Term::Nonterminal(s) => s@ == n, Term::Terminal(_) => false } }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }
/// The production generation uses for a name: the first one.
pub open spec fn is_first(ps: Seq<Production>, n: Seq<char>, i: int) -> bool {
    0 <= i < ps.len() && is_nt(ps[i].lhs, n) && forall|j: int| 0 <= j < i ==> !is_nt((#[trigger] refs(ps)[j]).lhs, n)
}
pub open spec fn first_of(ps: Seq<Production>, n: Seq<char>) -> Option<Production> {
    if exists|i: int| is_first(ps, n, i) { Some(ps[choose|i: int| is_first(ps, n, i)]) } else { None }
}
pub broadcast proof fn b_first(ps: Seq<Production>, n: Seq<char>, i: int)
    requires 0 <= i < ps.len(), is_nt((#[trigger] refs(ps)[i]).lhs, n), forall|j: int| 0 <= j < i ==> !is_nt((#[trigger] refs(ps)[j]).lhs, n),
    ensures #[trigger] first_of(ps, n) == Some(ps[i]),
{
    assert(refs(ps)[i] == &ps[i]);
    assert(is_first(ps, n, i));
    let j = choose|j: int| is_first(ps, n, j);
    if i < j { assert(refs(ps)[i] == &ps[i]); } else if j < i { assert(refs(ps)[j] == &ps[j]); }
}
pub open spec fn has_choice(p: Production) -> bool { p.rhs@.len() > 1 || (p.rhs@.len() == 1 && p.rhs@[0].terms@.len() > 0) }
pub type Acc = spec_fn(Seq<char>, Seq<char>) -> bool;
/// State of the strategy afterwards, and the text (or that the call fails).
pub type Out = (int, Option<Seq<char>>);
/// What expanding `n` at depth `d` from strategy state `s` comes to; None when `fuel` steps are not enough.
pub open spec fn gen_nt<S: GenerationStrategy>(fuel: nat, ps: Seq<Production>, acc: Acc, n: Seq<char>, d: int, s: int) -> Option<Out>
    decreases fuel, 0int, 0int
{
    if fuel == 0 { None } else {
        match first_of(ps, n) {
            None => Some((s, Some(seq!['<'] + n + seq!['>']))),
            Some(p) => if !has_choice(p) { Some((s, None)) } else {
                match S::next(s, p, d) {
                    (s1, None) => Some((s1, None)),
                    (s1, Some(e)) => match gen_all::<S>((fuel - 1) as nat, ps, acc, refs(e.terms@), e.terms@.len() as int, d, s1) {
                        None => None,
                        Some((s2, None)) => Some((s2, None)),
                        Some((s2, Some(t))) => if acc(n, t) { Some((s2, Some(t))) } else { gen_nt::<S>((fuel - 1) as nat, ps, acc, n, d, s2) },
                    },
                }
            },
        }
    }
}
/// The first `k` of `ts`, left to right.
pub open spec fn gen_all<S: GenerationStrategy>(fuel: nat, ps: Seq<Production>, acc: Acc, ts: Seq<&Term>, k: int, d: int, s: int) -> Option<Out>
    decreases fuel, 1int, k
{
    if k <= 0 || k > ts.len() { Some((s, Some(Seq::empty()))) } else {
        match gen_all::<S>(fuel, ps, acc, ts, k - 1, d, s) {
            None => None,
            Some((s1, None)) => Some((s1, None)),
            Some((s1, Some(a))) => match (match *ts[k - 1] { Term::Terminal(x) => Some((s1, Some(x@))), Term::Nonterminal(m) => gen_nt::<S>(fuel, ps, acc, m@, d + 1, s1) }) {
                None => None,
                Some((s2, None)) => Some((s2, None)),
                Some((s2, Some(b))) => Some((s2, Some(a + b))),
            },
        }
    }
}
#[verifier::opaque]
pub open spec fn runs<S: GenerationStrategy>(ps: Seq<Production>, acc: Acc, n: Seq<char>, d: int, s: int, o: Out) -> bool { exists|fuel: nat| #[trigger] gen_nt::<S>(fuel, ps, acc, n, d, s) == Some(o) }
#[verifier::opaque]
pub open spec fn runs_all<S: GenerationStrategy>(ps: Seq<Production>, acc: Acc, ts: Seq<&Term>, k: int, d: int, s: int, o: Out) -> bool { exists|fuel: nat| #[trigger] gen_all::<S>(fuel, ps, acc, ts, k, d, s) == Some(o) }
pub open spec fn runs_term<S: GenerationStrategy>(ps: Seq<Production>, acc: Acc, t: Term, d: int, s: int, o: Out) -> bool {
    match t { Term::Terminal(x) => o == (s, Some(x@)), Term::Nonterminal(m) => runs::<S>(ps, acc, m@, d + 1, s, o) }
}
pub proof fn lemma_fuel_nt<S: GenerationStrategy>(f: nat, g: nat, ps: Seq<Production>, acc: Acc, n: Seq<char>, d: int, s: int)
    requires f <= g, gen_nt::<S>(f, ps, acc, n, d, s) is Some,
    ensures gen_nt::<S>(g, ps, acc, n, d, s) == gen_nt::<S>(f, ps, acc, n, d, s),
    decreases f, 0int, 0int,
{
    if f > 0 { if let Some(p) = first_of(ps, n) { if has_choice(p) { if let (s1, Some(e)) = S::next(s, p, d) {
        let (f1, g1) = ((f - 1) as nat, (g - 1) as nat);
        lemma_fuel_all::<S>(f1, g1, ps, acc, refs(e.terms@), e.terms@.len() as int, d, s1);
        if let Some((s2, Some(t))) = gen_all::<S>(f1, ps, acc, refs(e.terms@), e.terms@.len() as int, d, s1) { if !acc(n, t) { lemma_fuel_nt::<S>(f1, g1, ps, acc, n, d, s2); } }
    } } } }
}
pub proof fn lemma_fuel_all<S: GenerationStrategy>(f: nat, g: nat, ps: Seq<Production>, acc: Acc, ts: Seq<&Term>, k: int, d: int, s: int)
    requires f <= g, gen_all::<S>(f, ps, acc, ts, k, d, s) is Some,
    ensures gen_all::<S>(g, ps, acc, ts, k, d, s) == gen_all::<S>(f, ps, acc, ts, k, d, s),
    decreases f, 1int, k,
{
    if 0 < k <= ts.len() {
        lemma_fuel_all::<S>(f, g, ps, acc, ts, k - 1, d, s);
        if let Some((s1, Some(a))) = gen_all::<S>(f, ps, acc, ts, k - 1, d, s) { if let Term::Nonterminal(m) = *ts[k - 1] { lemma_fuel_nt::<S>(f, g, ps, acc, m@, d + 1, s1); } }
    }
}
/// The outcome is determined by the grammar, the callback and the strategy's state.
pub proof fn theorem_c15_same<S: GenerationStrategy>(ps: Seq<Production>, acc: Acc, n: Seq<char>, d: int, s: int, o1: Out, o2: Out)
    requires runs::<S>(ps, acc, n, d, s, o1), runs::<S>(ps, acc, n, d, s, o2),
    ensures o1 == o2,
{ reveal(runs); reveal(runs_all);
    let f = choose|f: nat| #[trigger] gen_nt::<S>(f, ps, acc, n, d, s) == Some(o1);
    let g = choose|g: nat| #[trigger] gen_nt::<S>(g, ps, acc, n, d, s) == Some(o2);
    if f <= g { lemma_fuel_nt::<S>(f, g, ps, acc, n, d, s); } else { lemma_fuel_nt::<S>(g, f, ps, acc, n, d, s); }
}
pub broadcast proof fn b_leaf<S: GenerationStrategy>(ps: Seq<Production>, acc: Acc, n: Seq<char>, d: int, s: int, o: Out)
    requires match first_of(ps, n) {
        None => o.0 == s && o.1 is Some && o.1->0 =~= seq!['<'] + n + seq!['>'],
        Some(p) => if has_choice(p) { o.1 is None && S::next(s, p, d) == (o.0, None::<Expression>) } else { o == (s, None::<Seq<char>>) },
    },
    ensures #[trigger] runs::<S>(ps, acc, n, d, s, o),
{ reveal(runs); reveal(runs_all);
    assert(gen_nt::<S>(1, ps, acc, n, d, s) == Some(o));
}
pub proof fn lemma_stop<S: GenerationStrategy>(fuel: nat, ps: Seq<Production>, acc: Acc, ts: Seq<&Term>, j: int, k: int, d: int, s: int)
    requires 0 <= j <= k <= ts.len(), gen_all::<S>(fuel, ps, acc, ts, j, d, s) is Some, (gen_all::<S>(fuel, ps, acc, ts, j, d, s)->0).1 is None,
    ensures gen_all::<S>(fuel, ps, acc, ts, k, d, s) == gen_all::<S>(fuel, ps, acc, ts, j, d, s),
    decreases k - j,
{ if j < k { lemma_stop::<S>(fuel, ps, acc, ts, j, k - 1, d, s); } }
/// One more term, or the end of it.
pub proof fn lemma_step<S: GenerationStrategy>(ps: Seq<Production>, acc: Acc, ts: Seq<&Term>, k: int, d: int, s: int, a: Out, b: Out)
    requires 0 <= k < ts.len(), runs_all::<S>(ps, acc, ts, k, d, s, a), a.1 is Some, runs_term::<S>(ps, acc, *ts[k], d, a.0, b),
    ensures match b.1 { Some(x) => runs_all::<S>(ps, acc, ts, k + 1, d, s, (b.0, Some(a.1->0 + x))), None => runs_all::<S>(ps, acc, ts, ts.len() as int, d, s, b) },
{ reveal(runs); reveal(runs_all);
    let f = choose|f: nat| #[trigger] gen_all::<S>(f, ps, acc, ts, k, d, s) == Some(a);
    let mut h = f;
    if let Term::Nonterminal(m) = *ts[k] {
        let g = choose|g: nat| #[trigger] gen_nt::<S>(g, ps, acc, m@, d + 1, a.0) == Some(b);
        if g > f { h = g; }
        lemma_fuel_nt::<S>(g, h, ps, acc, m@, d + 1, a.0);
    }
    lemma_fuel_all::<S>(f, h, ps, acc, ts, k, d, s);
    match b.1 {
        Some(x) => { assert(gen_all::<S>(h, ps, acc, ts, k + 1, d, s) == Some((b.0, Some(a.1->0 + x)))); },
        None => { assert(gen_all::<S>(h, ps, acc, ts, k + 1, d, s) == Some(b)); lemma_stop::<S>(h, ps, acc, ts, k + 1, ts.len() as int, d, s); assert(gen_all::<S>(h, ps, acc, ts, ts.len() as int, d, s) == Some(b)); },
    }
}
/// The terms of the alternative a strategy in state `s` chooses for `n`.
pub open spec fn chosen<S: GenerationStrategy>(ps: Seq<Production>, n: Seq<char>, d: int, s: int) -> Seq<&'static Term> { refs(S::next(s, first_of(ps, n)->0, d).1->0.terms@) }
/// The strategy chose an alternative, whose first `k` terms come to `o`.
#[verifier::opaque]
pub open spec fn trying<S: GenerationStrategy>(ps: Seq<Production>, acc: Acc, n: Seq<char>, d: int, s: int, k: int, o: Out) -> bool {
    match first_of(ps, n) {
        None => false,
        Some(p) => has_choice(p) && S::next(s, p, d).1 is Some && 0 <= k <= chosen::<S>(ps, n, d, s).len() && runs_all::<S>(ps, acc, chosen::<S>(ps, n, d, s), k, d, S::next(s, p, d).0, o),
    }
}
pub broadcast proof fn b_start<S: GenerationStrategy>(ps: Seq<Production>, acc: Acc, n: Seq<char>, d: int, s: int, o: Out)
    requires first_of(ps, n) is Some, has_choice(first_of(ps, n)->0), S::next(s, first_of(ps, n)->0, d).1 is Some, o.0 == S::next(s, first_of(ps, n)->0, d).0, o.1 is Some, o.1->0 =~= Seq::<char>::empty(),
    ensures #[trigger] trying::<S>(ps, acc, n, d, s, 0, o),
{
    reveal(trying); reveal(runs_all);
    assert(gen_all::<S>(0, ps, acc, chosen::<S>(ps, n, d, s), 0, d, o.0) == Some(o));
}
pub broadcast proof fn b_more<S: GenerationStrategy>(ps: Seq<Production>, acc: Acc, n: Seq<char>, d: int, s: int, k: int, sa: int, ta: Seq<char>, t: Term, b: Out)
    requires #[trigger] trying::<S>(ps, acc, n, d, s, k, (sa, Some(ta))), 0 <= k < chosen::<S>(ps, n, d, s).len(), t == *chosen::<S>(ps, n, d, s)[k], #[trigger] runs_term::<S>(ps, acc, t, d, sa, b),
    ensures match b.1 { Some(x) => trying::<S>(ps, acc, n, d, s, k + 1, (b.0, Some(ta + x))), None => runs::<S>(ps, acc, n, d, s, b) },
{
    reveal(trying);
    let p = first_of(ps, n)->0;
    let s1 = S::next(s, p, d).0;
    let ts = chosen::<S>(ps, n, d, s);
    lemma_step::<S>(ps, acc, ts, k, d, s1, (sa, Some(ta)), b);
    if b.1 is None {
        reveal(runs); reveal(runs_all);
        let f = choose|f: nat| #[trigger] gen_all::<S>(f, ps, acc, ts, ts.len() as int, d, s1) == Some(b);
        assert(gen_nt::<S>(f + 1, ps, acc, n, d, s) == Some(b));
    }
}
/// What follows `a` in `a + b`.
pub open spec fn tail_after(s: Seq<char>, a: Seq<char>) -> Seq<char> { s.subrange(a.len() as int, s.len() as int) }
pub broadcast proof fn b_tail(a: Seq<char>, b: Seq<char>) ensures #[trigger] tail_after(a + b, a) == b { assert(tail_after(a + b, a) =~= b); }
/// The same for a term written out as the nonterminal it is.
pub broadcast proof fn b_more_nt<S: GenerationStrategy>(ps: Seq<Production>, acc: Acc, n: Seq<char>, d: int, s: int, k: int, sa: int, ta: Seq<char>, m: Seq<char>, d1: int, b: Out)
    requires #[trigger] trying::<S>(ps, acc, n, d, s, k, (sa, Some(ta))), 0 <= k < chosen::<S>(ps, n, d, s).len(), is_nt(*chosen::<S>(ps, n, d, s)[k], m), d1 == d + 1, #[trigger] runs::<S>(ps, acc, m, d1, sa, b),
    ensures match b.1 { Some(x) => trying::<S>(ps, acc, n, d, s, k + 1, (b.0, Some(ta + x))), None => runs::<S>(ps, acc, n, d, s, b) },
{ b_more::<S>(ps, acc, n, d, s, k, sa, ta, *chosen::<S>(ps, n, d, s)[k], b); }
/// From `s`, expanding comes to the same as from `c`.
pub open spec fn goes_on<S: GenerationStrategy>(ps: Seq<Production>, acc: Acc, n: Seq<char>, d: int, s: int, c: int) -> bool { forall|o: Out| runs::<S>(ps, acc, n, d, c, o) ==> #[trigger] runs::<S>(ps, acc, n, d, s, o) }
pub broadcast proof fn b_tried<S: GenerationStrategy>(ps: Seq<Production>, acc: Acc, n: Seq<char>, d: int, s: int, k: int, s2: int, t: Seq<char>)
    requires #[trigger] trying::<S>(ps, acc, n, d, s, k, (s2, Some(t))), k == chosen::<S>(ps, n, d, s).len(),
    ensures acc(n, t) ==> runs::<S>(ps, acc, n, d, s, (s2, Some(t))), !acc(n, t) ==> goes_on::<S>(ps, acc, n, d, s, s2),
{
    reveal(trying); reveal(runs); reveal(runs_all);
    let p = first_of(ps, n)->0;
    let s1 = S::next(s, p, d).0;
    let ts = chosen::<S>(ps, n, d, s);
    let f = choose|f: nat| #[trigger] gen_all::<S>(f, ps, acc, ts, ts.len() as int, d, s1) == Some((s2, Some(t)));
    if acc(n, t) { assert(gen_nt::<S>(f + 1, ps, acc, n, d, s) == Some((s2, Some(t)))); } else {
        assert forall|x: Out| runs::<S>(ps, acc, n, d, s2, x) implies #[trigger] runs::<S>(ps, acc, n, d, s, x) by {
            let g = choose|g: nat| #[trigger] gen_nt::<S>(g, ps, acc, n, d, s2) == Some(x);
            let h = if f < g { g } else { f };
            lemma_fuel_all::<S>(f, h, ps, acc, ts, ts.len() as int, d, s1);
            lemma_fuel_nt::<S>(g, h, ps, acc, n, d, s2);
            assert(gen_nt::<S>(h + 1, ps, acc, n, d, s) == Some(x));
        }
    }
}
/// The callback as a function of what it is shown, which is what `steady` says it is.
pub open spec fn said_no<F: Fn(&str, &str) -> bool>(f: F, n: Seq<char>, t: Seq<char>) -> bool { exists|a: &str, b: &str| a@ == n && b@ == t && #[trigger] f.ensures((a, b), false) }
pub open spec fn ok<F: Fn(&str, &str) -> bool>(f: F) -> Acc { |n: Seq<char>, t: Seq<char>| !said_no(f, n, t) }
pub open spec fn steady<F: Fn(&str, &str) -> bool>(f: F) -> bool {
    (forall|a: &str, b: &str| #[trigger] f.requires((a, b)))
        && forall|a: &str, b: &str, c: &str, e: &str| #[trigger] f.ensures((a, b), true) && #[trigger] f.ensures((c, e), false) ==> a@ != c@ || b@ != e@
}
pub open spec fn res(r: Result<String, Error>) -> Option<Seq<char>> { match r { Ok(s) => Some(s@), Err(_) => None } }
//# fn grammar::Grammar::traverse_with_strategy::production_has_no_choice
@spec
ensures r == !has_choice(*$0),
//# fn grammar::Grammar::traverse_with_strategy
@opt addlit
@muts result
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
requires steady(*$1),
ensures runs::<S>(self.productions@, ok(*$1), $0@, $3 as int, old($2).state(), (final($2).state(), res(r))),
@closure 0
params &&Production
ret (b: bool)
ensures b == is_nt($p0.lhs, $0@)
@start
broadcast use {b_first, b_leaf, b_start, b_more, b_more_nt, b_tried, axiom_str_ext};
proof { reveal_strlit("<"); reveal_strlit(">"); }
let ghost ps = self.productions@;
let ghost all = refs(ps);
let ghost acc = ok(*$1);
let ghost s0 = $2.state();
@loop 0
invariant goes_on::<S>(ps, acc, $0@, $3 as int, s0, $2.state()),
@loopstart 0
let ghost c0 = $2.state();
@loop 1
$it1.all() == chosen::<S>(ps, $0@, $3 as int, c0), trying::<S>(ps, acc, $0@, $3 as int, c0, $it1.pos() as int, ($2.state(), Some($m0@))),
@loopstart 1
let ghost t0 = $m0@;
let ghost c1 = $2.state();
@loopend 1
proof {
    broadcast use b_tail;
    let x = tail_after($m0@, t0);
    assert($m0@ =~= t0 + x);
    assert(runs_term::<S>(ps, acc, *$it1.all()[$it1.pos() - 1], $3 as int, c1, ($2.state(), Some(x))));
}
//# fn grammar::Grammar::eval_terminal_with_strategy
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
requires steady(*$1),
ensures runs_term::<S>(self.productions@, ok(*$1), *$0, $3 as int, old($2).state(), (final($2).state(), res(r))),
@opt addlit
//# item generation::RandomWalk
//# fn generation::RandomWalk::from_seed
@spec
ensures r.rng@ == rand::rng_of($0@),
//# fn generation::random_index
@spec
requires $1 > 0,
ensures r < $1, (final($0)@, r as nat) == rand::rng_range(0, old($0)@, $1 as nat),
//# fn generation::RandomWalk@GenerationStrategy::choose
@trait keep
@implspec
open spec fn state(&self) -> int { self.rng@ }
open spec fn next(s: int, p: Production, depth: int) -> (int, Option<Expression>) {
    let (s1, k) = rand::rng_range(0, s, p.rhs@.len());
    (s1, if k < p.rhs@.len() { Some(p.rhs@[k as int]) } else { None })
}
//# prelude
/// What generating from `g` with a strategy in state `s` comes to.
pub open spec fn comes_to<S: GenerationStrategy>(g: Grammar, acc: Acc, s: int, o: Out) -> bool {
    if can_end(g) && g.productions@.len() > 0 && g.productions@[0].lhs is Nonterminal { runs::<S>(g.productions@, acc, g.productions@[0].lhs->Nonterminal_0@, 0, s, o) }
    else { o == (s, None::<Seq<char>>) }
}
/// Equal grammars, callbacks and strategy states: equal results.
pub proof fn theorem_c15_reproducible<S: GenerationStrategy>(g: Grammar, acc: Acc, s: int, o1: Out, o2: Out)
    requires comes_to::<S>(g, acc, s, o1), comes_to::<S>(g, acc, s, o2),
    ensures o1 == o2,
{ if can_end(g) && g.productions@.len() > 0 && g.productions@[0].lhs is Nonterminal { theorem_c15_same::<S>(g.productions@, acc, g.productions@[0].lhs->Nonterminal_0@, 0, s, o1, o2); } }
pub open spec fn anything() -> Acc { |a: Seq<char>, b: Seq<char>| true }
pub broadcast proof fn b_anything<S: GenerationStrategy>(g: Grammar, acc: Acc, s: int, o: Out)
    requires #[trigger] comes_to::<S>(g, acc, s, o), forall|a: Seq<char>, b: Seq<char>| #[trigger] acc(a, b),
    ensures comes_to::<S>(g, anything(), s, o),
{ assert(acc =~= anything()); }
/// The state a random walk started from a generator in this state begins in, and what the call comes to.
pub open spec fn walk(r0: int) -> int { rand::rng_of(rand::rng_fill(r0, 32).1) }
pub open spec fn seeded(g: Grammar, acc: Acc, r0: int, r: Result<String, Error>) -> bool { exists|s0: int, s1: int| s0 == walk(r0) && #[trigger] comes_to::<crate::generation::RandomWalk>(g, acc, s0, (s1, res(r))) }
pub broadcast proof fn b_anything2(g: Grammar, acc: Acc, r0: int, r: Result<String, Error>)
    requires #[trigger] seeded(g, acc, r0, r), forall|a: Seq<char>, b: Seq<char>| #[trigger] acc(a, b),
    ensures seeded(g, anything(), r0, r),
{ assert(acc =~= anything()); }
pub proof fn theorem_c15_seeded(g: Grammar, acc: Acc, r0: int, a: Result<String, Error>, b: Result<String, Error>)
    requires seeded(g, acc, r0, a), seeded(g, acc, r0, b),
    ensures res(a) == res(b),
{
    let s = choose|s1: int| comes_to::<crate::generation::RandomWalk>(g, acc, walk(r0), (s1, res(a)));
    let t = choose|s1: int| comes_to::<crate::generation::RandomWalk>(g, acc, walk(r0), (s1, res(b)));
    theorem_c15_reproducible::<crate::generation::RandomWalk>(g, acc, walk(r0), (s, res(a)), (t, res(b)));
}
//# fn grammar::Grammar::generate_seeded_callback_with_strategy
@spec
requires steady($0),
ensures comes_to::<S>(*self, ok($0), old($1).state(), (final($1).state(), res(r))),
//# fn grammar::Grammar::generate_seeded_with_strategy
@spec
ensures comes_to::<S>(*self, anything(), old($0).state(), (final($0).state(), res(r))),
@closure 0
params &str; &str
ret (b: bool)
ensures b
@start
broadcast use b_anything;
//# fn grammar::Grammar::generate_seeded_callback
@spec
requires steady($1),
ensures seeded(*self, ok($1), old($0)@, r), final($0)@ == rand::rng_fill(old($0)@, 32).0,
//# fn grammar::Grammar::generate_seeded
@spec
ensures seeded(*self, anything(), old($0)@, r), final($0)@ == rand::rng_fill(old($0)@, 32).0,
@opt maybeclosure
@closure 0
params &str; &str
ret (b: bool)
ensures b
@start
broadcast use {b_anything, b_anything2};
//# fn grammar::Grammar::generate_callback
@spec
requires rand::entropy(), steady($0),
ensures exists|r0: int| #[trigger] seeded(*self, ok($0), r0, r),
//# fn grammar::Grammar::generate
@spec
requires rand::entropy(),
ensures exists|r0: int| #[trigger] seeded(*self, anything(), r0, r),
@closure 0
params &str; &str
ret (b: bool)
ensures b
@start
broadcast use b_anything2;
