// The built-in strategies (C07).
//# include derive.vspec
//# include genbase.vspec
//# include gentrait.vspec
//# rename extend
//# prelude
/// `extend` with a range.
pub trait VExtend<I> { fn v_extend(&mut self, i: I); }
impl VExtend<core::ops::Range<usize>> for Vec<usize> {
    #[verifier::external_body]
    fn v_extend(&mut self, i: core::ops::Range<usize>)
        ensures final(self)@ == old(self)@ + Seq::new(if i.start <= i.end { (i.end - i.start) as nat } else { 0 }, |k: int| (i.start + k) as usize),
    { unimplemented!() }
}
pub open spec fn terminals_only(e: Expression) -> bool { forall|k: int| 0 <= k < e.terms@.len() ==> (#[trigger] e.terms@[k]) is Terminal }
pub open spec fn mentions(e: Expression, t: Term) -> bool { exists|k: int| 0 <= k < e.terms@.len() && #[trigger] e.terms@[k] == t }
/// `c` lists the members of `e`, each once.
pub open spec fn lists(c: Seq<usize>, e: ISet<int>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < c.len() ==> c[i] != c[j]) && (forall|k: int| 0 <= k < c.len() ==> e.contains(#[trigger] c[k] as int))
        && (forall|i: int| #[trigger] e.contains(i) ==> 0 <= i <= usize::MAX && c.contains(i as usize))
}
/// `r` is drawn uniformly from `e`: one draw picks from a list of its members.
pub open spec fn fair(s0: int, s1: int, e: ISet<int>, r: int) -> bool {
    exists|c: Seq<usize>, k: nat| lists(c, e) && #[trigger] rand::draws(s0, s1, c.len(), k) && #[trigger] c[k as int] == r
}
pub open spec fn below(n: nat) -> ISet<int> { ISet::new(|i: int| 0 <= i < n) }
pub broadcast proof fn b_fair_all(s0: int, s1: int, n: nat, r: nat)
    requires #[trigger] rand::draws(s0, s1, n, r), n <= usize::MAX,
    ensures fair(s0, s1, below(n), r as int),
{
    let c = Seq::new(n, |i: int| i as usize);
    assert forall|i: int| #[trigger] below(n).contains(i) implies c.contains(i as usize) by { assert(c[i] == i as usize); }
    assert(lists(c, below(n))); assert(c[r as int] == r);
}
/// The alternatives a depth-bounded choice is made from.
pub open spec fn leafy(p: Production) -> ISet<int> { ISet::new(|i: int| 0 <= i < p.rhs@.len() && terminals_only(p.rhs@[i])) }
pub open spec fn eligible(p: Production, capped: bool) -> ISet<int> { if capped && (exists|i: int| leafy(p).contains(i)) { leafy(p) } else { below(p.rhs@.len()) } }
//# module generation
//# fn generation::random_index
@spec
requires $1 > 0,
ensures r < $1, rand::draws(old($0)@, final($0)@, $1 as nat, r as nat),
//# item generation::RandomWalk
//# prelude
pub broadcast proof fn b_fair_from(c: Seq<usize>, e: ISet<int>, s0: int, s1: int, k: nat)
    requires #[trigger] rand::draws(s0, s1, c.len(), k), #[trigger] lists(c, e),
    ensures fair(s0, s1, e, c[k as int] as int),
{}
pub broadcast proof fn b_fair_in(s0: int, s1: int, e: ISet<int>, r: int)
    requires #[trigger] fair(s0, s1, e, r),
    ensures e.contains(r),
{}
pub broadcast proof fn b_leafy(p: Production, i: int)
    requires 0 <= i < p.rhs@.len(), terminals_only(#[trigger] p.rhs@[i]),
    ensures leafy(p).contains(i),
{}
pub broadcast proof fn b_range_lists(c: Seq<usize>, n: nat)
    requires c =~= Seq::new(n, |i: int| i as usize), n <= usize::MAX,
    ensures #[trigger] lists(c, below(n)),
{
    assert forall|i: int| #[trigger] below(n).contains(i) implies c.contains(i as usize) by { assert(c[i] == i as usize); }
}
/// A list that is kept or has one element put at its end keeps what it contained.
pub proof fn lemma_grow(a: Seq<usize>, b: Seq<usize>)
    ensures b == a || (exists|x: usize| b == a.push(x)) ==> (forall|x: usize| #[trigger] a.contains(x) ==> b.contains(x)) && (b.len() > a.len() ==> b.contains(b.last())),
{
    if exists|x: usize| b == a.push(x) {
        let y = choose|x: usize| b == a.push(x);
        assert forall|x: usize| #[trigger] a.contains(x) implies b.contains(x) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
        assert(b[b.len() - 1] == b.last());
    }
}
//# fn generation::RandomWalk::from_seed
@spec
ensures r.rng@ == rand::rng_of($0@),
//# fn generation::RandomWalk@GenerationStrategy::choose
@trait keep
@spec
ensures r is Some, exists|j: int| 0 <= j < $0.rhs@.len() && #[trigger] $0.rhs@[j] == *r->0 && fair(old(self).rng@, final(self).rng@, below($0.rhs@.len()), j),
@start
broadcast use b_fair_all;
//# item generation::DepthBounded
//# fn generation::DepthBounded::from_seed
@spec
ensures r.rng@ == rand::rng_of($1@), r.max_depth == $0,
//# fn generation::DepthBounded::new
@spec
requires rand::entropy(),
ensures r.max_depth == $0,
//# fn generation::DepthBounded::expression_all_terminals
@spec
ensures r == terminals_only(*$0),
//# fn generation::DepthBounded::fill_eligible_and_choose_index
@spec
requires $0.rhs@.len() > 0,
ensures r < $0.rhs@.len(), final(self).max_depth == old(self).max_depth,
    fair(old(self).rng@, final(self).rng@, eligible(*$0, $1 >= old(self).max_depth), r as int),
@start
broadcast use {b_fair_all, b_fair_from, b_range_lists};
@loop 0
self.max_depth == old(self).max_depth, self.rng == old(self).rng,
forall|i: int| 0 <= i < self.eligible_buf@.len() ==> leafy(*$0).contains(#[trigger] self.eligible_buf@[i] as int) && self.eligible_buf@[i] < $it0.pos(),
forall|i: int, j: int| 0 <= i < j < self.eligible_buf@.len() ==> self.eligible_buf@[i] != self.eligible_buf@[j],
forall|i: int| i < $it0.pos() && #[trigger] leafy(*$0).contains(i) ==> self.eligible_buf@.contains(i as usize),
@loopstart 0
let ghost e0 = self.eligible_buf@;
@loopend 0
proof { lemma_grow(e0, self.eligible_buf@); }
//# fn generation::DepthBounded@GenerationStrategy::choose
@trait keep
@spec
ensures r is Some, final(self).max_depth == old(self).max_depth,
    exists|j: int| 0 <= j < $0.rhs@.len() && #[trigger] $0.rhs@[j] == *r->0 && fair(old(self).rng@, final(self).rng@, eligible(*$0, $1 >= old(self).max_depth), j),
    $1 >= old(self).max_depth && (exists|i: int| 0 <= i < $0.rhs@.len() && terminals_only(#[trigger] $0.rhs@[i])) ==> terminals_only(*r->0),
@start
broadcast use {b_fair_in, b_leafy};
//# item generation::CoverageGuided
//# fn generation::CoverageGuided::from_seed
@spec
ensures r.rng@ == rand::rng_of($0@), r.seen@ == Set::<(*const Term, usize)>::empty(),
//# fn generation::CoverageGuided@Default::default
@trait keep
@spec
ensures r.seen@ == Set::<(*const Term, usize)>::empty(),
//# fn generation::CoverageGuided::new
@spec
ensures r.seen@ == Set::<(*const Term, usize)>::empty(),
//# prelude
/// Alternative `i` of `p` has not been chosen.
pub open spec fn fresh_alts(seen: Set<(*const Term, usize)>, p: Production) -> ISet<int> { ISet::new(|i: int| fresh_alt(seen, p, i)) }
pub open spec fn uncovered(seen: Set<(*const Term, usize)>, p: Production) -> ISet<int> { if exists|i: int| fresh_alts(seen, p).contains(i) { fresh_alts(seen, p) } else { below(p.rhs@.len()) } }
pub open spec fn fresh_alt(seen: Set<(*const Term, usize)>, p: Production, i: int) -> bool { 0 <= i < p.rhs@.len() && !seen.contains((addr_of(p.lhs), i as usize)) }
pub broadcast proof fn b_fresh(seen: Set<(*const Term, usize)>, p: Production, i: int)
    requires #[trigger] fresh_alt(seen, p, i),
    ensures fresh_alts(seen, p).contains(i),
{}
//# fn generation::CoverageGuided::fill_uncovered_and_choose_index
@spec
requires $0.rhs@.len() > 0,
ensures r < $0.rhs@.len(), final(self).seen@ == old(self).seen@,
    fair(old(self).rng@, final(self).rng@, uncovered(old(self).seen@, *$0), r as int),
@start
broadcast use {b_fair_all, b_fair_from};
@loop 0
self.seen@ == old(self).seen@, self.rng == old(self).rng,
forall|i: int| 0 <= i < self.candidates_buf@.len() ==> fresh_alts(self.seen@, *$0).contains((#[trigger] self.candidates_buf@[i]) as int) && self.candidates_buf@[i] < $it0.pos(),
forall|i: int, j: int| 0 <= i < j < self.candidates_buf@.len() ==> self.candidates_buf@[i] != self.candidates_buf@[j],
forall|i: int| i < $it0.pos() && #[trigger] fresh_alts(self.seen@, *$0).contains(i) ==> self.candidates_buf@.contains(i as usize),
@loopstart 0
let ghost c0 = self.candidates_buf@;
@loopend 0
proof { lemma_grow(c0, self.candidates_buf@); }
//# fn generation::CoverageGuided@GenerationStrategy::choose
@trait keep
@spec
ensures r is Some,
    exists|j: int| 0 <= j < $0.rhs@.len() && #[trigger] $0.rhs@[j] == *r->0 && final(self).seen@ == old(self).seen@.insert((addr_of($0.lhs), j as usize))
        && fair(old(self).rng@, final(self).rng@, uncovered(old(self).seen@, *$0), j)
        && ((exists|i: int| fresh_alt(old(self).seen@, *$0, i)) ==> fresh_alt(old(self).seen@, *$0, j)),
@start
broadcast use {b_fair_in, b_fresh};
//# item generation::Weighted
//# prelude
pub open spec fn weight_of(rw: u32, nw: u32, p: Production, i: int) -> u32 { if mentions(p.rhs@[i], p.lhs) { rw } else { nw } }
pub open spec fn weights(rw: u32, nw: u32, p: Production) -> Seq<u32> { Seq::new(p.rhs@.len(), |i: int| weight_of(rw, nw, p, i)) }
pub open spec fn wsum(w: Seq<u32>, n: int) -> nat decreases n { if n <= 0 { 0 } else { wsum(w, n - 1) + w[n - 1] as nat } }
pub proof fn lemma_wsum(w: Seq<u32>, n: int)
    requires 0 <= n <= w.len(),
    ensures wsum(w, n) == 0 ==> forall|i: int| 0 <= i < n ==> #[trigger] w[i] == 0, forall|m: int| 0 <= m <= n ==> #[trigger] wsum(w, m) <= wsum(w, n),
    decreases n,
{ if n > 0 { lemma_wsum(w, n - 1); } }
/// The alternative whose interval holds the draw: each is chosen by as many of the equally likely draws as its weight says.
pub open spec fn by_weight(s0: int, s1: int, w: Seq<u32>, r: int) -> bool {
    0 <= r < w.len() && exists|d: nat| #[trigger] rand::draws(s0, s1, wsum(w, w.len() as int), d) && wsum(w, r) <= d < wsum(w, r + 1)
}
pub open spec fn by_weights(s0: int, s1: int, w: Seq<u32>, r: int) -> bool {
    let total = wsum(w, w.len() as int);
    if total == 0 { fair(s0, s1, below(w.len()), r) } else { total <= u64::MAX ==> by_weight(s0, s1, w, r) }
}
//# fn generation::Weighted@Default::default
@trait keep
@spec
//# fn generation::Weighted::new
@spec
ensures r.recursive_weight == $0, r.non_recursive_weight == $1,
//# fn generation::Weighted::from_seed
@spec
ensures r.recursive_weight == $0, r.non_recursive_weight == $1, r.rng@ == rand::rng_of($2@),
//# fn generation::Weighted::expression_contains_nonterminal
@spec
ensures r == mentions(*$0, *$1),
//# fn generation::Weighted::fill_weights
@spec
ensures final(self).recursive_weight == old(self).recursive_weight, final(self).non_recursive_weight == old(self).non_recursive_weight, final(self).rng == old(self).rng,
    final(self).weights_buf@ =~= weights(old(self).recursive_weight, old(self).non_recursive_weight, *$0),
@loop 0
self.recursive_weight == old(self).recursive_weight, self.non_recursive_weight == old(self).non_recursive_weight, self.rng == old(self).rng,
self.weights_buf@.len() == $it0.pos(),
forall|i: int| 0 <= i < $it0.pos() ==> (#[trigger] self.weights_buf@[i]) == weight_of(self.recursive_weight, self.non_recursive_weight, *$0, i),
//# fn generation::Weighted::weighted_random_index
@muts total r
@spec
requires $1@.len() > 0, $2 > 0,
ensures $2 == $1@.len() ==> r < $1@.len(),
    (exists|i: int| 0 <= i < $1@.len() && #[trigger] $1@[i] > 0) ==> r < $1@.len() && $1@[r as int] > 0,
    0 < wsum($1@, $1@.len() as int) <= u64::MAX ==> by_weight(old($0)@, final($0)@, $1@, r as int),
    wsum($1@, $1@.len() as int) == 0 ==> fair(old($0)@, final($0)@, below($2 as nat), r as int),
@start
broadcast use b_fair_all;
proof { lemma_wsum($1@, $1@.len() as int); }
let ghost wall = wsum($1@, $1@.len() as int);
@loop 0
$m0 as int == (if wsum($1@, $it0.pos() as int) <= u64::MAX { wsum($1@, $it0.pos() as int) as int } else { u64::MAX as int }), $it0.all().len() == $1@.len(),
@loop 1
$m1 + wsum($1@, $it1.pos() as int) < wsum($1@, $1@.len() as int),
wall <= u64::MAX ==> rand::draws(old($0)@, $0@, wall, ($m1 + wsum($1@, $it1.pos() as int)) as nat), $it1.all().len() == $1@.len(),
//# fn generation::Weighted@GenerationStrategy::choose
@trait keep
@spec
ensures r is Some, final(self).recursive_weight == old(self).recursive_weight, final(self).non_recursive_weight == old(self).non_recursive_weight,
    exists|j: int| 0 <= j < $0.rhs@.len() && #[trigger] $0.rhs@[j] == *r->0
        && ((exists|i: int| 0 <= i < $0.rhs@.len() && #[trigger] weights(old(self).recursive_weight, old(self).non_recursive_weight, *$0)[i] > 0)
            ==> weights(old(self).recursive_weight, old(self).non_recursive_weight, *$0)[j] > 0)
        && by_weights(old(self).rng@, final(self).rng@, weights(old(self).recursive_weight, old(self).non_recursive_weight, *$0), j),
