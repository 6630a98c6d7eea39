// ParseGrammar / GrammarParser construction and lookup (C01-C04).
//# include derive.vspec
//# prelude
pub use crate::parser::GrammarParser;
/// `n` is the left hand side of one of the first `k` productions.
pub open spec fn defined_n(ps: Seq<Production>, n: Seq<char>, k: int) -> bool decreases k {
    k > 0 && (defined_n(ps, n, k - 1) || is_nt(ps[k - 1].lhs, n))
}
pub open spec fn is_nt(t: Term, n: Seq<char>) -> bool {
    match t { Term::Nonterminal(s) => s@ == n, Term::Terminal(_) => false }
}
pub open spec fn in_terms(ts: Seq<Term>, n: Seq<char>, k: int) -> bool decreases k {
    k > 0 && (in_terms(ts, n, k - 1) || is_nt(ts[k - 1], n))
}
pub open spec fn in_alts(es: Seq<Expression>, n: Seq<char>, k: int) -> bool decreases k {
    k > 0 && (in_alts(es, n, k - 1) || in_terms(es[k - 1].terms@, n, es[k - 1].terms@.len() as int))
}
/// `n` is used in an alternative of one of the first `k` productions.
pub open spec fn referenced_n(ps: Seq<Production>, n: Seq<char>, k: int) -> bool decreases k {
    k > 0 && (referenced_n(ps, n, k - 1) || in_alts(ps[k - 1].rhs@, n, ps[k - 1].rhs@.len() as int))
}
/// A valid grammar: at least one production, every used nonterminal defined.
pub open spec fn valid_grammar(g: Grammar) -> bool {
    g.productions@.len() > 0 && all_defined(g)
}
pub open spec fn all_defined(g: Grammar) -> bool { forall|n: Seq<char>| #[trigger] referenced_n(g.productions@, n, g.productions@.len() as int) ==> defined_n(g.productions@, n, g.productions@.len() as int) }
/// The text names `n`.
pub open spec fn mentions(m: Seq<char>, n: Seq<char>) -> bool {
    exists|a: Seq<char>, b: Seq<char>| m == #[trigger] (a + n + b)
}
/// The error of a rejected grammar is a validation error that names an undefined nonterminal
/// when that is the reason.
pub open spec fn good_error(g: Grammar, e: Error) -> bool {
    match e {
        Error::ValidationError(m) => g.productions@.len() == 0
            || exists|n: Seq<char>| #[trigger] referenced_n(g.productions@, n, g.productions@.len() as int)
                && !defined_n(g.productions@, n, g.productions@.len() as int) && mentions(m@, n),
        _ => false,
    }
}
//# module validation
pub open spec fn holds<'a>(set: Set<&'a str>, n: Seq<char>) -> bool { exists|s: &'a str| #[trigger] set.contains(s) && s@ == n }
impl<'a> NonterminalSets<'a> {
    pub open spec fn def(&self, n: Seq<char>) -> bool { holds(self.defined@, n) }
    pub open spec fn refd(&self, n: Seq<char>) -> bool { holds(self.referenced@, n) }
}
pub proof fn lemma_holds_insert<'a>(set: Set<&'a str>, x: &'a str)
    ensures forall|n: Seq<char>| #[trigger] holds(set.insert(x), n) == (holds(set, n) || n == x@),
{
    assert forall|n: Seq<char>| #[trigger] holds(set.insert(x), n) == (holds(set, n) || n == x@) by {
        if holds(set, n) { let s = choose|s: &'a str| #[trigger] set.contains(s) && s@ == n; assert(set.insert(x).contains(s)); }
        if n == x@ { assert(set.insert(x).contains(x)); }
    }
}
//# item validation::NonterminalSets
//# fn validation::NonterminalSets::new
@spec
ensures forall|n: Seq<char>| !#[trigger] r.def(n), forall|n: Seq<char>| !#[trigger] r.refd(n),
//# fn validation::NonterminalSets::record_lhs
@spec
ensures forall|n: Seq<char>| #[trigger] final(self).def(n) == (old(self).def(n) || n == $0@),
    forall|n: Seq<char>| #[trigger] final(self).refd(n) == old(self).refd(n),
@start
proof { lemma_holds_insert(self.defined@, $0); }
//# fn validation::NonterminalSets::record_rhs
@spec
ensures forall|n: Seq<char>| #[trigger] final(self).refd(n) == (old(self).refd(n) || n == $0@),
    forall|n: Seq<char>| #[trigger] final(self).def(n) == old(self).def(n),
@start
proof { lemma_holds_insert(self.referenced@, $0); }
//# fn validation::NonterminalSets::reserve
@spec
ensures forall|n: Seq<char>| #[trigger] final(self).refd(n) == old(self).refd(n),
    forall|n: Seq<char>| #[trigger] final(self).def(n) == old(self).def(n),
//# fn validation::NonterminalSets::undefined
@spec
ensures r.pos() == 0,
    forall|i: int| 0 <= i < r.all().len() ==> self.refd((#[trigger] r.all()[i])@) && !self.def(r.all()[i]@),
    forall|n: Seq<char>| #[trigger] self.refd(n) && !self.def(n) ==> r.all().len() > 0,
@start
broadcast use shim::axiom_str_ext;
//# fn grammar::Grammar::validate
@muts sets
@spec
ensures r.is_ok() == valid_grammar(*self),
    match r { Ok(_) => true, Err(e) => good_error(*self, e) },
@loop 0
forall|n: Seq<char>| #[trigger] $m0.def(n) == defined_n(self.productions@, n, $it.pos() as int),
forall|n: Seq<char>| #![trigger $m0.refd(n)] #![trigger referenced_n(self.productions@, n, $it.pos() as int)] $m0.refd(n) == referenced_n(self.productions@, n, $it.pos() as int),
@loop 1
forall|n: Seq<char>| #[trigger] $m0.def(n) == defined_n(self.productions@, n, $it0.pos() as int),
forall|n: Seq<char>| #[trigger] $m0.refd(n) == (referenced_n(self.productions@, n, $it0.pos() - 1)
    || in_alts(self.productions@[$it0.pos() - 1].rhs@, n, $it1.pos() as int)),
@loop 2
forall|n: Seq<char>| #[trigger] $m0.def(n) == defined_n(self.productions@, n, $it0.pos() as int),
forall|n: Seq<char>| #[trigger] $m0.refd(n) == (referenced_n(self.productions@, n, $it0.pos() - 1)
    || in_alts(self.productions@[$it0.pos() - 1].rhs@, n, $it1.pos() - 1)
    || in_terms(self.productions@[$it0.pos() - 1].rhs@[$it1.pos() - 1].terms@, n, $it2.pos() as int)),
//# module append_vec
use vstd::std_specs::convert::{FromSpecImpl,FromSpec,IntoSpec};
pub open spec fn id_ok<I: From<usize>+Into<usize>>() -> bool {
   I::obeys_from_spec() && <I as IntoSpec<usize>>::obeys_into_spec() && (forall|x: usize| (#[trigger] I::from_spec(x)).into_spec() == x)
}
//# item append_vec::AppendOnlyVec
//# fn append_vec::AppendOnlyVec@Default::default
@spec
ensures r.vec@ == Seq::<T>::empty(),
//# fn append_vec::AppendOnlyVec@From<Vec>::from
@spec
ensures r.vec == $0,
//# fn append_vec::AppendOnlyVec::new
@spec
ensures r.vec@ == Seq::<T>::empty(),
//# fn append_vec::AppendOnlyVec::len
@spec
ensures r == self.vec@.len(),
//# fn append_vec::AppendOnlyVec::next_id
@spec
requires id_ok::<I>(),
ensures r == I::from_spec(self.vec@.len() as usize),
//# fn append_vec::AppendOnlyVec::push
@spec
requires id_ok::<I>(),
ensures final(self).vec@ == old(self).vec@.push($0), r == I::from_spec(old(self).vec@.len() as usize),
    final(self).vec@.len() <= usize::MAX,
@end
proof { assert(self.vec.len() == self.vec@.len()); }
//# fn append_vec::AppendOnlyVec::get
@spec
requires id_ok::<I>(),
ensures r == (if $0.into_spec() < self.vec@.len() { Some(&self.vec@[$0.into_spec() as int]) } else { None }),
//# module parser::grammar
use crate::append_vec::*;
use vstd::std_specs::convert::{FromSpecImpl,FromSpec,IntoSpec};
impl FromSpecImpl<usize> for ProductionId { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: usize) -> Self { ProductionId(v) } }
impl FromSpecImpl<ProductionId> for usize { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ProductionId) -> Self { v.0 } }
impl<'gram> ParseGrammar<'gram> {
    pub open spec fn prods(&self) -> Seq<Production<'gram>> { self.productions.vec@ }
    /// The grammar as a list of (left hand side, alternative).
    pub open spec fn abs(&self) -> Seq<AbsProd> { abs_prods(self.prods()) }
    pub open spec fn wf(&self) -> bool { pg_wf(self.prods(), self.prods_by_lhs@) }
}
pub open spec fn abs_prods<'gram>(ps: Seq<Production<'gram>>) -> Seq<AbsProd> { ps.map_values(|p: Production<'gram>| (*p.lhs, p.rhs.terms@)) }
pub open spec fn lhs_ids<'gram>(m: Map<&'gram Term, Vec<ProductionId>>, t: &'gram Term) -> Seq<ProductionId> {
    if m.contains_key(t) { m[t]@ } else { Seq::empty() }
}
/// ids equal positions; the table lists, for every term, exactly the productions of that term.
pub open spec fn pg_wf<'gram>(ps: Seq<Production<'gram>>, m: Map<&'gram Term, Vec<ProductionId>>) -> bool {
    &&& ps.len() <= usize::MAX
    &&& forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).id.0 == i
    &&& forall|t: &'gram Term, k: int| 0 <= k < lhs_ids(m, t).len() ==> (#[trigger] lhs_ids(m, t)[k]).0 < ps.len() && ps[lhs_ids(m, t)[k].0 as int].lhs == t
    &&& forall|i: int| 0 <= i < ps.len() ==> lists(lhs_ids(m, (#[trigger] ps[i]).lhs), i)
}
pub open spec fn lists(ids: Seq<ProductionId>, i: int) -> bool { exists|k: int| 0 <= k < ids.len() && (#[trigger] ids[k]).0 == i }
pub broadcast proof fn lemma_pg_push<'gram>(ps: Seq<Production<'gram>>, m: Map<&'gram Term, Vec<ProductionId>>, ps2: Seq<Production<'gram>>, m2: Map<&'gram Term, Vec<ProductionId>>)
    requires #[trigger] pg_wf(ps, m), ps2.len() > 0, ps2 == ps.push(ps2.last()), ps2.len() <= usize::MAX,
        ps2.last().id.0 == ps.len(), m2.contains_key(ps2.last().lhs), m2 == m.insert(ps2.last().lhs, m2[ps2.last().lhs]),
        m2[ps2.last().lhs]@ == lhs_ids(m, ps2.last().lhs).push(ps2.last().id),
    ensures #[trigger] pg_wf(ps2, m2),
{
    let l = ps2.last().lhs;
    assert forall|t: &'gram Term| t != l implies lhs_ids(m2, t) == #[trigger] lhs_ids(m, t) by {}
    assert forall|i: int| 0 <= i < ps2.len() implies lists(lhs_ids(m2, (#[trigger] ps2[i]).lhs), i) by {
        let t = ps2[i].lhs;
        if i < ps.len() {
            assert(ps2[i] == ps[i]);
            assert(lists(lhs_ids(m, ps[i].lhs), i));
            let k = choose|k: int| 0 <= k < lhs_ids(m, t).len() && (#[trigger] lhs_ids(m, t)[k]).0 == i;
            assert(lhs_ids(m2, t)[k] == lhs_ids(m, t)[k]);
        } else {
            assert(lhs_ids(m2, t)[lhs_ids(m, t).len() as int] == ps2.last().id);
        }
    }
    assert forall|t: &'gram Term, k: int| 0 <= k < lhs_ids(m2, t).len() implies (#[trigger] lhs_ids(m2, t)[k]).0 < ps2.len() && ps2[lhs_ids(m2, t)[k].0 as int].lhs == t by {
        if t == l {
            if k < lhs_ids(m, t).len() { assert(lhs_ids(m2, t)[k] == lhs_ids(m, t)[k]); }
        } else { assert(lhs_ids(m2, t)[k] == lhs_ids(m, t)[k]); }
    }
}
pub broadcast proof fn lemma_abs_push<'gram>(ps: Seq<Production<'gram>>, x: Production<'gram>)
    ensures #[trigger] abs_prods(ps.push(x)) == abs_prods(ps).push((*x.lhs, x.rhs.terms@)),
{
    assert(abs_prods(ps.push(x)) =~= abs_prods(ps).push((*x.lhs, x.rhs.terms@)));
}
pub proof fn lemma_alts_push(p: crate::Production, k: int)
    requires k > 0,
    ensures alts(p, k) == alts(p, k - 1).push((p.lhs, p.rhs@[k - 1].terms@)),
{
    assert(alts(p, k) =~= alts(p, k - 1).push((p.lhs, p.rhs@[k - 1].terms@)));
}
//# item parser::grammar::ProductionId
//# fn parser::grammar::ProductionId@From<usize>::from
@trait
//# fn parser::grammar::usize@From<ProductionId>::from
@trait
//# item parser::grammar::Production
//# item parser::grammar::ProdArena
//# item parser::grammar::ProdTermMap
//# item parser::grammar::ParseGrammar
//# fn parser::grammar::ParseGrammar::new
@muts productions prods_by_lhs sets
@spec
ensures r.is_ok() == all_defined(*$0),
    match r { Ok(pg) => pg.wf() && pg.abs() == flat(*$0), Err(e) => $0.productions@.len() > 0 && good_error(*$0, e) },
@start
broadcast use {lemma_pg_push, lemma_abs_push};
@loop 0
forall|n: Seq<char>| #[trigger] $m2.def(n) == defined_n($0.productions@, n, $it.pos() as int),
forall|n: Seq<char>| !#[trigger] $m2.refd(n),
@loop 1
pg_wf($m0.vec@, $m1@), abs_prods($m0.vec@) =~= flat_n($0.productions@, $it.pos() as int),
forall|n: Seq<char>| #[trigger] $m2.def(n) == defined_n($0.productions@, n, $0.productions@.len() as int),
forall|n: Seq<char>| #![trigger $m2.refd(n)] #![trigger referenced_n($0.productions@, n, $it.pos() as int)] $m2.refd(n) == referenced_n($0.productions@, n, $it.pos() as int),
@loop 2
pg_wf($m0.vec@, $m1@), abs_prods($m0.vec@) =~= flat_n($0.productions@, $it1.pos() - 1) + alts($0.productions@[$it1.pos() - 1], $it2.pos() as int),
forall|n: Seq<char>| #[trigger] $m2.def(n) == defined_n($0.productions@, n, $0.productions@.len() as int),
forall|n: Seq<char>| #[trigger] $m2.refd(n) == (referenced_n($0.productions@, n, $it1.pos() - 1)
    || in_alts($0.productions@[$it1.pos() - 1].rhs@, n, $it2.pos() as int)),
@loopend 2
proof { lemma_alts_push($0.productions@[$it1.pos() - 1], $it2.pos() as int); }
@loop 3
forall|n: Seq<char>| #[trigger] $m2.def(n) == defined_n($0.productions@, n, $0.productions@.len() as int),
forall|n: Seq<char>| #[trigger] $m2.refd(n) == (referenced_n($0.productions@, n, $it1.pos() - 1)
    || in_alts($0.productions@[$it1.pos() - 1].rhs@, n, $it2.pos() - 1)
    || in_terms($0.productions@[$it1.pos() - 1].rhs@[$it2.pos() - 1].terms@, n, $it3.pos() as int)),
//# fn parser::grammar::ParseGrammar::new_unchecked
@muts productions prods_by_lhs
@spec
ensures r.wf(), r.abs() == flat(*$0),
@start
broadcast use {lemma_pg_push, lemma_abs_push};
@loop 0
pg_wf($m0.vec@, $m1@), abs_prods($m0.vec@) =~= flat_n($0.productions@, $it.pos() as int),
@loop 1
pg_wf($m0.vec@, $m1@), abs_prods($m0.vec@) =~= flat_n($0.productions@, $it0.pos() - 1) + alts($0.productions@[$it0.pos() - 1], $it1.pos() as int),
@loopend 1
proof { lemma_alts_push($0.productions@[$it0.pos() - 1], $it1.pos() as int); }
//# fn parser::grammar::ParseGrammar::get_production_by_id
@spec
requires $0.0 < self.prods().len(),
ensures *r == self.prods()[$0.0 as int],
//# fn parser::grammar::ParseGrammar::get_productions_by_lhs
@spec
requires self.wf(),
ensures r.pos() == 0,
    forall|k: int| 0 <= k < r.all().len() ==> self.prods().contains(*#[trigger] r.all()[k]) && *r.all()[k].lhs == *$0,
    forall|i: int| 0 <= i < self.prods().len() && #[trigger] self.prods()[i].lhs == $0 ==> exists|k: int| 0 <= k < r.all().len() && *#[trigger] r.all()[k] == self.prods()[i],
@start
let ghost ids = lhs_ids(self.prods_by_lhs@, $0);
proof { assert(ids.len() >= 0);
    assert(forall|k: int| 0 <= k < ids.len() ==> (#[trigger] ids[k]).0 < self.prods().len() && self.prods()[ids[k].0 as int].lhs == $0); }
@closure 0
params &ProductionId
ret (p: &Production<'gram>)
requires $p0.0 < self.prods().len() ensures *p == self.prods()[$p0.0 as int]
//# module parser
use crate::parser::grammar::ParseGrammar;
use std::rc::Rc;
//# item parser::GrammarParser
//# fn parser::GrammarParser::new
@spec
ensures r.is_ok() == valid_grammar(*$0),
    match r { Ok(p) => p.parse_grammar.wf() && p.parse_grammar.abs() == flat(*$0) && *p.starting_term == $0.productions@[0].lhs,
        Err(e) => good_error(*$0, e) },
//# fn parser::GrammarParser::new_unchecked
@spec
requires $0.productions@.len() > 0,
ensures r.parse_grammar.wf(), r.parse_grammar.abs() == flat(*$0), *r.starting_term == $0.productions@[0].lhs,
//# fn grammar::Grammar::production_count
@spec
ensures r == self.productions@.len(),
//# fn grammar::Grammar::build_parser
@spec
ensures r.is_ok() == valid_grammar(*self),
    match r { Ok(p) => p.parse_grammar.wf() && p.parse_grammar.abs() == flat(*self) && *p.starting_term == self.productions@[0].lhs,
        Err(e) => good_error(*self, e) },
