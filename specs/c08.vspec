// Lowering of groups and optionals to fresh nonterminals (C08).
//# include core.vspec
//# rename extend
//# prelude
pub trait VExtend<T> { fn v_extend(&mut self, o: Vec<T>); }
impl<T> VExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn v_extend(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@, final(self)@.skip(old(self)@.len() as int) == o@ { unimplemented!() }
}
//# module parsers
use crate::term::Term;
use crate::expression::Expression;
use crate::production::Production;
use crate::grammar::Grammar;
use crate::VExtend;
broadcast use {crate::shim::axiom_string_ext, crate::lemma_push_drop};
//# item parsers::ParsedTerm noeq noclone
//# item parsers::ParsedExpression noeq noclone
//# item parsers::ParsedProduction noeq noclone
//# item parsers::ParsedGrammar noeq noclone
//# prelude
use crate::shim::*;
pub use crate::parsers::{ParsedTerm, ParsedExpression, ParsedProduction, ParsedGrammar};
/// The name occurs in the term as written.
pub open spec fn in_term(t: ParsedTerm, n: Seq<char>) -> bool decreases t, 0int {
    match t {
        ParsedTerm::Simple(x) => match x { Term::Nonterminal(s) => s@ == n, Term::Terminal(_) => false },
        ParsedTerm::Group(es) => in_exprs(es, n),
        ParsedTerm::Optional(es) => in_exprs(es, n),
    }
}
pub open spec fn in_exprs(es: Vec<ParsedExpression>, n: Seq<char>) -> bool decreases es, 0int { exists|k: int| 0 <= k < es@.len() && in_expr(#[trigger] es[k], n) }
pub open spec fn in_expr(e: ParsedExpression, n: Seq<char>) -> bool decreases e, 0int { match e { ParsedExpression::Terms(ts) => in_terms(ts, n) } }
pub open spec fn in_terms(ts: Vec<ParsedTerm>, n: Seq<char>) -> bool decreases ts, 0int { exists|k: int| 0 <= k < ts@.len() && in_term(#[trigger] ts[k], n) }
/// The name was written somewhere in the grammar, defined or merely referenced.
pub open spec fn prod_lhs_of(p: ParsedProduction) -> Seq<char> { match p { ParsedProduction::Complex { lhs, rhs } => lhs@ } }
pub open spec fn prod_rhs_of(p: ParsedProduction) -> Vec<ParsedExpression> { match p { ParsedProduction::Complex { lhs, rhs } => rhs } }
pub open spec fn in_prods(ps: Seq<ParsedProduction>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (prod_lhs_of(#[trigger] ps[i]) == n || in_exprs(prod_rhs_of(ps[i]), n)) }
pub open spec fn written(g: ParsedGrammar, n: Seq<char>) -> bool { in_prods(g.productions@, g.productions@.len() as int, n) }
/// How many groups and optionals are written.
pub open spec fn groups_term(t: ParsedTerm) -> nat decreases t, 0int {
    match t { ParsedTerm::Simple(_) => 0, ParsedTerm::Group(es) => 1 + groups_exprs(es, es@.len() as int), ParsedTerm::Optional(es) => 1 + groups_exprs(es, es@.len() as int) }
}
pub open spec fn groups_exprs(es: Vec<ParsedExpression>, k: int) -> nat decreases es, k { if k <= 0 || k > es@.len() { 0 } else { groups_exprs(es, k - 1) + groups_expr(es[k - 1]) } }
pub open spec fn groups_expr(e: ParsedExpression) -> nat decreases e, 0int { match e { ParsedExpression::Terms(ts) => groups_terms(ts, ts@.len() as int) } }
pub open spec fn groups_terms(ts: Vec<ParsedTerm>, k: int) -> nat decreases ts, k { if k <= 0 || k > ts@.len() { 0 } else { groups_terms(ts, k - 1) + groups_term(ts[k - 1]) } }
pub open spec fn groups_prods(ps: Seq<ParsedProduction>, k: int) -> nat decreases k { if k <= 0 { 0 } else { groups_prods(ps, k - 1) + groups_exprs(prod_rhs_of(ps[k - 1]), prod_rhs_of(ps[k - 1])@.len() as int) } }
pub open spec fn exprs_of(t: ParsedTerm) -> Vec<ParsedExpression> { match t { ParsedTerm::Group(es) => es, ParsedTerm::Optional(es) => es, ParsedTerm::Simple(_) => arbitrary() } }
/// The alternative that is the empty string.
pub open spec fn is_empty_alt(e: Expression) -> bool { e.terms@.len() == 1 && match e.terms[0] { Term::Terminal(s) => s@.len() == 0, Term::Nonterminal(_) => false } }
/// `r` stands for `t`, given the generated productions `ps`.
pub open spec fn lowered_term(t: ParsedTerm, r: Term, ps: Seq<Production>) -> bool decreases t, 0int {
    match t {
        ParsedTerm::Simple(x) => r == x,
        ParsedTerm::Group(es) => r is Nonterminal && exists|k: int| 0 <= k < ps.len() && (#[trigger] ps[k]).lhs == r
            && (if es@.len() == 0 { ps[k].rhs@.len() == 1 && is_empty_alt(ps[k].rhs@[0]) } else { lowered_exprs(es, ps[k].rhs@, ps) }),
        ParsedTerm::Optional(es) => r is Nonterminal && exists|k: int| 0 <= k < ps.len() && (#[trigger] ps[k]).lhs == r
            && ps[k].rhs@.len() > 0 && is_empty_alt(ps[k].rhs@.last()) && lowered_exprs(es, ps[k].rhs@.drop_last(), ps),
    }
}
pub open spec fn lowered_exprs(es: Vec<ParsedExpression>, xs: Seq<Expression>, ps: Seq<Production>) -> bool decreases es, 0int {
    es@.len() == xs.len() && forall|k: int| 0 <= k < es@.len() ==> lowered_expr(#[trigger] es[k], xs[k], ps)
}
pub open spec fn lowered_expr(e: ParsedExpression, x: Expression, ps: Seq<Production>) -> bool decreases e, 0int { match e { ParsedExpression::Terms(ts) => lowered_terms(ts, x.terms@, ps) } }
pub open spec fn lowered_terms(ts: Vec<ParsedTerm>, xs: Seq<Term>, ps: Seq<Production>) -> bool decreases ts, 0int {
    ts@.len() == xs.len() && forall|k: int| 0 <= k < ts@.len() ==> lowered_term(#[trigger] ts[k], xs[k], ps)
}
pub open spec fn extends(ps: Seq<Production>, qs: Seq<Production>) -> bool { ps.len() <= qs.len() && forall|k: int| 0 <= k < ps.len() ==> qs[k] == #[trigger] ps[k] }
pub proof fn lemma_mono_term(t: ParsedTerm, r: Term, ps: Seq<Production>, qs: Seq<Production>)
    requires lowered_term(t, r, ps), extends(ps, qs), ensures lowered_term(t, r, qs), decreases t, 0int,
{
    match t {
        ParsedTerm::Simple(x) => {}
        ParsedTerm::Group(es) => {
            let k = choose|k: int| 0 <= k < ps.len() && (#[trigger] ps[k]).lhs == r && (if es@.len() == 0 { ps[k].rhs@.len() == 1 && is_empty_alt(ps[k].rhs@[0]) } else { lowered_exprs(es, ps[k].rhs@, ps) });
            if es@.len() > 0 { lemma_mono_exprs(es, ps[k].rhs@, ps, qs); }
            assert(qs[k].lhs == r);
        }
        ParsedTerm::Optional(es) => {
            let k = choose|k: int| 0 <= k < ps.len() && (#[trigger] ps[k]).lhs == r && ps[k].rhs@.len() > 0 && is_empty_alt(ps[k].rhs@.last()) && lowered_exprs(es, ps[k].rhs@.drop_last(), ps);
            lemma_mono_exprs(es, ps[k].rhs@.drop_last(), ps, qs);
            assert(qs[k].lhs == r);
        }
    }
}
pub proof fn lemma_mono_exprs(es: Vec<ParsedExpression>, xs: Seq<Expression>, ps: Seq<Production>, qs: Seq<Production>)
    requires lowered_exprs(es, xs, ps), extends(ps, qs), ensures lowered_exprs(es, xs, qs), decreases es, 0int,
{ assert forall|k: int| 0 <= k < es@.len() implies lowered_expr(#[trigger] es[k], xs[k], qs) by { lemma_mono_expr(es[k], xs[k], ps, qs); } }
pub proof fn lemma_mono_expr(e: ParsedExpression, x: Expression, ps: Seq<Production>, qs: Seq<Production>)
    requires lowered_expr(e, x, ps), extends(ps, qs), ensures lowered_expr(e, x, qs), decreases e, 0int,
{ match e { ParsedExpression::Terms(ts) => { lemma_mono_terms(ts, x.terms@, ps, qs); } } }
pub proof fn lemma_mono_terms(ts: Vec<ParsedTerm>, xs: Seq<Term>, ps: Seq<Production>, qs: Seq<Production>)
    requires lowered_terms(ts, xs, ps), extends(ps, qs), ensures lowered_terms(ts, xs, qs), decreases ts, 0int,
{ assert forall|k: int| 0 <= k < ts@.len() implies lowered_term(#[trigger] ts[k], xs[k], qs) by { lemma_mono_term(ts[k], xs[k], ps, qs); } }
/// Productions from `i` on define pairwise different names, none of them in `u`, all of them in `w`.
pub open spec fn fresh_from(ps: Seq<Production>, i: int, u: Set<String>, w: Set<String>) -> bool {
    &&& forall|k: int| i <= k < ps.len() ==> match (#[trigger] ps[k]).lhs { Term::Nonterminal(s) => !u.contains(s) && w.contains(s), Term::Terminal(_) => false }
    &&& forall|k: int, l: int| i <= k < l < ps.len() ==> (#[trigger] ps[k]).lhs != (#[trigger] ps[l]).lhs
}
/// One lowering step: names only get used, generated productions are only added, with fresh names.
pub open spec fn step(u: Set<String>, ps: Seq<Production>, w: Set<String>, qs: Seq<Production>) -> bool { u.subset_of(w) && extends(ps, qs) && fresh_from(qs, ps.len() as int, u, w) }
pub proof fn lemma_step(u: Set<String>, ps: Seq<Production>, w: Set<String>, qs: Seq<Production>, x: Set<String>, rs: Seq<Production>)
    requires step(u, ps, w, qs), step(w, qs, x, rs), ensures step(u, ps, x, rs),
{
    assert forall|k: int| 0 <= k < ps.len() implies rs[k] == #[trigger] ps[k] by { assert(qs[k] == ps[k]); }
    assert forall|k: int| ps.len() <= k < rs.len() implies match (#[trigger] rs[k]).lhs { Term::Nonterminal(s) => !u.contains(s) && x.contains(s), Term::Terminal(_) => false } by { if k < qs.len() { assert(rs[k] == qs[k]); } }
    assert forall|k: int, l: int| ps.len() <= k < l < rs.len() implies (#[trigger] rs[k]).lhs != (#[trigger] rs[l]).lhs by {
        if k < qs.len() { assert(rs[k] == qs[k]); }
        if l < qs.len() { assert(rs[l] == qs[l]); }
    }
}
pub open spec fn terms_of(e: ParsedExpression) -> Vec<ParsedTerm> { match e { ParsedExpression::Terms(ts) => ts } }
pub open spec fn low_k(es: Seq<ParsedExpression>, xs: Seq<Expression>, n: int, ps: Seq<Production>) -> bool { forall|k: int| 0 <= k < n ==> lowered_expr(#[trigger] es[k], xs[k], ps) }
pub proof fn lemma_low(es: Vec<ParsedExpression>, xs: Seq<Expression>, ps: Seq<Production>, qs: Seq<Production>)
    requires low_k(es@, xs, es@.len() as int, ps), xs.len() == es@.len(), extends(ps, qs), ensures lowered_exprs(es, xs, qs),
{ assert forall|k: int| 0 <= k < es@.len() implies lowered_expr(#[trigger] es[k], xs[k], qs) by { assert(lowered_expr(es@[k], xs[k], ps)); lemma_mono_expr(es[k], xs[k], ps, qs); } }
pub proof fn lemma_group(es: Vec<ParsedExpression>, r: Term, ps: Seq<Production>, qs: Seq<Production>, xs: Seq<Expression>)
    requires extends(ps, qs), qs.len() == ps.len() + 1, r is Nonterminal, qs.last().lhs == r, qs.last().rhs@ == xs,
        if es@.len() == 0 { xs.len() == 1 && is_empty_alt(xs[0]) } else { low_k(es@, xs, es@.len() as int, ps) && xs.len() == es@.len() },
    ensures lowered_term(ParsedTerm::Group(es), r, qs),
{ if es@.len() > 0 { lemma_low(es, xs, ps, qs); } assert(qs[ps.len() as int].lhs == r); }
pub proof fn lemma_optional(es: Vec<ParsedExpression>, r: Term, ps: Seq<Production>, qs: Seq<Production>, xs: Seq<Expression>)
    requires extends(ps, qs), qs.len() == ps.len() + 1, r is Nonterminal, qs.last().lhs == r, qs.last().rhs@.len() > 0, qs.last().rhs@.drop_last() == xs, is_empty_alt(qs.last().rhs@.last()), low_k(es@, xs, es@.len() as int, ps), xs.len() == es@.len(),
    ensures lowered_term(ParsedTerm::Optional(es), r, qs),
{ lemma_low(es, xs, ps, qs); assert(qs[ps.len() as int].lhs == r); }
pub broadcast proof fn lemma_push_drop<T>(s: Seq<T>, x: T) ensures (#[trigger] s.push(x)).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
pub open spec fn in_seq(es: Seq<ParsedExpression>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && in_expr(#[trigger] es[i], n) }
pub open spec fn in_tseq(ts: Seq<ParsedTerm>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && in_term(#[trigger] ts[i], n) }
/// Every written name is used, and so is every generated one; generated names are new and pairwise different.
pub open spec fn state(g: ParsedGrammar, u: Set<String>, ps: Seq<Production>) -> bool {
    &&& forall|n: String| written(g, n@) ==> #[trigger] u.contains(n)
    &&& forall|k: int| 0 <= k < ps.len() ==> match (#[trigger] ps[k]).lhs { Term::Nonterminal(s) => !written(g, s@) && u.contains(s), Term::Terminal(_) => false }
    &&& forall|k: int, l: int| 0 <= k < l < ps.len() ==> (#[trigger] ps[k]).lhs != (#[trigger] ps[l]).lhs
}
pub proof fn lemma_state(g: ParsedGrammar, u: Set<String>, ps: Seq<Production>, w: Set<String>, qs: Seq<Production>)
    requires state(g, u, ps), step(u, ps, w, qs), ensures state(g, w, qs),
{
    assert forall|k: int| 0 <= k < qs.len() implies match (#[trigger] qs[k]).lhs { Term::Nonterminal(s) => !written(g, s@) && w.contains(s), Term::Terminal(_) => false } by { if k < ps.len() { assert(qs[k] == ps[k]); } }
    assert forall|k: int, l: int| 0 <= k < l < qs.len() implies (#[trigger] qs[k]).lhs != (#[trigger] qs[l]).lhs by {
        if k < ps.len() { assert(qs[k] == ps[k]); }
        if l < ps.len() { assert(qs[l] == ps[l]); }
    }
}
/// The first `k` productions of `out` are the first `k` written ones, lowered.
pub open spec fn user_prods(g: ParsedGrammar, out: Seq<Production>, k: int, ps: Seq<Production>) -> bool {
    forall|i: int| 0 <= i < k ==> match (#[trigger] out[i]).lhs { Term::Nonterminal(s) => s@ == prod_lhs_of(g.productions@[i]), Term::Terminal(_) => false } && lowered_exprs(prod_rhs_of(g.productions@[i]), out[i].rhs@, ps)
}
/// `out` is `g` with its groups and optionals lowered to the productions after the first `m`.
pub open spec fn normalized(g: ParsedGrammar, out: Seq<Production>, m: int) -> bool {
    let ps = out.skip(m);
    &&& m == g.productions@.len() && m <= out.len()
    &&& user_prods(g, out, m, ps)
    &&& ps.len() == groups_prods(g.productions@, m)
    &&& forall|k: int| 0 <= k < ps.len() ==> match (#[trigger] ps[k]).lhs { Term::Nonterminal(s) => !written(g, s@), Term::Terminal(_) => false }
    &&& forall|k: int, l: int| 0 <= k < l < ps.len() ==> (#[trigger] ps[k]).lhs != (#[trigger] ps[l]).lhs
}
//# fn expression::Expression::from_parts
@spec
ensures r.terms == $0,
//# fn production::Production::from_parts
@spec
ensures r.lhs == $0, r.rhs == $1,
//# fn grammar::Grammar::from_parts
@spec
ensures r.productions == $0,
//# fn parsers::collect_names
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
ensures old($1)@.subset_of(final($1)@), forall|n: String| in_seq($0@, $0@.len() as int, n@) ==> #[trigger] final($1)@.contains(n),
@loop 0
old($1)@.subset_of($1@), forall|n: String| in_seq($0@, $it0.pos() as int, n@) ==> #[trigger] $1@.contains(n),
@loopstart 0
let ghost u0 = $1@;
let ghost ts = terms_of($0@[$it0.pos() - 1]);
@loop 1
u0.subset_of($1@), forall|n: String| in_tseq(ts@, $it1.pos() as int, n@) ==> #[trigger] $1@.contains(n),
@loopstart 1
let ghost u1 = $1@;
let ghost t = ts@[$it1.pos() - 1];
@loopend 1
proof {
    assert forall|n: String| in_tseq(ts@, $it1.pos() as int, n@) implies #[trigger] $1@.contains(n) by {
        let i = choose|i: int| 0 <= i < $it1.pos() && in_term(#[trigger] ts@[i], n@);
        if i < $it1.pos() - 1 { assert(in_tseq(ts@, $it1.pos() - 1, n@)); assert(u1.contains(n)); }
        else { assert(in_term(t, n@)); match t { ParsedTerm::Simple(x) => { match x { Term::Nonterminal(s) => { assert(s@ == n@); assert(s == n); }, _ => {} } }, ParsedTerm::Group(es) => { assert(in_exprs(es, n@)); assert(in_seq(es@, es@.len() as int, n@)); }, ParsedTerm::Optional(es) => { assert(in_exprs(es, n@)); assert(in_seq(es@, es@.len() as int, n@)); } } }
    }
}
@loopend 0
proof {
    assert forall|n: String| in_seq($0@, $it0.pos() as int, n@) implies #[trigger] $1@.contains(n) by {
        let i = choose|i: int| 0 <= i < $it0.pos() && in_expr(#[trigger] $0@[i], n@);
        if i < $it0.pos() - 1 { assert(in_seq($0@, $it0.pos() - 1, n@)); assert(u0.contains(n)); }
        else { assert(in_terms(ts, n@)); assert(in_tseq(ts@, ts@.len() as int, n@)); }
    }
}
//# fn parsers::fresh_anon_name
@attr #[verifier::exec_allows_no_decreases_clause]
@opt addlit
@spec
ensures !old($0)@.contains(r), final($0)@.contains(r), old($0)@.subset_of(final($0)@),
@loop 0
invariant $0@ == old($0)@,
//# fn parsers::lower_expression
@attr #[verifier::exec_allows_no_decreases_clause]
@opt collect
@spec
ensures step(old($1)@, old($3)@, final($1)@, final($3)@), lowered_expr($0, r, final($3)@), final($3)@.len() == old($3)@.len() + groups_expr($0),
@start
let ghost ts = terms_of($0);
@loop 0
step(old($1)@, old($3)@, $1@, $3@), $c0@.len() == $it0.pos(), $3@.len() == old($3)@.len() + groups_terms(ts, $it0.pos() as int), forall|k: int| 0 <= k < $it0.pos() ==> lowered_term(#[trigger] ts[k], $c0@[k], $3@),
@loopstart 0
let ghost u0 = $1@; let ghost ps0 = $3@; let ghost c0 = $c0@;
@loopend 0
proof {
    lemma_step(old($1)@, old($3)@, u0, ps0, $1@, $3@);
    assert forall|k: int| 0 <= k < $it0.pos() implies lowered_term(#[trigger] ts[k], $c0@[k], $3@) by { if k < $it0.pos() - 1 { lemma_mono_term(ts[k], c0[k], ps0, $3@); } }
}
//# fn parsers::lower_term
@attr #[verifier::exec_allows_no_decreases_clause]
@opt collect
@spec
ensures step(old($1)@, old($3)@, final($1)@, final($3)@), lowered_term($0, r, final($3)@), final($3)@.len() == old($3)@.len() + groups_term($0),
@start
let ghost t0 = $0;
@loop 0
step(old($1)@, old($3)@, $1@, $3@), $c0@.len() == $it0.pos(), low_k($it0.all(), $c0@, $it0.pos() as int, $3@), $it0.all() == exprs_of(t0)@, $3@.len() == old($3)@.len() + groups_exprs(exprs_of(t0), $it0.pos() as int),
!old($1)@.contains($l0), $1@.contains($l0), forall|k: int| old($3)@.len() <= k < $3@.len() ==> (#[trigger] $3@[k]).lhs != Term::Nonterminal($l0),
@loopstart 0
let ghost u0 = $1@; let ghost ps0 = $3@; let ghost c0 = $c0@;
@loopend 0
proof {
    lemma_step(old($1)@, old($3)@, u0, ps0, $1@, $3@);
    assert forall|k: int| 0 <= k < $it0.pos() implies lowered_expr(#[trigger] $it0.all()[k], $c0@[k], $3@) by { if k < $it0.pos() - 1 { lemma_mono_expr($it0.all()[k], c0[k], ps0, $3@); } }
    assert forall|k: int| old($3)@.len() <= k < $3@.len() implies (#[trigger] $3@[k]).lhs != Term::Nonterminal($l0) by { if k < ps0.len() { assert($3@[k] == ps0[k]); } }
}
@loop 1
step(old($1)@, old($3)@, $1@, $3@), $c1@.len() == $it1.pos(), low_k($it1.all(), $c1@, $it1.pos() as int, $3@), $it1.all() == exprs_of(t0)@, $3@.len() == old($3)@.len() + groups_exprs(exprs_of(t0), $it1.pos() as int),
!old($1)@.contains($l1), $1@.contains($l1), forall|k: int| old($3)@.len() <= k < $3@.len() ==> (#[trigger] $3@[k]).lhs != Term::Nonterminal($l1),
@loopstart 1
let ghost u0 = $1@; let ghost ps0 = $3@; let ghost c0 = $c1@;
@loopend 1
proof {
    lemma_step(old($1)@, old($3)@, u0, ps0, $1@, $3@);
    assert forall|k: int| 0 <= k < $it1.pos() implies lowered_expr(#[trigger] $it1.all()[k], $c1@[k], $3@) by { if k < $it1.pos() - 1 { lemma_mono_expr($it1.all()[k], c0[k], ps0, $3@); } }
    assert forall|k: int| old($3)@.len() <= k < $3@.len() implies (#[trigger] $3@[k]).lhs != Term::Nonterminal($l1) by { if k < ps0.len() { assert($3@[k] == ps0[k]); } }
}
@end
proof {
    let u = old($1)@; let ps = old($3)@; let w = $1@; let qs = $3@;
    match t0 {
        ParsedTerm::Simple(_) => {}
        ParsedTerm::Group(es) => { lemma_group(es, __tail, qs.drop_last(), qs, qs.last().rhs@); }
        ParsedTerm::Optional(es) => { lemma_optional(es, __tail, qs.drop_last(), qs, qs.last().rhs@.drop_last()); }
    }
}
//# fn parsers::normalize_parsed_grammar
@opt collect
@muts used_names out_prods anon_prods counter
@spec
ensures normalized($0, r.productions@, $0.productions@.len() as int),
@start
let ghost g = $0;
let ghost np = g.productions@.len() as int;
@loop 0
forall|n: String| in_prods(g.productions@, $it0.pos() as int, n@) ==> #[trigger] $m0@.contains(n),
@loopstart 0
let ghost u0 = $m0@; let ghost p = g.productions@[$it0.pos() - 1];
@loopend 0
proof {
    assert forall|n: String| in_prods(g.productions@, $it0.pos() as int, n@) implies #[trigger] $m0@.contains(n) by {
        let i = choose|i: int| 0 <= i < $it0.pos() && (prod_lhs_of(#[trigger] g.productions@[i]) == n@ || in_exprs(prod_rhs_of(g.productions@[i]), n@));
        if i < $it0.pos() - 1 { assert(in_prods(g.productions@, $it0.pos() - 1, n@)); assert(u0.contains(n)); }
        else if prod_lhs_of(p) == n@ { match p { ParsedProduction::Complex { lhs, rhs } => { assert(lhs@ == n@); assert(lhs == n); } } }
        else if in_exprs(prod_rhs_of(p), n@) { assert(in_seq(prod_rhs_of(p)@, prod_rhs_of(p)@.len() as int, n@)); }
    }
}
@loop 1
state(g, $m0@, $m2@), $m1@.len() == $it1.pos(), $m2@.len() == groups_prods(g.productions@, $it1.pos() as int), user_prods(g, $m1@, $it1.pos() as int, $m2@),
@loopstart 1
let ghost ps1 = $m2@; let ghost out1 = $m1@; let ghost es = prod_rhs_of(g.productions@[$it1.pos() - 1]);
@loop 2
state(g, $m0@, $m2@), extends(ps1, $m2@), $m2@.len() == ps1.len() + groups_exprs(es, $it2.pos() as int), $c0@.len() == $it2.pos(), forall|k: int| 0 <= k < $it2.pos() ==> lowered_expr(#[trigger] es[k], $c0@[k], $m2@),
@loopstart 2
let ghost u2 = $m0@; let ghost ps2 = $m2@; let ghost c2 = $c0@;
@loopend 2
proof {
    lemma_state(g, u2, ps2, $m0@, $m2@);
    assert forall|k: int| 0 <= k < ps1.len() implies $m2@[k] == #[trigger] ps1[k] by { assert(ps2[k] == ps1[k]); }
    assert forall|k: int| 0 <= k < $it2.pos() implies lowered_expr(#[trigger] es[k], $c0@[k], $m2@) by { if k < $it2.pos() - 1 { lemma_mono_expr(es[k], c2[k], ps2, $m2@); } }
}
@loopend 1
proof {
    assert forall|i: int| 0 <= i < $it1.pos() - 1 implies lowered_exprs(prod_rhs_of(g.productions@[i]), (#[trigger] $m1@[i]).rhs@, $m2@) by { assert($m1@[i] == out1[i]); lemma_mono_exprs(prod_rhs_of(g.productions@[i]), out1[i].rhs@, ps1, $m2@); }
}
