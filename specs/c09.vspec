// Formatting and reading back (C09).
//# include c10.vspec
//# include termshow.vspec
//# rename join
//# prelude
/// `[..].join(sep)`
pub open spec fn joined(v: Seq<Seq<char>>, i: int, sep: Seq<char>) -> Seq<char> decreases v.len() - i {
    if i < 0 || i >= v.len() { Seq::empty() } else if i == v.len() - 1 { v[i] } else { v[i] + (sep + joined(v, i + 1, sep)) }
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub trait VJoin { fn v_join(&self, sep: &str) -> (r: String); }
impl VJoin for Vec<String> {
    #[verifier::external_body]
    fn v_join(&self, sep: &str) -> (r: String) ensures r@ == joined(texts(self@), 0, sep@) { unimplemented!() }
}
pub open spec fn terms_text(v: Seq<Term>) -> Seq<Seq<char>> { v.map_values(|t: Term| term_text(t)) }
pub open spec fn expr_text(e: Expression) -> Seq<char> { joined(terms_text(e.terms@), 0, one(' ')) }
pub open spec fn exprs_text(v: Seq<Expression>) -> Seq<Seq<char>> { v.map_values(|e: Expression| expr_text(e)) }
pub open spec fn defs() -> Seq<char> { seq![' ', ':', ':', '=', ' '] }
pub open spec fn bar() -> Seq<char> { seq![' ', '|', ' '] }
pub open spec fn prod_text(p: Production) -> Seq<char> { term_text(p.lhs) + defs() + joined(exprs_text(p.rhs@), 0, bar()) }
pub open spec fn prods_text(v: Seq<Production>) -> Seq<Seq<char>> { v.map_values(|p: Production| prod_text(p)) }
pub open spec fn grammar_text(v: Seq<Production>) -> Seq<char> { joined(prods_text(v), 0, one('\n')) + one('\n') }
pub proof fn lemma_lits() ensures " "@ == one(' '), " ::= "@ == defs(), " | "@ == bar(), "\n"@ == one('\n') {
    reveal_strlit(" "); reveal_strlit(" ::= "); reveal_strlit(" | "); reveal_strlit("\n");
    assert(" "@ =~= one(' ')); assert(" ::= "@ =~= defs()); assert(" | "@ =~= bar()); assert("\n"@ =~= one('\n'));
}
//# module expression
use crate::*;
//# fn expression::Expression@Display::fmt
@as VDisplay v_fmt
@opt collect
@opt strlits
@implspec
open spec fn disp(&self) -> Seq<char> { expr_text(*self) }
@start
proof { lemma_lits(); assert(terms_text(self.terms@).take(self.terms@.len() as int) =~= terms_text(self.terms@)); }
@loop 0
$it0.all().len() == self.terms@.len(), (forall|k: int| 0 <= k < self.terms@.len() ==> *(#[trigger] $it0.all()[k]) == self.terms@[k]), texts($c0@) == terms_text(self.terms@).take($it0.pos() as int),
@loopend 0
proof { assert(texts($c0@) =~= terms_text(self.terms@).take($it0.pos() as int)); }
//# module production
use crate::*;
//# fn production::Production@Display::fmt
@as VDisplay v_fmt
@opt collect
@opt strlits
@implspec
open spec fn disp(&self) -> Seq<char> { prod_text(*self) }
@start
proof { lemma_lits(); assert(exprs_text(self.rhs@).take(self.rhs@.len() as int) =~= exprs_text(self.rhs@)); assert($0@ + term_text(self.lhs) + defs() + joined(exprs_text(self.rhs@), 0, bar()) =~= $0@ + prod_text(*self)); }
@loop 0
$it0.all().len() == self.rhs@.len(), (forall|k: int| 0 <= k < self.rhs@.len() ==> *(#[trigger] $it0.all()[k]) == self.rhs@[k]), texts($c0@) == exprs_text(self.rhs@).take($it0.pos() as int),
@loopend 0
proof { assert(texts($c0@) =~= exprs_text(self.rhs@).take($it0.pos() as int)); }
//# fn grammar::Grammar@Display::fmt
@as VDisplay v_fmt
@opt collect
@opt strlits
@implspec
open spec fn disp(&self) -> Seq<char> { grammar_text(self.productions@) }
@start
proof { lemma_lits(); assert(prods_text(self.productions@).take(self.productions@.len() as int) =~= prods_text(self.productions@)); assert($0@ + joined(prods_text(self.productions@), 0, one('\n')) + one('\n') =~= $0@ + grammar_text(self.productions@)); }
@loop 0
$it0.all().len() == self.productions@.len(), (forall|k: int| 0 <= k < self.productions@.len() ==> *(#[trigger] $it0.all()[k]) == self.productions@[k]), texts($c0@) == prods_text(self.productions@).take($it0.pos() as int),
@loopend 0
proof { assert(texts($c0@) =~= prods_text(self.productions@).take($it0.pos() as int)); }
//# module term
use crate::*;
use crate::parsers;
use crate::parsers::{BNF, ABNF};
//# module expression
use crate::parsers;
use crate::parsers::{BNF, ABNF};
//# module production
use crate::parsers;
use crate::parsers::{BNF, ABNF};
//# prelude
pub open spec fn all_of<X>(o: Option<(X, Seq<char>)>) -> Option<X> { match o { Some((x, q)) => if q.len() == 0 { Some(x) } else { None }, None => None } }
//# fn term::Term@FromStr::from_str
@opt nom
@spec
ensures match all_of(rd_term(bnf_fm(), false, $0@)) { Some(t) => r is Ok && pt_of(r->Ok_0) == t, None => r is Err && r->Err_0 is ParseError },
//# fn expression::Expression@FromStr::from_str
@opt nom
@spec
ensures ({ let (ts, q) = rd_terms(bnf_fm(), false, $0@); if ts.len() > 0 && q.len() == 0 { r is Ok && pts_of(r->Ok_0.terms@) == ts } else { r is Err && r->Err_0 is ParseError } }),
//# fn production::Production@FromStr::from_str
@opt nom
@spec
ensures match all_of(rd_prod0(bnf_fm(), false, $0@)) { Some(p) => r is Ok && r->Ok_0.lhs is Nonterminal && pp_of(r->Ok_0) == p, None => r is Err && r->Err_0 is ParseError },
//# prelude
// ---- what can be written down ----
pub open spec fn can_term(t: Term) -> bool { match t { Term::Terminal(s) => !(s@.contains('\'') && s@.contains('"')), Term::Nonterminal(s) => !s@.contains('>') } }
pub open spec fn can_terms(v: Seq<Term>) -> bool { v.len() > 0 && forall|k: int| 0 <= k < v.len() ==> can_term(#[trigger] v[k]) }
pub open spec fn can_alts(v: Seq<Expression>) -> bool { v.len() > 0 && forall|k: int| 0 <= k < v.len() ==> can_terms((#[trigger] v[k]).terms@) }
pub open spec fn can_prod(p: Production) -> bool { p.lhs is Nonterminal && can_term(p.lhs) && can_alts(p.rhs@) }
pub open spec fn can_grammar(v: Seq<Production>) -> bool { v.len() > 0 && forall|k: int| 0 <= k < v.len() ==> can_prod(#[trigger] v[k]) }
pub proof fn lemma_lay1(c: char) requires white(c) ensures lay(one(c)) { assert(one(c).drop_first() =~= Seq::<char>::empty()); assert(lay(Seq::<char>::empty())); }
pub proof fn lemma_tok_text(t: Term, y: Seq<char>) requires can_term(t) ensures tok(bnf_fm(), pt_of(t), term_text(t), y) {}
pub proof fn lemma_w_terms(v: Seq<Term>, i: int, l: Seq<char>, z: Seq<char>)
    requires can_terms(v), 0 <= i < v.len(), lay(l), ensures w_terms(bnf_fm(), pts_of(v), i, joined(terms_text(v), i, one(' ')) + l, z),
    decreases v.len() - i,
{
    let fm = bnf_fm(); let k = term_text(v[i]); let s = joined(terms_text(v), i, one(' ')) + l;
    if i == v.len() - 1 {
        let b = Seq::<char>::empty();
        lemma_tok_text(v[i], l + (b + z));
        assert(cat(s, k, l));
        assert(w_term(fm, pts_of(v)[i], s, b + z));
        lemma_w_nil(fm, pts_of(v), i + 1, z);
        assert(s + b =~= s); assert(cat(s, s, b));
    } else {
        let b = joined(terms_text(v), i + 1, one(' ')) + l; let a = k + one(' ');
        lemma_lay1(' ');
        lemma_tok_text(v[i], one(' ') + (b + z));
        assert(cat(a, k, one(' ')));
        assert(w_term(fm, pts_of(v)[i], a, b + z));
        lemma_w_terms(v, i + 1, l, z);
        assert(s =~= a + b); assert(cat(s, a, b));
    }
}
pub proof fn lemma_w_alts(v: Seq<Expression>, i: int, m: Seq<char>, z: Seq<char>)
    requires can_alts(v), 0 <= i < v.len(), lay(m), ensures w_alts(bnf_fm(), alts_of(v), i, joined(exprs_text(v), i, bar()) + m, z),
    decreases v.len() - i,
{
    let fm = bnf_fm(); let ts = v[i].terms@; let s = joined(exprs_text(v), i, bar()) + m;
    assert(can_terms(v[i].terms@));
    assert(alts_of(v)[i] == pts_of(ts)); assert(pts_of(ts).len() > 0);
    if i == v.len() - 1 { lemma_w_terms(ts, 0, m, z); }
    else {
        let y = joined(exprs_text(v), i + 1, bar()) + m; let l = one(' '); let x = expr_text(v[i]) + l;
        lemma_lay1(' ');
        lemma_w_terms(ts, 0, l, one(fm.alt) + l + y + z);
        lemma_w_alts(v, i + 1, m, z);
        assert(s =~= x + one(fm.alt) + l + y);
        assert(cat3(s, x, l, y));
    }
}
pub proof fn lemma_w_prod(p: Production, m: Seq<char>, z: Seq<char>)
    requires can_prod(p), lay(m), ensures w_prod(bnf_fm(), pp_of(p), prod_text(p) + m, z),
{
    let fm = bnf_fm(); let s = prod_text(p) + m; let k = term_text(p.lhs); let l = one(' '); let o = Seq::<char>::empty(); let b = joined(exprs_text(p.rhs@), 0, bar()) + m;
    lemma_lay1(' ');
    lemma_tok_text(p.lhs, l + (fm.sep + (o + (l + (b + z)))));
    lemma_w_alts(p.rhs@, 0, m, z);
    assert(s =~= k + (l + (fm.sep + (o + (l + b)))));
    assert(cat5(s, k, l, o, l, b));
}
pub proof fn lemma_w_prods(v: Seq<Production>, i: int)
    requires can_grammar(v), 0 <= i < v.len(), ensures w_prods(bnf_fm(), pps_of(v), i, joined(prods_text(v), i, one('\n')) + one('\n'), Seq::empty()),
    decreases v.len() - i,
{
    let fm = bnf_fm(); let s = joined(prods_text(v), i, one('\n')) + one('\n'); let z = Seq::<char>::empty(); let a = prod_text(v[i]) + one('\n');
    lemma_lay1('\n');
    assert(can_prod(v[i]));
    if i == v.len() - 1 {
        lemma_w_prod(v[i], one('\n'), z + z);
        assert(w_prods(fm, pps_of(v), i + 1, z, z));
        assert(cat(s, a, z)) by { assert(s =~= a + z); }
    } else {
        let b = joined(prods_text(v), i + 1, one('\n')) + one('\n');
        lemma_w_prod(v[i], one('\n'), b + z);
        lemma_w_prods(v, i + 1);
        assert(cat(s, a, b)) by { assert(s =~= a + b); }
    }
}
/// C09 for grammars: the text of a grammar says the grammar; read back (by either entry point) it gives the same productions.
pub proof fn theorem_c09_grammar(v: Seq<Production>)
    requires can_grammar(v),
    ensures rd_grammar(bnf_fm(), grammar_text(v)) == Some(pps_of(v)), fm_of(grammar_text(v)) == bnf_fm(),
        forall|out: Seq<Production>| #[trigger] says(pps_of(v), out) ==> all_names(out) && pps_of(out) == pps_of(v),
{
    let s = grammar_text(v); let z = Seq::<char>::empty();
    lemma_w_prods(v, 0);
    assert(s =~= z + (s + z)); assert(cat3(s, z, s, z)); assert(skip(z).len() == 0);
    theorem_c10(bnf_fm(), pps_of(v), s);
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).lhs is Nonterminal by { assert(can_prod(v[k])); }
    assert forall|out: Seq<Production>| #[trigger] says(pps_of(v), out) implies all_names(out) && pps_of(out) == pps_of(v) by { lemma_says_plain(v, out); }
}
pub open spec fn plain(ts: Seq<PT>) -> bool { forall|k: int| 0 <= k < ts.len() ==> (#[trigger] ts[k]) is Text || ts[k] is Name }
pub proof fn lemma_ext_terms(fm: Fm, s: Seq<char>) requires plain(rd_terms(fm, true, s).0) ensures rd_terms(fm, false, s) == rd_terms(fm, true, s) decreases s.len() {
    lemma_term_suf(fm, true, s);
    if let Some((t, q)) = rd_one(fm, true, s) {
        assert(rd_terms(fm, true, s).0[0] == t);
        assert(rd_simple(fm, s) is Some); assert(rd_one(fm, false, s) == rd_one(fm, true, s));
        assert forall|k: int| 0 <= k < rd_terms(fm, true, q).0.len() implies (#[trigger] rd_terms(fm, true, q).0[k]) is Text || rd_terms(fm, true, q).0[k] is Name by { assert(rd_terms(fm, true, s).0[k + 1] == rd_terms(fm, true, q).0[k]); }
        lemma_ext_terms(fm, q);
    } else if rd_simple(fm, s) is Some { assert(rd_one(fm, false, s) == rd_one(fm, true, s)); }
}
pub proof fn lemma_ext_alts(fm: Fm, s: Seq<char>)
    requires rd_alts(fm, true, s) is Some, forall|k: int| 0 <= k < (rd_alts(fm, true, s)->0).0.len() ==> plain(#[trigger] (rd_alts(fm, true, s)->0).0[k]),
    ensures rd_alts(fm, false, s) == rd_alts(fm, true, s), decreases s.len(),
{
    let (ts, q) = rd_terms(fm, true, s); let r = (rd_alts(fm, true, s)->0).0;
    assert(r[0] == ts); lemma_ext_terms(fm, s);
    if q.len() > 0 && q[0] == fm.alt {
        let t = skip(q.drop_first());
        if t.len() < s.len() { let a = (rd_alts(fm, true, t)->0).0; assert forall|k: int| 0 <= k < a.len() implies plain(#[trigger] a[k]) by { assert(r[k + 1] == a[k]); } lemma_ext_alts(fm, t); }
    }
}
/// C09 for single terms, expressions and productions.
pub proof fn theorem_c09_term(t: Term) requires can_term(t) ensures all_of(rd_term(bnf_fm(), false, term_text(t))) == Some(pt_of(t)) {
    let z = Seq::<char>::empty();
    lemma_tok_text(t, z + z); lemma_rd_tok(bnf_fm(), pt_of(t), term_text(t), z, z);
    assert(term_text(t) + (z + z) =~= term_text(t));
}
pub proof fn theorem_c09_expression(e: Expression) requires can_terms(e.terms@) ensures rd_terms(bnf_fm(), false, expr_text(e)).0 == pts_of(e.terms@), rd_terms(bnf_fm(), false, expr_text(e)).1.len() == 0 {
    let z = Seq::<char>::empty();
    lemma_w_terms(e.terms@, 0, z, z);
    assert(expr_text(e) + z =~= expr_text(e));
    lemma_rd_terms(bnf_fm(), pts_of(e.terms@), 0, expr_text(e), z);
    assert(pts_of(e.terms@).skip(0) =~= pts_of(e.terms@));
    lemma_ext_terms(bnf_fm(), expr_text(e));
}
pub proof fn theorem_c09_production(p: Production) requires can_prod(p) ensures all_of(rd_prod0(bnf_fm(), false, prod_text(p))) == Some(pp_of(p)) {
    let z = Seq::<char>::empty(); let s = prod_text(p); let fm = bnf_fm();
    lemma_w_prod(p, z, z);
    assert(s + z =~= s);
    lemma_rd_prod(fm, pp_of(p), s, z);
    let t = (rd_lhs(fm, s)->0).1; let a = (rd_alts(fm, true, t)->0).0;
    assert forall|k: int| 0 <= k < a.len() implies plain(#[trigger] a[k]) by { assert(a[k] == pts_of(p.rhs@[k].terms@)); }
    lemma_ext_alts(fm, t);
}
