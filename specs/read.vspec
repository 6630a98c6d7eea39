// Reading grammar text (C09, C10): the layout, the tokens and the two reading paths.
//# include c08.vspec
//# include nomshim.vspec
//# module parsers
use crate::nom;
use crate::nom::IResult;
use crate::nomshim::*;
broadcast use {crate::nomshim::lemma_at, crate::nomshim::lemma_blen_zero, crate::lemma_ws, crate::lemma_eol, crate::lemma_word, crate::lemma_pts_push, crate::lemma_alts_push, crate::lemma_pps_push};
//# prelude
use crate::nomshim::*;
use crate::nom::IResult;
use vstd::utf8::*;
/// Text from the end of the line on.
pub open spec fn eol(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 || s[0] == '\r' || s[0] == '\n' { s } else { eol(s.drop_first()) } }
/// What is left after whitespace and comments.
pub open spec fn skip(s: Seq<char>) -> Seq<char> decreases s.len() via skip_dec {
    if s.len() == 0 { s } else if white(s[0]) { skip(s.drop_first()) } else if s[0] == ';' { skip(eol(s.drop_first())) } else { s }
}
#[via_fn]
proof fn skip_dec(s: Seq<char>) { if s.len() > 0 { lemma_eol_len(s.drop_first()); } }
pub proof fn lemma_eol_len(s: Seq<char>) ensures eol(s).len() <= s.len(), decreases s.len() { if s.len() > 0 { lemma_eol_len(s.drop_first()); } }
pub broadcast proof fn lemma_eol(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> #[trigger] s[j] != '\r' && s[j] != '\n', k < s.len() ==> s[k] == '\r' || s[k] == '\n',
    ensures #![trigger took(s, k), eol(s)] eol(s) == s.skip(k),
    decreases k,
{
    if k > 0 {
        let t = s.drop_first();
        assert(s[0] != '\r' && s[0] != '\n');
        assert forall|j: int| 0 <= j < k - 1 implies #[trigger] t[j] != '\r' && t[j] != '\n' by { assert(t[j] == s[j + 1]); }
        lemma_eol(t, k - 1);
        assert(t.skip(k - 1) =~= s.skip(k));
    } else { assert(s.skip(0) =~= s); }
}
pub broadcast proof fn lemma_ws(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> white(#[trigger] s[j]),
    ensures #![trigger took(s, k), skip(s)] skip(s) == skip(s.skip(k)),
    decreases k,
{
    if k > 0 {
        let t = s.drop_first();
        assert(white(s[0]));
        assert forall|j: int| 0 <= j < k - 1 implies white(#[trigger] t[j]) by { assert(t[j] == s[j + 1]); }
        lemma_ws(t, k - 1);
        assert(t.skip(k - 1) =~= s.skip(k));
    } else { assert(s.skip(0) =~= s); }
}
//# fn parsers::whitespace_plus_comments
@opt nom
@spec
ensures match r { Ok((q, _)) => q@ == skip($0@), Err(_) => false },
@start
let ghost s0 = $0@;
@loop 0
invariant skip($0@) == skip(s0),
decreases $0@.len(),
@loopstart 0
let ghost s = $0@;
proof { assert(s.skip(0) =~= s); assert forall|k: int| 0 <= k <= s.len() implies skip(#[trigger] s.skip(k)) == (if k == s.len() { s.skip(k) } else if white(s[k]) { skip(s.skip(k).drop_first()) } else if s[k] == ';' { skip(eol(s.skip(k).drop_first())) } else { s.skip(k) }) by {} reveal_strlit(""); assert forall|t: Seq<char>| t.len() == 0 implies #[trigger] skip(t) == ""@ by { assert(t =~= ""@); } assert forall|k: int| 0 < k <= s.len() implies encode_utf8(#[trigger] s.skip(k)).len() < encode_utf8(s).len() by { lemma_blen_skip(s, k); } }
//# prelude
// ---- notations ----
pub ghost struct Fm { pub delim: Option<(char, char)>, pub sep: Seq<char>, pub alt: char }
pub open spec fn bnf_fm() -> Fm { Fm { delim: Some(('<', '>')), sep: seq![':', ':', '='], alt: '|' } }
pub open spec fn abnf_fm() -> Fm { Fm { delim: None, sep: seq!['='], alt: '/' } }
pub trait FmtSpec { spec fn fm() -> Fm; proof fn fm_ok() ensures Self::fm() == bnf_fm() || Self::fm() == abnf_fm(); }
pub trait FmtDelim: FmtSpec { fn nonterminal_delimiter() -> (r: Option<(char, char)>) ensures r == Self::fm().delim; }
pub trait FmtSep: FmtSpec { fn production_separator() -> (r: &'static str) ensures r@ == Self::fm().sep; }
pub trait FmtAlt: FmtSpec { fn alternative_separator() -> (r: char) ensures r == Self::fm().alt; }
pub trait FmtStart: FmtSpec { fn production_start_char() -> (r: Option<char>) ensures r is Some ==> Self::fm().delim is Some && r->0 == (Self::fm().delim->0).0; }
pub trait Format: FmtDelim + FmtSep + FmtAlt + FmtStart {}
impl FmtSpec for crate::parsers::bnf::BNF { open spec fn fm() -> Fm { bnf_fm() } proof fn fm_ok() {} }
impl FmtSpec for crate::parsers::augmented::ABNF { open spec fn fm() -> Fm { abnf_fm() } proof fn fm_ok() {} }
impl Format for crate::parsers::bnf::BNF {}
impl Format for crate::parsers::augmented::ABNF {}
//# item parsers::bnf::BNF noeq noclone
//# item parsers::augmented::ABNF noeq noclone
//# fn parsers::bnf::BNF@Format::nonterminal_delimiter
@as crate::FmtDelim nonterminal_delimiter
//# fn parsers::bnf::BNF@Format::production_separator
@as crate::FmtSep production_separator
@start
proof { reveal_strlit("::="); assert("::="@ =~= seq![':', ':', '=']); }
//# fn parsers::bnf::BNF@Format::alternative_separator
@as crate::FmtAlt alternative_separator
//# fn parsers::bnf::BNF@Format::production_start_char
@as crate::FmtStart production_start_char
//# fn parsers::augmented::ABNF@Format::nonterminal_delimiter
@as crate::FmtDelim nonterminal_delimiter
//# fn parsers::augmented::ABNF@Format::production_separator
@as crate::FmtSep production_separator
@start
proof { reveal_strlit("="); assert("="@ =~= seq!['=']); }
//# fn parsers::augmented::ABNF@Format::alternative_separator
@as crate::FmtAlt alternative_separator
//# fn parsers::augmented::ABNF@Format::production_start_char
@as crate::FmtStart production_start_char
//# module parsers
pub use crate::Format;
pub use crate::parsers::bnf::BNF;
pub use crate::parsers::augmented::ABNF;
//# prelude
// ---- what text says ----
/// A term as written: quoted text, a name, a parenthesised group, a bracketed option.
pub ghost enum PT { Text(Seq<char>), Name(Seq<char>), Group(Seq<Seq<PT>>), Opt(Seq<Seq<PT>>) }
pub ghost struct PP { pub lhs: Seq<char>, pub rhs: Seq<Seq<PT>> }
/// Length of the unquoted name at the start of `s`.
pub open spec fn ends_word(c: char) -> bool { white(c) || c == ')' || c == ']' }
pub open spec fn word(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || ends_word(s[0]) { 0 } else { 1 + word(s.drop_first()) } }
pub broadcast proof fn lemma_word(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> !ends_word(#[trigger] s[j]), k < s.len() ==> ends_word(s[k]),
    ensures #![trigger took(s, k), word(s)] word(s) == k,
    decreases k,
{
    if k > 0 {
        let t = s.drop_first();
        assert(!ends_word(s[0]));
        assert forall|j: int| 0 <= j < k - 1 implies !ends_word(#[trigger] t[j]) by { assert(t[j] == s[j + 1]); }
        lemma_word(t, k - 1);
    }
}
/// Text between the opening character at the start of `s` and the next `b`.
pub open spec fn rd_until(s: Seq<char>, b: char) -> Option<(Seq<char>, Seq<char>)> {
    let t = s.drop_first(); let k = at(t, b);
    if 0 <= k < t.len() { Some((t.take(k), t.skip(k).drop_first())) } else { None }
}
pub open spec fn rd_name(fm: Fm, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if s.len() == 0 { None } else {
        match fm.delim {
            Some(d) => if s[0] == d.0 { rd_until(s, d.1) } else { None },
            None => if alphabetic(s[0]) { Some((s.take(word(s)), s.skip(word(s)))) } else { None },
        }
    }
}
pub open spec fn rd_text(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { if s.len() > 0 && (s[0] == '"' || s[0] == '\'') { rd_until(s, s[0]) } else { None } }
pub open spec fn rd_simple(fm: Fm, s: Seq<char>) -> Option<(PT, Seq<char>)> {
    match rd_text(s) { Some((t, q)) => Some((PT::Text(t), skip(q))), None => match rd_name(fm, s) { Some((n, q)) => Some((PT::Name(n), skip(q))), None => None } }
}
/// Text between brackets: the alternatives, and what follows the closing bracket.
pub open spec fn rd_in(fm: Fm, s: Seq<char>, close: char) -> Option<(Seq<Seq<PT>>, Seq<char>)> decreases s.len(), 0int {
    let t = skip(s.drop_first());
    if t.len() < s.len() { match rd_alts(fm, true, t) { Some((a, q)) => if q.len() > 0 && q[0] == close { Some((a, skip(q.drop_first()))) } else { None }, None => None } } else { None }
}
/// One term (`ext`: groups and optionals allowed).
pub open spec fn rd_term(fm: Fm, ext: bool, s: Seq<char>) -> Option<(PT, Seq<char>)> decreases s.len(), 1int {
    match rd_simple(fm, s) {
        Some(x) => Some(x),
        None => if ext && s.len() > 0 && s[0] == '(' { match rd_in(fm, s, ')') { Some((a, q)) => Some((PT::Group(a), q)), None => None } }
            else if ext && s.len() > 0 && s[0] == '[' { match rd_in(fm, s, ']') { Some((a, q)) => Some((PT::Opt(a), q)), None => None } }
            else { None },
    }
}
/// One term of an alternative: not the name that begins the next production.
pub open spec fn rd_one(fm: Fm, ext: bool, s: Seq<char>) -> Option<(PT, Seq<char>)> decreases s.len(), 2int {
    match rd_term(fm, ext, s) { Some((t, q)) => if starts(fm.sep, q) { None } else { Some((t, q)) }, None => None }
}
/// As many terms as there are.
pub open spec fn rd_terms(fm: Fm, ext: bool, s: Seq<char>) -> (Seq<PT>, Seq<char>) decreases s.len(), 3int {
    match rd_one(fm, ext, s) {
        Some((t, q)) => if q.len() < s.len() { (seq![t] + rd_terms(fm, ext, q).0, rd_terms(fm, ext, q).1) } else { (Seq::empty(), s) },
        None => (Seq::empty(), s),
    }
}
pub open spec fn rd_alts(fm: Fm, ext: bool, s: Seq<char>) -> Option<(Seq<Seq<PT>>, Seq<char>)> decreases s.len(), 4int {
    let (ts, q) = rd_terms(fm, ext, s);
    if ts.len() == 0 { None }
    else if q.len() > 0 && q[0] == fm.alt {
        let t = skip(q.drop_first());
        if t.len() < s.len() { match rd_alts(fm, ext, t) { Some((a, z)) => Some((seq![ts] + a, z)), None => None } } else { None }
    } else { Some((seq![ts], q)) }
}
/// The left hand side of a production with its separator.
pub open spec fn rd_lhs(fm: Fm, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match rd_name(fm, s) {
        None => None,
        Some((n, q)) => { let q = skip(q); if starts(fm.sep, q) { let z = q.skip(fm.sep.len() as int); Some((n, skip(if z.len() > 0 && z[0] == fm.alt { z.drop_first() } else { z }))) } else { None } }
    }
}
pub open spec fn rd_prod0(fm: Fm, ext: bool, s: Seq<char>) -> Option<(PP, Seq<char>)> {
    match rd_lhs(fm, s) { None => None, Some((n, q)) => match rd_alts(fm, ext, q) { None => None, Some((a, z)) => Some((PP { lhs: n, rhs: a }, z)) } }
}
/// A production goes on to the end of the text or to the next left hand side.
pub open spec fn rd_prod(fm: Fm, s: Seq<char>) -> Option<(PP, Seq<char>)> {
    match rd_prod0(fm, true, s) { Some((p, q)) => if q.len() == 0 || rd_lhs(fm, q) is Some { Some((p, q)) } else { None }, None => None }
}
pub open spec fn rd_prods(fm: Fm, s: Seq<char>) -> (Seq<PP>, Seq<char>) decreases s.len() {
    match rd_prod(fm, skip(s)) {
        Some((p, q)) => if q.len() < s.len() { (seq![p] + rd_prods(fm, q).0, rd_prods(fm, q).1) } else { (Seq::empty(), s) },
        None => (Seq::empty(), s),
    }
}
/// The grammar a text says, if it says one: productions to the very end.
pub open spec fn rd_grammar(fm: Fm, s: Seq<char>) -> Option<Seq<PP>> {
    let (ps, q) = rd_prods(fm, skip(s));
    if ps.len() > 0 && q.len() == 0 { Some(ps) } else { None }
}
// ---- results ----
pub open spec fn pt_of(t: Term) -> PT { match t { Term::Terminal(s) => PT::Text(s@), Term::Nonterminal(s) => PT::Name(s@) } }
pub open spec fn pts_of(v: Seq<Term>) -> Seq<PT> { v.map_values(|t: Term| pt_of(t)) }
pub broadcast proof fn lemma_pts_push(v: Seq<Term>, t: Term) ensures #[trigger] pts_of(v.push(t)) == pts_of(v).push(pt_of(t)) { assert(pts_of(v.push(t)) =~= pts_of(v).push(pt_of(t))); }
pub broadcast proof fn lemma_alts_push(v: Seq<Expression>, t: Expression) ensures #[trigger] alts_of(v.push(t)) == alts_of(v).push(pts_of(t.terms@)) { assert(alts_of(v.push(t)) =~= alts_of(v).push(pts_of(t.terms@))); }
pub open spec fn alts_of(v: Seq<Expression>) -> Seq<Seq<PT>> { v.map_values(|e: Expression| pts_of(e.terms@)) }
pub open spec fn err<X>(r: IResult<&str, X>) -> bool { r is Err && r->Err_0 is Error }
pub open spec fn res_term(r: IResult<&str, Term>, o: Option<(PT, Seq<char>)>) -> bool {
    match o { Some((t, q)) => r is Ok && (r->Ok_0).0@ == q && pt_of((r->Ok_0).1) == t, None => err(r) }
}
//# fn parsers::nonterminal
@opt nom
@spec
ensures res_term(r, match rd_name(F::fm(), $0@) { Some((n, q)) => Some((PT::Name(n), skip(q))), None => None }),
//# fn parsers::terminal
@opt nom
@opt strlits
@spec
ensures res_term(r, match rd_text($0@) { Some((n, q)) => Some((PT::Text(n), skip(q))), None => None }),
//# fn parsers::term
@opt nom
@spec
ensures res_term(r, rd_term(F::fm(), false, $0@)),
//# fn parsers::prod_lhs
@opt nom
@spec
ensures res_term(r, match rd_lhs(F::fm(), $0@) { Some((n, q)) => Some((PT::Name(n), q)), None => None }),
//# prelude
// ---- reading consumes ----
pub open spec fn suf(q: Seq<char>, s: Seq<char>) -> bool { q.len() <= s.len() && q == s.skip(s.len() - q.len()) }
pub proof fn suf_skip(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures suf(s.skip(k), s), s.skip(k).len() == s.len() - k {}
pub proof fn suf_refl(s: Seq<char>) ensures suf(s, s) { assert(s.skip(0) =~= s); }
pub proof fn suf_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires suf(a, b), suf(b, c) ensures suf(a, c) { assert(a =~= c.skip(c.len() - a.len())); }
pub proof fn suf_first(s: Seq<char>) requires s.len() > 0 ensures suf(s.drop_first(), s), s.drop_first().len() == s.len() - 1 { assert(s.drop_first() =~= s.skip(1)); }
pub proof fn suf_blen(q: Seq<char>, s: Seq<char>) requires suf(q, s) ensures q.len() < s.len() ==> encode_utf8(q).len() < encode_utf8(s).len() { lemma_blen_skip(s, s.len() - q.len()); }
pub proof fn lemma_eol_suf(s: Seq<char>) ensures suf(eol(s), s) decreases s.len() { suf_refl(s); if s.len() > 0 { lemma_eol_suf(s.drop_first()); suf_first(s); if eol(s) != s { suf_trans(eol(s), s.drop_first(), s); } } }
pub proof fn lemma_skip_suf(s: Seq<char>)
    ensures suf(skip(s), s), skip(skip(s)) == skip(s), skip(s).len() > 0 ==> !white(skip(s)[0]) && skip(s)[0] != ';',
    decreases s.len(),
{
    suf_refl(s);
    if s.len() > 0 {
        let t = s.drop_first();
        suf_first(s); lemma_eol_suf(t);
        if white(s[0]) { lemma_skip_suf(t); suf_trans(skip(t), t, s); }
        else if s[0] == ';' { lemma_skip_suf(eol(t)); suf_trans(eol(t), t, s); suf_trans(skip(eol(t)), eol(t), s); }
    }
}
pub proof fn lemma_word_is(s: Seq<char>)
    ensures 0 <= word(s) <= s.len(), word(s) < s.len() ==> ends_word(s[word(s)]), forall|j: int| 0 <= j < word(s) ==> !ends_word(#[trigger] s[j]),
    decreases s.len(),
{ if s.len() > 0 && !ends_word(s[0]) { let t = s.drop_first(); lemma_word_is(t); assert forall|j: int| 0 <= j < word(s) implies !ends_word(#[trigger] s[j]) by { if j > 0 { assert(s[j] == t[j - 1]); } } assert(word(s) < s.len() ==> s[word(s)] == t[word(t)]); } }
pub proof fn lemma_until_suf(s: Seq<char>, b: char)
    requires s.len() > 0, rd_until(s, b) is Some,
    ensures suf((rd_until(s, b)->0).1, s), (rd_until(s, b)->0).1.len() < s.len(),
{ let t = s.drop_first(); let k = at(t, b); suf_first(s); suf_skip(t, k); suf_first(t.skip(k)); suf_trans(t.skip(k), t, s); suf_trans(t.skip(k).drop_first(), t.skip(k), s); }
pub proof fn lemma_name_suf(fm: Fm, s: Seq<char>)
    ensures match rd_name(fm, s) { Some((n, q)) => suf(q, s) && q.len() < s.len(), None => true },
{
    if rd_name(fm, s) is Some {
        match fm.delim { Some(d) => { lemma_until_suf(s, d.1); } None => { axiom_alphabetic(s[0]); lemma_word_is(s); suf_skip(s, word(s)); } }
    }
}
pub proof fn lemma_simple_suf(fm: Fm, s: Seq<char>)
    ensures match rd_simple(fm, s) { Some((n, q)) => suf(q, s) && q.len() < s.len() && skip(q) == q, None => true },
{
    lemma_name_suf(fm, s);
    match rd_text(s) {
        Some((n, q)) => { lemma_until_suf(s, s[0]); lemma_skip_suf(q); suf_trans(skip(q), q, s); }
        None => { if rd_name(fm, s) is Some { let q = (rd_name(fm, s)->0).1; lemma_skip_suf(q); suf_trans(skip(q), q, s); } }
    }
}
pub proof fn lemma_in_suf(fm: Fm, s: Seq<char>, close: char)
    requires s.len() > 0,
    ensures skip(s.drop_first()).len() < s.len(), match rd_in(fm, s, close) { Some((n, q)) => suf(q, s) && q.len() < s.len() && skip(q) == q, None => true },
    decreases s.len(), 0int,
{
    suf_first(s); lemma_skip_suf(s.drop_first());
    let t = skip(s.drop_first());
    suf_trans(t, s.drop_first(), s);
    lemma_alts_suf(fm, true, t);
    if rd_in(fm, s, close) is Some { let q = (rd_alts(fm, true, t)->0).1; suf_trans(q, t, s); suf_first(q); suf_trans(q.drop_first(), q, s); lemma_skip_suf(q.drop_first()); suf_trans(skip(q.drop_first()), q.drop_first(), s); }
}
pub proof fn lemma_term_suf(fm: Fm, ext: bool, s: Seq<char>)
    ensures match rd_term(fm, ext, s) { Some((n, q)) => suf(q, s) && q.len() < s.len() && skip(q) == q, None => true },
    decreases s.len(), 1int,
{
    lemma_simple_suf(fm, s);
    if rd_simple(fm, s) is None && ext && s.len() > 0 && s[0] == '(' { lemma_in_suf(fm, s, ')'); }
    else if rd_simple(fm, s) is None && ext && s.len() > 0 && s[0] == '[' { lemma_in_suf(fm, s, ']'); }
}
pub proof fn lemma_terms_suf(fm: Fm, ext: bool, s: Seq<char>)
    ensures suf(rd_terms(fm, ext, s).1, s), rd_terms(fm, ext, s).0.len() > 0 ==> rd_terms(fm, ext, s).1.len() < s.len() && skip(rd_terms(fm, ext, s).1) == rd_terms(fm, ext, s).1,
        rd_one(fm, ext, rd_terms(fm, ext, s).1) is None,
    decreases s.len(), 3int,
{
    suf_refl(s);
    lemma_term_suf(fm, ext, s);
    if rd_one(fm, ext, s) is Some { let q = (rd_one(fm, ext, s)->0).1; lemma_terms_suf(fm, ext, q); suf_trans(rd_terms(fm, ext, q).1, q, s); }
}
pub proof fn lemma_alts_suf(fm: Fm, ext: bool, s: Seq<char>)
    ensures match rd_alts(fm, ext, s) { Some((a, q)) => suf(q, s) && q.len() < s.len() && skip(q) == q && a.len() > 0, None => true },
    decreases s.len(), 4int,
{
    lemma_terms_suf(fm, ext, s);
    let (ts, q) = rd_terms(fm, ext, s);
    if q.len() > 0 && q[0] == fm.alt {
        let t = skip(q.drop_first());
        suf_first(q); lemma_skip_suf(q.drop_first()); suf_trans(t, q.drop_first(), q); suf_trans(t, q, s);
        if t.len() < s.len() { lemma_alts_suf(fm, ext, t); if rd_alts(fm, ext, t) is Some { suf_trans((rd_alts(fm, ext, t)->0).1, t, s); } }
    }
}
pub proof fn lemma_lhs_suf(fm: Fm, s: Seq<char>)
    ensures match rd_lhs(fm, s) { Some((n, q)) => suf(q, s) && q.len() < s.len() && skip(q) == q, None => true },
{
    lemma_name_suf(fm, s);
    if rd_lhs(fm, s) is Some {
        let q = (rd_name(fm, s)->0).1; lemma_skip_suf(q); let q2 = skip(q); suf_trans(q2, q, s);
        let z = q2.skip(fm.sep.len() as int); suf_skip(q2, fm.sep.len() as int); suf_trans(z, q2, s);
        if z.len() > 0 { suf_first(z); suf_trans(z.drop_first(), z, s); lemma_skip_suf(z.drop_first()); suf_trans(skip(z.drop_first()), z.drop_first(), s); }
        lemma_skip_suf(z); suf_trans(skip(z), z, s);
    }
}
//# prelude
// ---- the direct path ----
pub open spec fn rd_next(fm: Fm, s: Seq<char>) -> Option<Seq<char>> { if s.len() > 0 && s[0] == fm.alt { Some(skip(s.drop_first())) } else { None } }
pub open spec fn res_next(r: IResult<&str, &str>, o: Option<Seq<char>>) -> bool { match o { Some(q) => r is Ok && (r->Ok_0).0@ == q, None => err(r) } }
pub open spec fn res_expr(r: IResult<&str, Expression>, o: (Seq<PT>, Seq<char>)) -> bool {
    if o.0.len() == 0 { err(r) } else { r is Ok && (r->Ok_0).0@ == o.1 && pts_of((r->Ok_0).1.terms@) == o.0 }
}
pub open spec fn res_alts(r: IResult<&str, Vec<Expression>>, o: Option<(Seq<Seq<PT>>, Seq<char>)>) -> bool {
    match o { None => err(r), Some((a, q)) => r is Ok && (r->Ok_0).0@ == q && alts_of((r->Ok_0).1@) == a }
}
pub open spec fn fold_terms(fm: Fm, ext: bool, s0: Seq<char>, acc: Seq<PT>, s: Seq<char>) -> bool {
    rd_terms(fm, ext, s0) == (acc + rd_terms(fm, ext, s).0, rd_terms(fm, ext, s).1)
}
pub proof fn lemma_fold_terms(fm: Fm, ext: bool, s0: Seq<char>, acc: Seq<PT>, s: Seq<char>)
    requires fold_terms(fm, ext, s0, acc, s),
    ensures match rd_one(fm, ext, s) { Some((t, q)) => fold_terms(fm, ext, s0, acc.push(t), q) && suf(q, s) && q.len() < s.len() && encode_utf8(q).len() < encode_utf8(s).len(), None => rd_terms(fm, ext, s0) == (acc, s) },
{
    lemma_term_suf(fm, ext, s);
    match rd_one(fm, ext, s) {
        Some((t, q)) => { suf_blen(q, s); assert(acc.push(t) + rd_terms(fm, ext, q).0 =~= acc + (seq![t] + rd_terms(fm, ext, q).0)); }
        None => { assert(acc + Seq::<PT>::empty() =~= acc); }
    }
}
pub proof fn lemma_fold_start(fm: Fm, ext: bool, s: Seq<char>) ensures fold_terms(fm, ext, s, Seq::empty(), s) { assert(Seq::<PT>::empty() + rd_terms(fm, ext, s).0 =~= rd_terms(fm, ext, s).0); }
//# fn parsers::expression_next
@opt nom
@spec
ensures res_next(r, rd_next(F::fm(), $0@)),
//# fn parsers::expression
@attr #[verifier::allow_complex_invariants]
@opt nom
@spec
ensures res_expr(r, rd_terms(F::fm(), false, $0@)),
@start
let ghost s0 = $0@;
proof { lemma_fold_start(F::fm(), false, s0); lemma_fold_terms(F::fm(), false, s0, Seq::empty(), s0); assert(pts_of(Seq::<Term>::empty()) =~= Seq::<PT>::empty()); }
@loop 0
invariant_except_break __acc0@.len() > 0, fold_terms(F::fm(), false, s0, pts_of(__acc0@), __cur0@), __bad0 is None,
ensures __bad0 is None, __acc0@.len() > 0, rd_terms(F::fm(), false, s0) == (pts_of(__acc0@), __cur0@),
decreases __cur0@.len(),
@loopstart 0
proof { lemma_fold_terms(F::fm(), false, s0, pts_of(__acc0@), __cur0@); }
//# prelude
pub open spec fn fold_alts(fm: Fm, ext: bool, s0: Seq<char>, acc: Seq<Seq<PT>>, s: Seq<char>) -> bool {
    rd_alts(fm, ext, s0) == match rd_alts(fm, ext, s) { Some((a, z)) => Some((acc + a, z)), None => None }
}
pub proof fn lemma_falts_start(fm: Fm, ext: bool, s: Seq<char>) ensures fold_alts(fm, ext, s, Seq::empty(), s) { if let Some((a, z)) = rd_alts(fm, ext, s) { assert(Seq::<Seq<PT>>::empty() + a =~= a); } }
pub proof fn lemma_falts(fm: Fm, ext: bool, s0: Seq<char>, acc: Seq<Seq<PT>>, s: Seq<char>)
    requires fold_alts(fm, ext, s0, acc, s),
    ensures ({ let (ts, q) = rd_terms(fm, ext, s);
        if ts.len() == 0 { rd_alts(fm, ext, s0) is None } else {
            match rd_next(fm, q) { Some(t) => fold_alts(fm, ext, s0, acc.push(ts), t) && suf(t, s) && t.len() < s.len(), None => rd_alts(fm, ext, s0) == Some((acc.push(ts), q)) } } }),
{
    let (ts, q) = rd_terms(fm, ext, s);
    lemma_terms_suf(fm, ext, s);
    if ts.len() > 0 {
        match rd_next(fm, q) {
            Some(t) => {
                suf_first(q); lemma_skip_suf(q.drop_first()); suf_trans(t, q.drop_first(), q); suf_trans(t, q, s);
                if let Some((a, z)) = rd_alts(fm, ext, t) { assert(acc + (seq![ts] + a) =~= acc.push(ts) + a); }
            }
            None => { assert(acc + seq![ts] =~= acc.push(ts)); }
        }
    }
}
//# fn parsers::nom_xt::xt_list_with_separator
@special expression expression_next
@muts input acc
@attr #[verifier::allow_complex_invariants]
@opt nom
@spec
ensures res_alts(r, rd_alts(F::fm(), false, $0@)),
@start
let ghost s0 = $0@;
proof { lemma_falts_start(F::fm(), false, s0); assert(alts_of(Seq::<Expression>::empty()) =~= Seq::<Seq<PT>>::empty()); }
@loop 0
invariant_except_break fold_alts(F::fm(), false, s0, alts_of($m1@), $m0@),
ensures rd_alts(F::fm(), false, s0) == Some((alts_of($m1@), $m0@)),
decreases $m0@.len(),
@loopstart 0
proof { lemma_falts(F::fm(), false, s0, alts_of($m1@), $m0@); }
//# fn parsers::prod_rhs
@opt nom
@spec
ensures res_alts(r, rd_alts(F::fm(), false, $0@)),
//# prelude
pub open spec fn name_of(t: Term) -> Seq<char> { match t { Term::Nonterminal(n) => n@, Term::Terminal(n) => n@ } }
pub open spec fn pp_of(p: Production) -> PP { PP { lhs: name_of(p.lhs), rhs: alts_of(p.rhs@) } }
pub open spec fn pps_of(v: Seq<Production>) -> Seq<PP> { v.map_values(|p: Production| pp_of(p)) }
pub broadcast proof fn lemma_pps_push(v: Seq<Production>, t: Production) ensures #[trigger] pps_of(v.push(t)) == pps_of(v).push(pp_of(t)) { assert(pps_of(v.push(t)) =~= pps_of(v).push(pp_of(t))); }
pub open spec fn all_names(v: Seq<Production>) -> bool { forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).lhs is Nonterminal }
pub open spec fn no_bracket(q: Seq<char>) -> bool { q.len() == 0 || (q[0] != '(' && q[0] != '[') }
pub open spec fn direct(fm: Fm, s: Seq<char>, p: PP, q: Seq<char>) -> bool { rd_prod0(fm, false, s) == Some((p, q)) && no_bracket(q) }
/// The direct path and the general one agree on text that goes on without a bracket.
pub proof fn lemma_plain_terms(fm: Fm, s: Seq<char>)
    requires no_bracket(rd_terms(fm, false, s).1), ensures rd_terms(fm, true, s) == rd_terms(fm, false, s), decreases s.len(),
{
    lemma_term_suf(fm, false, s);
    if let Some((t, q)) = rd_one(fm, false, s) { lemma_plain_terms(fm, q); assert(rd_one(fm, true, s) == rd_one(fm, false, s)); }
    else if rd_simple(fm, s) is Some { assert(rd_one(fm, true, s) == rd_one(fm, false, s)); }
}
pub proof fn lemma_plain_alts(fm: Fm, s: Seq<char>)
    requires rd_alts(fm, false, s) is Some, no_bracket((rd_alts(fm, false, s)->0).1), fm.alt != '(' && fm.alt != '[',
    ensures rd_alts(fm, true, s) == rd_alts(fm, false, s),
    decreases s.len(),
{
    let (ts, q) = rd_terms(fm, false, s);
    lemma_terms_suf(fm, false, s);
    lemma_plain_terms(fm, s);
    if q.len() > 0 && q[0] == fm.alt { let t = skip(q.drop_first()); if t.len() < s.len() { lemma_plain_alts(fm, t); } }
}
pub proof fn lemma_plain_prod(fm: Fm, s: Seq<char>, p: PP, q: Seq<char>)
    requires direct(fm, s, p, q), fm.alt != '(' && fm.alt != '[', q.len() == 0 || rd_lhs(fm, q) is Some,
    ensures rd_prod(fm, s) == Some((p, q)), q.len() < s.len(), skip(q) == q,
{
    lemma_lhs_suf(fm, s);
    let t = (rd_lhs(fm, s)->0).1;
    lemma_alts_suf(fm, false, t);
    lemma_plain_alts(fm, t);
}
pub proof fn lemma_direct_suf(fm: Fm, s: Seq<char>, p: PP, q: Seq<char>) requires direct(fm, s, p, q) ensures suf(q, s), q.len() < s.len(), skip(q) == q {
    lemma_lhs_suf(fm, s); let t = (rd_lhs(fm, s)->0).1; lemma_alts_suf(fm, false, t); suf_trans(q, t, s);
}
/// Productions read one after the other.
pub open spec fn chain(fm: Fm, s: Seq<char>, ps: Seq<PP>, q: Seq<char>) -> bool decreases ps.len() {
    if ps.len() == 0 { q == s } else { exists|m: Seq<char>| chain(fm, s, ps.drop_last(), m) && #[trigger] link(fm, m, ps.last(), q) }
}
pub open spec fn link(fm: Fm, m: Seq<char>, p: PP, q: Seq<char>) -> bool { direct(fm, skip(m), p, q) }
pub proof fn lemma_chain_push(fm: Fm, s: Seq<char>, ps: Seq<PP>, m: Seq<char>, p: PP, q: Seq<char>)
    requires chain(fm, s, ps, m), direct(fm, skip(m), p, q), ensures chain(fm, s, ps.push(p), q),
{ assert(ps.push(p).drop_last() =~= ps); assert(link(fm, m, ps.push(p).last(), q)); }
pub proof fn lemma_chain(fm: Fm, s: Seq<char>, ps: Seq<PP>, m: Seq<char>)
    requires chain(fm, s, ps, m), ps.len() > 0 ==> m.len() == 0 || rd_lhs(fm, m) is Some, fm.alt != '(' && fm.alt != '[',
    ensures rd_prods(fm, s) == (ps + rd_prods(fm, m).0, rd_prods(fm, m).1),
    decreases ps.len(),
{
    if ps.len() == 0 { assert(ps + rd_prods(fm, m).0 =~= rd_prods(fm, m).0); }
    else {
        let m1 = choose|m1: Seq<char>| chain(fm, s, ps.drop_last(), m1) && #[trigger] link(fm, m1, ps.last(), m);
        lemma_plain_prod(fm, skip(m1), ps.last(), m);
        lemma_skip_suf(m1);
        if ps.drop_last().len() > 0 {
            let m0 = choose|m0: Seq<char>| chain(fm, s, ps.drop_last().drop_last(), m0) && #[trigger] link(fm, m0, ps.drop_last().last(), m1);
            lemma_direct_suf(fm, skip(m0), ps.drop_last().last(), m1);
        }
        lemma_chain(fm, s, ps.drop_last(), m1);
        assert(ps.drop_last() + (seq![ps.last()] + rd_prods(fm, m).0) =~= ps + rd_prods(fm, m).0);
    }
}
pub proof fn lemma_chain_end(fm: Fm, s: Seq<char>, ps: Seq<PP>, m: Seq<char>)
    requires chain(fm, skip(s), ps, m), ps.len() > 0, m.len() == 0, fm == bnf_fm() || fm == abnf_fm(), ensures rd_grammar(fm, s) == Some(ps),
{
    lemma_chain(fm, skip(s), ps, m);
    lemma_skip_suf(m);
    assert(rd_prod(fm, skip(m)) is None);
    assert(ps + Seq::<PP>::empty() =~= ps);
}
pub proof fn lemma_plain_end(fm: Fm, s: Seq<char>, p1: PP, r: IResult<&str, Grammar>)
    requires fm == bnf_fm() || fm == abnf_fm(), r is Ok ==> (r->Ok_0).1.productions@.len() > 0 && pp_of((r->Ok_0).1.productions@[0]) == p1 && chain(fm, skip(s), seq![p1] + pps_of((r->Ok_0).1.productions@.skip(1)), (r->Ok_0).0@),
    ensures r is Ok && (r->Ok_0).0@.len() == 0 ==> rd_grammar(fm, s) == Some(pps_of((r->Ok_0).1.productions@)),
{
    if r is Ok && (r->Ok_0).0@.len() == 0 {
        let ps = (r->Ok_0).1.productions@;
        assert(pps_of(ps) =~= seq![p1] + pps_of(ps.skip(1)));
        lemma_chain_end(fm, s, pps_of(ps), (r->Ok_0).0@);
    }
}
//# fn parsers::production
@opt nom
@spec
ensures match r { Ok((q, p)) => p.lhs is Nonterminal && direct(F::fm(), $0@, pp_of(p), q@) && q@.len() < $0@.len() && encode_utf8(q@).len() < encode_utf8($0@).len(), Err(e) => e is Error },
    rd_prod0(F::fm(), false, $0@) is Some && (rd_prod0(F::fm(), false, $0@)->0).1.len() == 0 ==> r is Ok,
@start
let ghost s0 = $0@;
proof {
    F::fm_ok();
    if let Some((p, q)) = rd_prod0(F::fm(), false, s0) {
        lemma_lhs_suf(F::fm(), s0); let t = (rd_lhs(F::fm(), s0)->0).1; lemma_alts_suf(F::fm(), false, t); suf_trans(q, t, s0); suf_blen(q, s0);
        if q.len() > 0 { axiom_alphabetic(q[0]); }
    }
}
//# fn parsers::plain_grammar
@opt nom
@attr #[verifier::allow_complex_invariants]
@spec
ensures match r { Ok((q, g)) => all_names(g.productions@) && (q@.len() == 0 ==> rd_grammar(F::fm(), $0@) == Some(pps_of(g.productions@))), Err(e) => e is Error },
@start
let ghost s0 = $0@;
proof { lemma_skip_suf(s0); assert forall|p: PP, q: Seq<char>| #[trigger] direct(F::fm(), skip(s0), p, q) implies chain(F::fm(), skip(s0), seq![p], q) by { lemma_chain_push(F::fm(), skip(s0), Seq::empty(), skip(s0), p, q); assert(Seq::<PP>::empty().push(p) =~= seq![p]); } }
@after production 0
let ghost p1 = pp_of($p1);
proof {
    let m = $p0@;
    lemma_skip_suf(m);
    assert forall|p: PP, q: Seq<char>| #[trigger] direct(F::fm(), skip(m), p, q) implies chain(F::fm(), skip(s0), seq![p1].push(p), q) by { lemma_chain_push(F::fm(), skip(s0), seq![p1], m, p, q); }
    assert forall|p: PP| #[trigger] (seq![p1] + Seq::<PP>::empty().push(p)) == seq![p1].push(p) by { assert(seq![p1] + Seq::<PP>::empty().push(p) =~= seq![p1].push(p)); }
    assert(pps_of(Seq::<Production>::empty()) =~= Seq::<PP>::empty());
}
@loop 0
invariant_except_break __acc0@.len() > 0, all_names(__acc0@), chain(F::fm(), skip(s0), seq![p1] + pps_of(__acc0@), __cur0@), __bad0 is None,
ensures __bad0 is None, all_names(__acc0@), chain(F::fm(), skip(s0), seq![p1] + pps_of(__acc0@), __cur0@),
decreases __cur0@.len(),
@loopstart 0
proof {
    let m = __cur0@; let ps = seq![p1] + pps_of(__acc0@);
    lemma_skip_suf(m); suf_blen(skip(m), m);
    assert forall|p: PP, q: Seq<char>| #[trigger] direct(F::fm(), skip(m), p, q) implies chain(F::fm(), skip(s0), ps.push(p), q) by { lemma_chain_push(F::fm(), skip(s0), ps, m, p, q); }
    assert forall|p: PP| #[trigger] (seq![p1] + pps_of(__acc0@).push(p)) == ps.push(p) by { assert(seq![p1] + pps_of(__acc0@).push(p) =~= ps.push(p)); }
}
@end
proof { F::fm_ok(); lemma_plain_end(F::fm(), s0, p1, __tail); }
//# prelude
// ---- the general path ----
/// A parsed term as it is written.
pub open spec fn abs_term(t: ParsedTerm) -> PT decreases t, 0int {
    match t { ParsedTerm::Simple(x) => pt_of(x), ParsedTerm::Group(es) => PT::Group(abs_exprs(es)), ParsedTerm::Optional(es) => PT::Opt(abs_exprs(es)) }
}
pub open spec fn abs_exprs(es: Vec<ParsedExpression>) -> Seq<Seq<PT>> decreases es, 0int { Seq::new(es@.len(), |k: int| if 0 <= k < es@.len() { abs_expr(es[k]) } else { arbitrary() }) }
pub open spec fn abs_expr(e: ParsedExpression) -> Seq<PT> decreases e, 0int { match e { ParsedExpression::Terms(ts) => abs_terms(ts) } }
pub open spec fn abs_terms(ts: Vec<ParsedTerm>) -> Seq<PT> decreases ts, 0int { Seq::new(ts@.len(), |k: int| if 0 <= k < ts@.len() { abs_term(ts[k]) } else { arbitrary() }) }
pub open spec fn apts(ts: Seq<ParsedTerm>) -> Seq<PT> { ts.map_values(|t: ParsedTerm| abs_term(t)) }
pub open spec fn aalts(es: Seq<ParsedExpression>) -> Seq<Seq<PT>> { es.map_values(|e: ParsedExpression| abs_expr(e)) }
pub open spec fn aprod(p: ParsedProduction) -> PP { PP { lhs: prod_lhs_of(p), rhs: aalts(prod_rhs_of(p)@) } }
pub open spec fn aprods(ps: Seq<ParsedProduction>) -> Seq<PP> { ps.map_values(|p: ParsedProduction| aprod(p)) }
pub broadcast proof fn lemma_abs_terms(ts: Vec<ParsedTerm>) ensures #[trigger] abs_expr(ParsedExpression::Terms(ts)) == apts(ts@) { assert(abs_terms(ts) =~= apts(ts@)); assert(abs_expr(ParsedExpression::Terms(ts)) == abs_terms(ts)); }
pub proof fn lemma_abs_es(es: Vec<ParsedExpression>) ensures abs_exprs(es) == aalts(es@) { assert(abs_exprs(es) =~= aalts(es@)); }
pub broadcast proof fn lemma_abs_group(es: Vec<ParsedExpression>) ensures #[trigger] abs_term(ParsedTerm::Group(es)) == PT::Group(aalts(es@)) { lemma_abs_es(es); assert(abs_term(ParsedTerm::Group(es)) == PT::Group(abs_exprs(es))); }
pub broadcast proof fn lemma_abs_opt(es: Vec<ParsedExpression>) ensures #[trigger] abs_term(ParsedTerm::Optional(es)) == PT::Opt(aalts(es@)) { lemma_abs_es(es); assert(abs_term(ParsedTerm::Optional(es)) == PT::Opt(abs_exprs(es))); }
pub broadcast proof fn lemma_apts_push(v: Seq<ParsedTerm>, t: ParsedTerm) ensures #[trigger] apts(v.push(t)) == apts(v).push(abs_term(t)) { assert(apts(v.push(t)) =~= apts(v).push(abs_term(t))); }
pub broadcast proof fn lemma_aalts_push(v: Seq<ParsedExpression>, t: ParsedExpression) ensures #[trigger] aalts(v.push(t)) == aalts(v).push(abs_expr(t)) { assert(aalts(v.push(t)) =~= aalts(v).push(abs_expr(t))); }
pub broadcast proof fn lemma_aprods_push(v: Seq<ParsedProduction>, t: ParsedProduction) ensures #[trigger] aprods(v.push(t)) == aprods(v).push(aprod(t)) { assert(aprods(v.push(t)) =~= aprods(v).push(aprod(t))); }
pub open spec fn res_pt(r: IResult<&str, ParsedTerm>, o: Option<(PT, Seq<char>)>) -> bool {
    match o { Some((t, q)) => r is Ok && (r->Ok_0).0@ == q && abs_term((r->Ok_0).1) == t, None => err(r) }
}
pub open spec fn res_pexpr(r: IResult<&str, ParsedExpression>, o: (Seq<PT>, Seq<char>)) -> bool {
    if o.0.len() == 0 { err(r) } else { r is Ok && (r->Ok_0).0@ == o.1 && abs_expr((r->Ok_0).1) == o.0 }
}
pub open spec fn res_palts(r: IResult<&str, Vec<ParsedExpression>>, o: Option<(Seq<Seq<PT>>, Seq<char>)>) -> bool {
    match o { None => err(r), Some((a, q)) => r is Ok && (r->Ok_0).0@ == q && aalts((r->Ok_0).1@) == a }
}
//# module parsers
broadcast use {crate::lemma_abs_terms, crate::lemma_abs_group, crate::lemma_abs_opt, crate::lemma_apts_push, crate::lemma_aalts_push, crate::lemma_aprods_push};
//# fn parsers::parsed_nonterminal
@opt nom
@spec
ensures res_pt(r, match rd_name(F::fm(), $0@) { Some((n, q)) => Some((PT::Name(n), skip(q))), None => None }),
//# fn parsers::parsed_terminal
@opt nom
@opt strlits
@spec
ensures res_pt(r, match rd_text($0@) { Some((n, q)) => Some((PT::Text(n), skip(q))), None => None }),
//# fn parsers::parsed_expression_next
@opt nom
@spec
ensures res_next(r, rd_next(F::fm(), $0@)),
//# fn parsers::parsed_anonymous_group
@opt nom
@spec
ensures res_pt(r, if $0@.len() > 0 && $0@[0] == '(' { match rd_in(F::fm(), $0@, ')') { Some((a, q)) => Some((PT::Group(a), q)), None => None } } else { None }),
decreases $0@.len(), 0int,
@start
proof { if $0@.len() > 0 { lemma_in_suf(F::fm(), $0@, ')'); } }
//# fn parsers::parsed_optional_group
@opt nom
@spec
ensures res_pt(r, if $0@.len() > 0 && $0@[0] == '[' { match rd_in(F::fm(), $0@, ']') { Some((a, q)) => Some((PT::Opt(a), q)), None => None } } else { None }),
decreases $0@.len(), 0int,
@start
proof { if $0@.len() > 0 { lemma_in_suf(F::fm(), $0@, ']'); } }
//# fn parsers::parsed_term
@opt nom
@spec
ensures res_pt(r, rd_term(F::fm(), true, $0@)),
decreases $0@.len(), 1int,
//# fn parsers::parsed_expression
@attr #[verifier::allow_complex_invariants]
@opt nom
@spec
ensures res_pexpr(r, rd_terms(F::fm(), true, $0@)),
decreases $0@.len(), 3int,
@start
let ghost s0 = $0@;
proof { lemma_fold_start(F::fm(), true, s0); lemma_fold_terms(F::fm(), true, s0, Seq::empty(), s0); assert(apts(Seq::<ParsedTerm>::empty()) =~= Seq::<PT>::empty()); }
@loop 0
invariant_except_break __acc0@.len() > 0, __cur0@.len() < s0.len(), fold_terms(F::fm(), true, s0, apts(__acc0@), __cur0@), __bad0 is None,
ensures __bad0 is None, __acc0@.len() > 0, rd_terms(F::fm(), true, s0) == (apts(__acc0@), __cur0@),
decreases __cur0@.len(),
@loopstart 0
proof { lemma_fold_terms(F::fm(), true, s0, apts(__acc0@), __cur0@); }
//# fn parsers::nom_xt::xt_list_with_separator
@special parsed_expression parsed_expression_next
@muts input acc
@attr #[verifier::allow_complex_invariants]
@opt nom
@spec
ensures res_palts(r, rd_alts(F::fm(), true, $0@)),
decreases $0@.len(), 4int,
@start
let ghost s0 = $0@;
proof { lemma_falts_start(F::fm(), true, s0); assert(aalts(Seq::<ParsedExpression>::empty()) =~= Seq::<Seq<PT>>::empty()); }
@loop 0
invariant_except_break fold_alts(F::fm(), true, s0, aalts($m1@), $m0@), $m0@.len() <= s0.len(),
ensures rd_alts(F::fm(), true, s0) == Some((aalts($m1@), $m0@)),
decreases $m0@.len(),
@loopstart 0
proof { lemma_falts(F::fm(), true, s0, aalts($m1@), $m0@); }
//# fn parsers::parsed_prod_lhs
@opt nom
@spec
ensures match rd_lhs(F::fm(), $0@) { Some((n, q)) => r is Ok && (r->Ok_0).0@ == q && (r->Ok_0).1@ == n, None => err(r) },
//# fn parsers::parsed_prod_rhs
@opt nom
@spec
ensures res_palts(r, rd_alts(F::fm(), true, $0@)),
//# prelude
pub proof fn lemma_prod_suf(fm: Fm, s: Seq<char>)
    ensures match rd_prod(fm, s) { Some((p, q)) => suf(q, s) && q.len() < s.len() && skip(q) == q, None => true },
{
    lemma_lhs_suf(fm, s);
    if let Some((n, t)) = rd_lhs(fm, s) { lemma_alts_suf(fm, true, t); if let Some((a, z)) = rd_alts(fm, true, t) { suf_trans(z, t, s); } }
}
pub open spec fn fold_prods(fm: Fm, s0: Seq<char>, acc: Seq<PP>, s: Seq<char>) -> bool { rd_prods(fm, s0) == (acc + rd_prods(fm, s).0, rd_prods(fm, s).1) }
pub proof fn lemma_fprods_start(fm: Fm, s: Seq<char>) ensures fold_prods(fm, s, Seq::empty(), s) { assert(Seq::<PP>::empty() + rd_prods(fm, s).0 =~= rd_prods(fm, s).0); }
pub proof fn lemma_fprods(fm: Fm, s0: Seq<char>, acc: Seq<PP>, s: Seq<char>)
    requires fold_prods(fm, s0, acc, s),
    ensures match rd_prod(fm, skip(s)) { Some((p, q)) => fold_prods(fm, s0, acc.push(p), q) && q.len() < s.len() && encode_utf8(q).len() < encode_utf8(s).len(), None => rd_prods(fm, s0) == (acc, s) },
{
    hide(rd_prod); hide(skip);
    lemma_skip_suf(s); lemma_prod_suf(fm, skip(s));
    match rd_prod(fm, skip(s)) {
        Some((p, q)) => { suf_trans(q, skip(s), s); suf_blen(q, s); assert(acc.push(p) + rd_prods(fm, q).0 =~= acc + (seq![p] + rd_prods(fm, q).0)); }
        None => { assert(acc + Seq::<PP>::empty() =~= acc); }
    }
}
//# fn parsers::parsed_production
@opt nom
@spec
ensures match rd_prod(F::fm(), $0@) { Some((p, q)) => r is Ok && (r->Ok_0).0@ == q && aprod((r->Ok_0).1) == p, None => err(r) },
//# fn parsers::ParsedGrammar::new
@spec
ensures r.productions == $0,
//# fn parsers::parsed_grammar
@attr #[verifier::allow_complex_invariants]
@opt nom
@spec
ensures ({ let (ps, q) = rd_prods(F::fm(), skip($0@)); if ps.len() == 0 { err(r) } else { r is Ok && (r->Ok_0).0@ == q && aprods((r->Ok_0).1.productions@) == ps } }),
@start
let ghost s0 = skip($0@);
proof { lemma_fprods_start(F::fm(), s0); lemma_fprods(F::fm(), s0, Seq::empty(), s0); assert(aprods(Seq::<ParsedProduction>::empty()) =~= Seq::<PP>::empty()); }
@loop 0
invariant_except_break __acc0@.len() > 0, fold_prods(F::fm(), s0, aprods(__acc0@), __cur0@), __bad0 is None,
ensures __bad0 is None, __acc0@.len() > 0, rd_prods(F::fm(), s0) == (aprods(__acc0@), __cur0@),
decreases __cur0@.len(),
@loopstart 0
proof { lemma_fprods(F::fm(), s0, aprods(__acc0@), __cur0@); }
//# fn parsers::parsed_grammar_complete
@opt nom
@spec
ensures match rd_grammar(F::fm(), $0@) { None => err(r), Some(ps) => r is Ok && (r->Ok_0).0@.len() == 0 && aprods((r->Ok_0).1.productions@) == ps },
//# prelude
// ---- what was written, lowered ----
pub open spec fn wr_term(t: PT, n: Seq<char>) -> bool decreases t, 0int { match t { PT::Text(_) => false, PT::Name(x) => x == n, PT::Group(a) => wr_alts(a, n), PT::Opt(a) => wr_alts(a, n) } }
pub open spec fn wr_alts(a: Seq<Seq<PT>>, n: Seq<char>) -> bool decreases a, 0int { exists|k: int| 0 <= k < a.len() && wr_terms(#[trigger] a[k], n) }
pub open spec fn wr_terms(a: Seq<PT>, n: Seq<char>) -> bool decreases a, 0int { exists|k: int| 0 <= k < a.len() && wr_term(#[trigger] a[k], n) }
pub open spec fn wr_prods(ps: Seq<PP>, n: Seq<char>) -> bool { exists|k: int| 0 <= k < ps.len() && ((#[trigger] ps[k]).lhs == n || wr_alts(ps[k].rhs, n)) }
pub open spec fn gr_term(t: PT) -> nat decreases t, 0int { match t { PT::Text(_) => 0, PT::Name(_) => 0, PT::Group(a) => 1 + gr_alts(a, a.len() as int), PT::Opt(a) => 1 + gr_alts(a, a.len() as int) } }
pub open spec fn gr_alts(a: Seq<Seq<PT>>, k: int) -> nat decreases a, k { if k <= 0 || k > a.len() { 0 } else { gr_alts(a, k - 1) + gr_terms(a[k - 1], a[k - 1].len() as int) } }
pub open spec fn gr_terms(a: Seq<PT>, k: int) -> nat decreases a, k { if k <= 0 || k > a.len() { 0 } else { gr_terms(a, k - 1) + gr_term(a[k - 1]) } }
pub open spec fn gr_prods(ps: Seq<PP>, k: int) -> nat decreases k { if k <= 0 { 0 } else { gr_prods(ps, k - 1) + gr_alts(ps[k - 1].rhs, ps[k - 1].rhs.len() as int) } }
/// `r` stands for what was written, given the generated productions `ps`.
pub open spec fn low_term(t: PT, r: Term, ps: Seq<Production>) -> bool decreases t, 0int {
    match t {
        PT::Text(_) => pt_of(r) == t, PT::Name(_) => pt_of(r) == t,
        PT::Group(a) => r is Nonterminal && exists|k: int| 0 <= k < ps.len() && (#[trigger] ps[k]).lhs == r && (if a.len() == 0 { ps[k].rhs@.len() == 1 && is_empty_alt(ps[k].rhs@[0]) } else { low_alts(a, ps[k].rhs@, ps) }),
        PT::Opt(a) => r is Nonterminal && exists|k: int| 0 <= k < ps.len() && (#[trigger] ps[k]).lhs == r && ps[k].rhs@.len() > 0 && is_empty_alt(ps[k].rhs@.last()) && low_alts(a, ps[k].rhs@.drop_last(), ps),
    }
}
pub open spec fn low_alts(a: Seq<Seq<PT>>, xs: Seq<Expression>, ps: Seq<Production>) -> bool decreases a, 0int { a.len() == xs.len() && forall|k: int| 0 <= k < a.len() ==> low_terms(#[trigger] a[k], xs[k].terms@, ps) }
pub open spec fn low_terms(a: Seq<PT>, xs: Seq<Term>, ps: Seq<Production>) -> bool decreases a, 0int { a.len() == xs.len() && forall|k: int| 0 <= k < a.len() ==> low_term(#[trigger] a[k], xs[k], ps) }
/// The productions of a grammar read from text that says `w`: those written, in order, then one with a fresh name for each group or optional.
pub open spec fn says(w: Seq<PP>, out: Seq<Production>) -> bool {
    let ps = out.skip(w.len() as int);
    &&& w.len() <= out.len() && ps.len() == gr_prods(w, w.len() as int)
    &&& forall|i: int| 0 <= i < w.len() ==> (#[trigger] out[i]).lhs is Nonterminal && name_of(out[i].lhs) == w[i].lhs && low_alts(w[i].rhs, out[i].rhs@, ps)
    &&& forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).lhs is Nonterminal && !wr_prods(w, name_of(ps[k].lhs))
    &&& forall|k: int, l: int| 0 <= k < l < ps.len() ==> (#[trigger] ps[k]).lhs != (#[trigger] ps[l]).lhs
}
pub proof fn lemma_abs_wr_term(t: ParsedTerm, n: Seq<char>) ensures wr_term(abs_term(t), n) == in_term(t, n) decreases t, 0int {
    match t {
        ParsedTerm::Simple(_) => {}
        ParsedTerm::Group(es) => { lemma_abs_group(es); lemma_abs_wr_exprs(es, n); }
        ParsedTerm::Optional(es) => { lemma_abs_opt(es); lemma_abs_wr_exprs(es, n); }
    }
}
pub proof fn lemma_abs_wr_exprs(es: Vec<ParsedExpression>, n: Seq<char>) ensures wr_alts(aalts(es@), n) == in_exprs(es, n) decreases es, 0int {
    assert forall|k: int| 0 <= k < es@.len() implies wr_terms(#[trigger] aalts(es@)[k], n) == in_expr(es[k], n) by { lemma_abs_wr_expr(es[k], n); }
    if in_exprs(es, n) { let k = choose|k: int| 0 <= k < es@.len() && in_expr(#[trigger] es[k], n); assert(wr_terms(aalts(es@)[k], n)); }
    if wr_alts(aalts(es@), n) { let k = choose|k: int| 0 <= k < aalts(es@).len() && wr_terms(#[trigger] aalts(es@)[k], n); assert(in_expr(es[k], n)); }
}
pub proof fn lemma_abs_wr_expr(e: ParsedExpression, n: Seq<char>) ensures wr_terms(abs_expr(e), n) == in_expr(e, n) decreases e, 0int {
    match e { ParsedExpression::Terms(ts) => { lemma_abs_terms(ts); lemma_abs_wr_terms(ts, n); assert(in_expr(e, n) == in_terms(ts, n)); } }
}
pub proof fn lemma_abs_wr_terms(ts: Vec<ParsedTerm>, n: Seq<char>) ensures wr_terms(apts(ts@), n) == in_terms(ts, n) decreases ts, 0int {
    assert forall|k: int| 0 <= k < ts@.len() implies wr_term(#[trigger] apts(ts@)[k], n) == in_term(ts[k], n) by { lemma_abs_wr_term(ts[k], n); }
    if in_terms(ts, n) { let k = choose|k: int| 0 <= k < ts@.len() && in_term(#[trigger] ts[k], n); assert(wr_term(apts(ts@)[k], n)); }
    if wr_terms(apts(ts@), n) { let k = choose|k: int| 0 <= k < apts(ts@).len() && wr_term(#[trigger] apts(ts@)[k], n); assert(in_term(ts[k], n)); }
}
pub proof fn lemma_abs_gr_term(t: ParsedTerm) ensures gr_term(abs_term(t)) == groups_term(t) decreases t, 0int {
    match t {
        ParsedTerm::Simple(_) => {}
        ParsedTerm::Group(es) => { lemma_abs_group(es); lemma_abs_gr_exprs(es, es@.len() as int); }
        ParsedTerm::Optional(es) => { lemma_abs_opt(es); lemma_abs_gr_exprs(es, es@.len() as int); }
    }
}
pub proof fn lemma_abs_gr_exprs(es: Vec<ParsedExpression>, k: int) requires 0 <= k <= es@.len() ensures gr_alts(aalts(es@), k) == groups_exprs(es, k) decreases es, k {
    if k > 0 { lemma_abs_gr_exprs(es, k - 1); lemma_abs_gr_expr(es[k - 1]); assert(aalts(es@)[k - 1] == abs_expr(es[k - 1])); }
}
pub proof fn lemma_abs_gr_expr(e: ParsedExpression) ensures gr_terms(abs_expr(e), abs_expr(e).len() as int) == groups_expr(e) decreases e, 0int {
    match e { ParsedExpression::Terms(ts) => { lemma_abs_terms(ts); lemma_abs_gr_terms(ts, ts@.len() as int); } }
}
pub proof fn lemma_abs_gr_terms(ts: Vec<ParsedTerm>, k: int) requires 0 <= k <= ts@.len() ensures gr_terms(apts(ts@), k) == groups_terms(ts, k) decreases ts, k {
    if k > 0 { lemma_abs_gr_terms(ts, k - 1); lemma_abs_gr_term(ts[k - 1]); assert(apts(ts@)[k - 1] == abs_term(ts[k - 1])); }
}
pub proof fn lemma_abs_low_term(t: ParsedTerm, r: Term, ps: Seq<Production>) requires lowered_term(t, r, ps) ensures low_term(abs_term(t), r, ps) decreases t, 0int {
    match t {
        ParsedTerm::Simple(_) => {}
        ParsedTerm::Group(es) => {
            lemma_abs_group(es);
            let k = choose|k: int| 0 <= k < ps.len() && (#[trigger] ps[k]).lhs == r && (if es@.len() == 0 { ps[k].rhs@.len() == 1 && is_empty_alt(ps[k].rhs@[0]) } else { lowered_exprs(es, ps[k].rhs@, ps) });
            if es@.len() > 0 { lemma_abs_low_exprs(es, ps[k].rhs@, ps); }
            assert(ps[k].lhs == r);
        }
        ParsedTerm::Optional(es) => {
            lemma_abs_opt(es);
            let k = choose|k: int| 0 <= k < ps.len() && (#[trigger] ps[k]).lhs == r && ps[k].rhs@.len() > 0 && is_empty_alt(ps[k].rhs@.last()) && lowered_exprs(es, ps[k].rhs@.drop_last(), ps);
            lemma_abs_low_exprs(es, ps[k].rhs@.drop_last(), ps);
            assert(ps[k].lhs == r);
        }
    }
}
pub proof fn lemma_abs_low_exprs(es: Vec<ParsedExpression>, xs: Seq<Expression>, ps: Seq<Production>) requires lowered_exprs(es, xs, ps) ensures low_alts(aalts(es@), xs, ps) decreases es, 0int {
    assert forall|k: int| 0 <= k < es@.len() implies low_terms(#[trigger] aalts(es@)[k], xs[k].terms@, ps) by { assert(lowered_expr(es[k], xs[k], ps)); lemma_abs_low_expr(es[k], xs[k], ps); }
}
pub proof fn lemma_abs_low_expr(e: ParsedExpression, x: Expression, ps: Seq<Production>) requires lowered_expr(e, x, ps) ensures low_terms(abs_expr(e), x.terms@, ps) decreases e, 0int {
    match e { ParsedExpression::Terms(ts) => { lemma_abs_terms(ts); lemma_abs_low_terms(ts, x.terms@, ps); } }
}
pub proof fn lemma_abs_low_terms(ts: Vec<ParsedTerm>, xs: Seq<Term>, ps: Seq<Production>) requires lowered_terms(ts, xs, ps) ensures low_terms(apts(ts@), xs, ps) decreases ts, 0int {
    assert forall|k: int| 0 <= k < ts@.len() implies low_term(#[trigger] apts(ts@)[k], xs[k], ps) by { assert(lowered_term(ts[k], xs[k], ps)); lemma_abs_low_term(ts[k], xs[k], ps); }
}
pub proof fn lemma_gr_prods(ps: Seq<ParsedProduction>, k: int) requires 0 <= k <= ps.len() ensures gr_prods(aprods(ps), k) == groups_prods(ps, k) decreases k {
    if k > 0 { lemma_gr_prods(ps, k - 1); lemma_abs_gr_exprs(prod_rhs_of(ps[k - 1]), prod_rhs_of(ps[k - 1])@.len() as int); }
}
/// Normalizing what was parsed says what was written.
pub proof fn lemma_says(g: ParsedGrammar, out: Seq<Production>)
    requires normalized(g, out, g.productions@.len() as int), ensures says(aprods(g.productions@), out),
{
    let w = aprods(g.productions@); let m = w.len() as int; let ps = out.skip(m);
    lemma_gr_prods(g.productions@, m);
    assert forall|i: int| 0 <= i < m implies (#[trigger] out[i]).lhs is Nonterminal && name_of(out[i].lhs) == w[i].lhs && low_alts(w[i].rhs, out[i].rhs@, ps) by { lemma_abs_low_exprs(prod_rhs_of(g.productions@[i]), out[i].rhs@, ps); }
    assert forall|k: int| 0 <= k < ps.len() implies (#[trigger] ps[k]).lhs is Nonterminal && !wr_prods(w, name_of(ps[k].lhs)) by {
        let n = name_of(ps[k].lhs);
        if wr_prods(w, n) {
            let i = choose|i: int| 0 <= i < w.len() && ((#[trigger] w[i]).lhs == n || wr_alts(w[i].rhs, n));
            lemma_abs_wr_exprs(prod_rhs_of(g.productions@[i]), n);
            assert(prod_lhs_of(g.productions@[i]) == n || in_exprs(prod_rhs_of(g.productions@[i]), n));
            assert(written(g, n));
        }
    }
}
pub proof fn lemma_plain_gr_terms(v: Seq<Term>, k: int) ensures gr_terms(pts_of(v), k) == 0 decreases k { if 0 < k <= v.len() { lemma_plain_gr_terms(v, k - 1); assert(pts_of(v)[k - 1] == pt_of(v[k - 1])); assert(gr_term(pt_of(v[k - 1])) == 0); } }
pub proof fn lemma_plain_gr_alts(v: Seq<Expression>, k: int) ensures gr_alts(alts_of(v), k) == 0 decreases k { if 0 < k <= v.len() { lemma_plain_gr_alts(v, k - 1); lemma_plain_gr_terms(v[k - 1].terms@, v[k - 1].terms@.len() as int); assert(alts_of(v)[k - 1] == pts_of(v[k - 1].terms@)); } }
pub proof fn lemma_plain_gr_prods(v: Seq<Production>, k: int) requires 0 <= k <= v.len() ensures gr_prods(pps_of(v), k) == 0 decreases k { if k > 0 { lemma_plain_gr_prods(v, k - 1); lemma_plain_gr_alts(v[k - 1].rhs@, v[k - 1].rhs@.len() as int); } }
/// Without groups and optionals, saying a grammar is being it.
pub proof fn lemma_says_plain(v: Seq<Production>, out: Seq<Production>)
    requires all_names(v), ensures says(pps_of(v), out) == (all_names(out) && pps_of(out) == pps_of(v)),
{
    let w = pps_of(v); let ps = out.skip(w.len() as int);
    lemma_plain_gr_prods(v, v.len() as int);
    if says(w, out) {
        assert(out.len() == w.len());
        assert forall|i: int| 0 <= i < out.len() implies #[trigger] pps_of(out)[i] == w[i] by { assert(out[i].lhs is Nonterminal); lemma_low_plain_alts(v[i].rhs@, out[i].rhs@, ps); }
        assert(pps_of(out) =~= w);
    }
    if all_names(out) && pps_of(out) == w {
        assert(out.len() == w.len());
        assert forall|i: int| 0 <= i < w.len() implies (#[trigger] out[i]).lhs is Nonterminal && name_of(out[i].lhs) == w[i].lhs && low_alts(w[i].rhs, out[i].rhs@, ps) by { assert(pps_of(out)[i] == w[i]); lemma_low_plain_alts(v[i].rhs@, out[i].rhs@, ps); }
    }
}
pub proof fn lemma_low_plain_alts(v: Seq<Expression>, xs: Seq<Expression>, ps: Seq<Production>) ensures low_alts(alts_of(v), xs, ps) == (alts_of(xs) == alts_of(v)) {
    assert forall|k: int| 0 <= k < v.len() && k < xs.len() implies low_terms(#[trigger] alts_of(v)[k], xs[k].terms@, ps) == (alts_of(xs)[k] == alts_of(v)[k]) by { lemma_low_plain_terms(v[k].terms@, xs[k].terms@, ps); }
    if low_alts(alts_of(v), xs, ps) { assert(alts_of(xs) =~= alts_of(v)); }
    if alts_of(xs) == alts_of(v) { assert(alts_of(xs).len() == alts_of(v).len()); }
}
pub proof fn lemma_low_plain_terms(v: Seq<Term>, xs: Seq<Term>, ps: Seq<Production>) ensures low_terms(pts_of(v), xs, ps) == (pts_of(xs) == pts_of(v)) {
    assert forall|k: int| 0 <= k < v.len() && k < xs.len() implies low_term(#[trigger] pts_of(v)[k], xs[k], ps) == (pts_of(xs)[k] == pts_of(v)[k]) by {}
    if low_terms(pts_of(v), xs, ps) { assert forall|k: int| 0 <= k < v.len() implies pts_of(xs)[k] == #[trigger] pts_of(v)[k] by { assert(low_term(pts_of(v)[k], xs[k], ps)); } assert(pts_of(xs) =~= pts_of(v)); }
    if pts_of(xs) == pts_of(v) { assert(pts_of(xs).len() == pts_of(v).len()); }
}
//# fn parsers::grammar_has_extended_syntax
@attr #[verifier::exec_allows_no_decreases_clause]
//# fn parsers::grammar_complete
@opt nom
@spec
ensures match rd_grammar(F::fm(), $0@) { Some(w) => r is Ok && says(w, (r->Ok_0).1.productions@), None => err(r) },
@start
proof {
    assert forall|v: Seq<Production>| all_names(v) implies says(#[trigger] pps_of(v), v) by { lemma_says_plain(v, v); }
    assert forall|g: ParsedGrammar, out: Seq<Production>| #[trigger] normalized(g, out, g.productions@.len() as int) implies says(aprods(g.productions@), out) by { lemma_says(g, out); }
}
//# fn parsers::is_format_standard_bnf
@opt nom
@spec
ensures r == (skip($0@).len() > 0 && skip($0@)[0] == '<'),
//# prelude
pub trait VFromNom: Sized { spec fn refused(&self) -> bool; fn v_from(e: crate::nom::Err<crate::nom::error::Error<&str>>) -> (r: Self) ensures r.refused(); }
//# module error
use crate::nom;
use crate::nom::Err;
//# fn error::Error@From<Err>::from
@as crate::VFromNom v_from
@implspec
open spec fn refused(&self) -> bool { *self is ParseError }
//# module grammar
use crate::parsers;
use crate::parsers::{BNF, ABNF};
use crate::*;
//# fn grammar::Grammar::parse_from
@opt nom
@spec
ensures match rd_grammar(F::fm(), $0@) { Some(w) => r is Ok && says(w, r->Ok_0.productions@), None => r is Err && r->Err_0 is ParseError },
//# prelude
pub open spec fn fm_of(s: Seq<char>) -> Fm { if skip(s).len() > 0 && skip(s)[0] == '<' { bnf_fm() } else { abnf_fm() } }
//# fn grammar::Grammar@FromStr::from_str
@opt nom
@spec
ensures match rd_grammar(fm_of($0@), $0@) { Some(w) => r is Ok && says(w, r->Ok_0.productions@), None => r is Err && r->Err_0 is ParseError },
