// Assumed contracts of the nom 8 primitives and the str methods the grammar readers use.
//# rename trim_start_matches trim_start strip_prefix find to_string is_whitespace is_alphabetic
//# prelude
pub mod nom {
use vstd::prelude::*;
pub enum Err<E> { Incomplete(usize), Error(E), Failure(E) }
impl<E> std::fmt::Debug for Err<E> { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
pub mod error { pub struct Error<I> { pub input: I, pub code: u32 } }
pub type IResult<I, O> = core::result::Result<(I, O), Err<error::Error<I>>>;
}
pub mod nomshim {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::nom::*;
pub uninterp spec fn alphabetic(c: char) -> bool;
/// Unicode White_Space
pub open spec fn white(c: char) -> bool {
    ('\u{9}' <= c && c <= '\u{d}') || c == ' ' || c == '\u{85}' || c == '\u{a0}' || c == '\u{1680}' || ('\u{2000}' <= c && c <= '\u{200a}') || c == '\u{2028}' || c == '\u{2029}' || c == '\u{202f}' || c == '\u{205f}' || c == '\u{3000}'
}
pub trait VCharClass { fn v_is_whitespace(self) -> (r: bool); fn v_is_alphabetic(self) -> (r: bool); }
impl VCharClass for char {
    #[verifier::external_body]
    fn v_is_whitespace(self) -> (r: bool) ensures r == white(self) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_alphabetic(self) -> (r: bool) ensures r == alphabetic(self) { unimplemented!() }
}
/// Letters are neither brackets, quotes nor punctuation.
pub axiom fn axiom_alphabetic(c: char)
    ensures alphabetic(c) ==> c != '(' && c != '[' && c != ')' && c != ']' && c != '"' && c != '\'' && c != '<' && c != '>' && c != ';' && c != '=' && c != '/' && c != '|' && c != ':' && !white(c);
/// Marks the place where a scan of `s` stopped.
pub open spec fn took(s: Seq<char>, k: int) -> bool { true }
/// Index of the first `b` in `s`, or its length.
pub open spec fn at(s: Seq<char>, b: char) -> int decreases s.len() { if s.len() == 0 || s[0] == b { 0 } else { 1 + at(s.drop_first(), b) } }
pub broadcast proof fn lemma_at(s: Seq<char>, k: int, b: char)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> #[trigger] s[j] != b, k < s.len() ==> s[k] == b,
    ensures #![trigger took(s, k), at(s, b)] at(s, b) == k,
    decreases k,
{
    if k > 0 {
        let t = s.drop_first();
        assert(s[0] != b);
        assert forall|j: int| 0 <= j < k - 1 implies #[trigger] t[j] != b by { assert(t[j] == s[j + 1]); }
        lemma_at(t, k - 1, b);
    }
}
pub proof fn lemma_at_is(s: Seq<char>, b: char)
    ensures 0 <= at(s, b) <= s.len(), at(s, b) < s.len() ==> s[at(s, b)] == b, forall|j: int| 0 <= j < at(s, b) ==> #[trigger] s[j] != b,
    decreases s.len(),
{ if s.len() > 0 && s[0] != b { lemma_at_is(s.drop_first(), b); let t = s.drop_first(); assert forall|j: int| 0 <= j < at(s, b) implies #[trigger] s[j] != b by { if j > 0 { assert(s[j] == t[j - 1]); } } assert(at(s, b) < s.len() ==> s[at(s, b)] == t[at(t, b)]); } }
pub open spec fn starts(t: Seq<char>, s: Seq<char>) -> bool { t.len() <= s.len() && s.take(t.len() as int) == t }
pub broadcast proof fn lemma_blen_zero(s: Seq<char>)
    ensures (#[trigger] encode_utf8(s)).len() == 0 <==> s.len() == 0,
{ reveal_with_fuel(encode_utf8, 2); }
pub proof fn lemma_blen_skip(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures encode_utf8(s.skip(k)).len() <= encode_utf8(s).len(), k > 0 ==> encode_utf8(s.skip(k)).len() < encode_utf8(s).len(),
    decreases k,
{
    if k > 0 { lemma_blen_skip(s, k - 1); reveal_with_fuel(encode_utf8, 2); assert(s.skip(k - 1).drop_first() =~= s.skip(k)); } else { assert(s.skip(0) =~= s); }
}
/// The character index of byte offset `p` of the text.
pub uninterp spec fn char_at(s: Seq<char>, p: int) -> int;
pub uninterp spec fn char_boundary(s: Seq<char>, p: int) -> bool;
pub open spec fn hit(set: Seq<char>, c: char) -> bool { (set.len() > 0 && set[0] == c) || (set.len() > 1 && set[1] == c) || (set.len() > 2 && exists|i: int| 2 <= i < set.len() && set[i] == c) }
/// What `find` looks for.
pub trait VPat { spec fn hits(&self, c: char) -> bool; }
impl VPat for char { open spec fn hits(&self, c: char) -> bool { *self == c } }
impl<const N: usize> VPat for [char; N] { open spec fn hits(&self, c: char) -> bool { hit(self@, c) } }
pub trait VText {
    fn v_trim_start_matches<C: Fn(char) -> bool>(&self, f: C) -> (r: &str) requires forall|c: char| f.requires((c,));
    fn v_strip_prefix(&self, c: char) -> (r: Option<&str>);
    fn v_trim_start(&self) -> (r: &str);
    fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>);
    spec fn can_slice(&self, p: int) -> bool;
    fn v_slice_from(&self, p: usize) -> (r: &str) requires self.can_slice(p as int);
}
impl VText for str {
    #[verifier::external_body]
    fn v_trim_start_matches<C: Fn(char) -> bool>(&self, f: C) -> (r: &str)
        ensures ({ let k = self@.len() - r@.len(); took(self@, k) && 0 <= k && r@ == self@.skip(k)
            && (forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] self@[j],), true)) && (k < self@.len() ==> f.ensures((self@[k],), false)) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn v_strip_prefix(&self, c: char) -> (r: Option<&str>)
        ensures match r { Some(t) => self@.len() > 0 && self@[0] == c && t@ == self@.drop_first(), None => self@.len() == 0 || self@[0] != c },
    { unimplemented!() }
    #[verifier::external_body]
    fn v_trim_start(&self) -> (r: &str)
        ensures ({ let k = self@.len() - r@.len(); took(self@, k) && 0 <= k && r@ == self@.skip(k) && (forall|j: int| 0 <= j < k ==> white(#[trigger] self@[j])) && (k < self@.len() ==> !white(self@[k])) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r {
            Some(b) => { let k = char_at(self@, b as int); char_boundary(self@, b as int) && took(self@, k) && 0 <= k < self@.len() && p.hits(self@[k]) && forall|j: int| 0 <= j < k ==> !p.hits(#[trigger] self@[j]) }
            None => took(self@, self@.len() as int) && forall|j: int| 0 <= j < self@.len() ==> !p.hits(#[trigger] self@[j]),
        },
    { unimplemented!() }
    open spec fn can_slice(&self, p: int) -> bool { char_boundary(self@, p) }
    #[verifier::external_body]
    fn v_slice_from(&self, p: usize) -> (r: &str)
        ensures r@ == self@.skip(char_at(self@, p as int)),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_nom_error<'a>(i: &'a str) -> (r: Err<error::Error<&'a str>>) ensures r is Error { unimplemented!() }
#[verifier::external_body]
pub fn v_nom_consumed<'a>(i: &'a str, rest: &'a str) -> (r: &'a str) { unimplemented!() }
#[verifier::external_body]
pub fn v_nom_char<'a>(c: char, i: &'a str) -> (r: IResult<&'a str, char>)
    ensures match r { Ok((t, o)) => i@.len() > 0 && i@[0] == c && t@ == i@.drop_first() && o == c, Err(e) => e is Error && (i@.len() == 0 || i@[0] != c) },
{ unimplemented!() }
#[verifier::external_body]
pub fn v_nom_tag<'a>(t: &str, i: &'a str) -> (r: IResult<&'a str, &'a str>)
    ensures match r { Ok((q, o)) => starts(t@, i@) && q@ == i@.skip(t@.len() as int), Err(e) => e is Error && !starts(t@, i@) },
{ unimplemented!() }
/// (said only for one-character tags, the only ones used)
#[verifier::external_body]
pub fn v_nom_take_until<'a>(t: &str, i: &'a str) -> (r: IResult<&'a str, &'a str>)
    ensures t@.len() == 1 ==> match r {
        Ok((q, o)) => { let k = o@.len() as int; took(i@, k) && k < i@.len() && i@[k] == t@[0] && o@ == i@.take(k) && q@ == i@.skip(k) && forall|j: int| 0 <= j < k ==> #[trigger] i@[j] != t@[0] }
        Err(e) => e is Error && took(i@, i@.len() as int) && forall|j: int| 0 <= j < i@.len() ==> #[trigger] i@[j] != t@[0],
    },
{ unimplemented!() }
#[verifier::external_body]
pub fn v_nom_take_till<'a, C: Fn(char) -> bool>(f: C, i: &'a str) -> (r: IResult<&'a str, &'a str>)
    requires forall|c: char| f.requires((c,)),
    ensures match r {
        Ok((q, o)) => { let k = o@.len() as int; took(i@, k) && k <= i@.len() && o@ == i@.take(k) && q@ == i@.skip(k) && (forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] i@[j],), false)) && (k < i@.len() ==> f.ensures((i@[k],), true)) }
        Err(e) => false,
    },
{ unimplemented!() }
#[verifier::external_body]
pub fn v_nom_satisfy<'a, C: Fn(char) -> bool>(f: C, i: &'a str) -> (r: IResult<&'a str, char>)
    requires forall|c: char| f.requires((c,)),
    ensures match r { Ok((q, o)) => i@.len() > 0 && f.ensures((i@[0],), true) && o == i@[0] && q@ == i@.drop_first(), Err(e) => e is Error && (i@.len() == 0 || f.ensures((i@[0],), false)) },
{ unimplemented!() }
#[verifier::external_body]
pub fn v_nom_eof<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>)
    ensures match r { Ok((q, o)) => i@.len() == 0 && q@ == i@, Err(e) => e is Error && i@.len() > 0 },
{ unimplemented!() }
pub trait VToString { spec fn ts(&self) -> Seq<char>; spec fn ts_req(&self) -> bool; fn v_to_string(&self) -> (r: String) requires self.ts_req() ensures r@ == self.ts(); }
impl<T: crate::shim::VDisplay + ?Sized> VToString for T {
    open spec fn ts(&self) -> Seq<char> { self.disp() }
    open spec fn ts_req(&self) -> bool { self.disp_req() }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
} // mod nomshim
