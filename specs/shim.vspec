// Assumed contracts of std / hashbrown types used by the extracted code.
// Every `external_body` here is part of the trusted base and is counted in the evidence.
//# rename len iter into_iter get starts_with as_ref is_empty iter_mut binary_search contains chars
//# optfn get first next position find checked_sub strip_prefix pop_front pop
//# prelude
pub mod shim {
use vstd::prelude::*;
use vstd::utf8::*;

/// UTF-8 bytes of a text.
pub open spec fn bs(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }

// ---- extensionality: a String/&str is its character content ----
pub broadcast axiom fn axiom_string_ext(a: String, b: String)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
/// The string slice of a `String`'s whole text (it exists for every `String`).
pub uninterp spec fn str_of<'a>(s: String) -> &'a str;
pub broadcast axiom fn axiom_str_of<'a>(s: String)
    ensures (#[trigger] str_of::<'a>(s))@ == s@;
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>)
    ensures encode_utf8(a) == encode_utf8(b) ==> a == b,
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
pub proof fn lemma_utf8_valid(a: Seq<char>)
    ensures valid_utf8(encode_utf8(a)),
{ encode_utf8_valid_utf8(a); }
/// A Rust str is at most isize::MAX bytes long.
pub broadcast axiom fn axiom_str_len(a: &str)
    ensures #[trigger] encode_utf8(a@).len() <= isize::MAX;

/// `i` is a character boundary of the valid UTF-8 sequence `b` (str::get(i..) is Some).
pub open spec fn boundary(b: Seq<u8>, i: int) -> bool {
    0 <= i <= b.len() && valid_utf8(b.subrange(0, i)) && valid_utf8(b.subrange(i, b.len() as int))
}
/// UTF-8 is self-synchronising: splitting valid text after a valid prefix leaves valid text.
pub proof fn lemma_utf8_cancel(p: Seq<u8>, s: Seq<u8>)
    requires valid_utf8(p), valid_utf8(p + s),
    ensures valid_utf8(s),
    decreases p.len(),
{
    if p.len() == 0 { assert(p + s =~= s); } else {
        assert(valid_first_scalar(p));
        let q = pop_first_scalar(p);
        assert(valid_first_scalar(p + s));
        assert(pop_first_scalar(p + s) =~= q + s);
        lemma_utf8_cancel(q, s);
    }
}
pub proof fn lemma_utf8_concat(p: Seq<u8>, s: Seq<u8>)
    requires valid_utf8(p), valid_utf8(s),
    ensures valid_utf8(p + s),
{ valid_utf8_concat(p, s); }

pub trait VLen {
    spec fn sp_len(&self) -> nat;
    fn v_len(&self) -> (r: usize) ensures r == self.sp_len();
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.sp_len() == 0);
}
impl<T> VLen for Vec<T> {
    open spec fn sp_len(&self) -> nat { self@.len() }
    fn v_len(&self) -> (r: usize) { self.len() }
    fn v_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
impl<T> VLen for [T] {
    open spec fn sp_len(&self) -> nat { self@.len() }
    fn v_len(&self) -> (r: usize) { self.len() }
    fn v_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
impl<T> VLen for std::collections::VecDeque<T> {
    open spec fn sp_len(&self) -> nat { self@.len() }
    fn v_len(&self) -> (r: usize) { self.len() }
    fn v_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
impl VLen for str {
    open spec fn sp_len(&self) -> nat { encode_utf8(self@).len() }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl VLen for String {
    open spec fn sp_len(&self) -> nat { encode_utf8(self@).len() }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}

pub trait VGet<T> {
    spec fn sp_seq(&self) -> Seq<T>;
    fn v_get(&self, i: usize) -> (r: Option<&T>)
        ensures r == (if i < self.sp_seq().len() { Some(&self.sp_seq()[i as int]) } else { None });
}
impl<T> VGet<T> for Vec<T> {
    open spec fn sp_seq(&self) -> Seq<T> { self@ }
    fn v_get(&self, i: usize) -> (r: Option<&T>) { if i < self.len() { Some(&self[i]) } else { None } }
}
impl<T> VGet<T> for [T] {
    open spec fn sp_seq(&self) -> Seq<T> { self@ }
    fn v_get(&self, i: usize) -> (r: Option<&T>) { if i < self.len() { Some(&self[i]) } else { None } }
}
/// slice::binary_search: Ok is an equal element; nothing is assumed of Err beyond being a valid place to insert.
pub trait VSearch<T> { fn v_binary_search(&self, x: &T) -> (r: Result<usize, usize>); }
impl<T> VSearch<T> for Vec<T> {
    #[verifier::external_body]
    fn v_binary_search(&self, x: &T) -> (r: Result<usize, usize>)
        ensures match r { Ok(i) => i < self@.len() && self@[i as int] == *x, Err(i) => i <= self@.len() },
    { unimplemented!() }
}
/// `+` where the result is only used if it does not overflow (a call that overflows panics or is out of scope).
#[verifier::external_body]
pub fn v_add(a: usize, b: usize) -> (r: usize)
    ensures r == a + b,
{ unimplemented!() }
pub trait VChars { fn v_chars(&self) -> (r: SeqIter<char>); }
impl VChars for str {
    #[verifier::external_body]
    fn v_chars(&self) -> (r: SeqIter<char>) ensures r.pos() == 0, r.all() == self@ { unimplemented!() }
}
/// `String::from(&str)`
pub fn v_string_from(s: &str) -> (r: String)
    ensures r@ == s@,
{ s.to_string() }
pub open spec fn any_in<const N: usize>(s: Seq<char>, x: [char; N]) -> bool { (N > 0 && s.contains(x@[0])) || (N > 1 && s.contains(x@[1])) || (N > 2 && exists|i: int| 2 <= i < N && s.contains(#[trigger] x@[i])) }
/// `contains` compares with structural equality.
pub trait VContains<X> { fn v_contains(&self, x: X) -> (r: bool); }
impl<const N: usize> VContains<[char; N]> for str {
    #[verifier::external_body]
    fn v_contains(&self, x: [char; N]) -> (r: bool)
        ensures r == any_in(self@, x),
    { unimplemented!() }
}
impl VContains<char> for str {
    #[verifier::external_body]
    fn v_contains(&self, x: char) -> (r: bool)
        ensures r == self@.contains(x),
    { unimplemented!() }
}
impl VContains<char> for String {
    #[verifier::external_body]
    fn v_contains(&self, x: char) -> (r: bool)
        ensures r == self@.contains(x),
    { unimplemented!() }
}
impl<'x, T> VContains<&'x T> for Vec<T> {
    #[verifier::external_body]
    fn v_contains(&self, x: &'x T) -> (r: bool)
        ensures r == self@.contains(*x),
    { unimplemented!() }
}
impl<'x, T, const N: usize> VContains<&'x T> for [T; N] {
    #[verifier::external_body]
    fn v_contains(&self, x: &'x T) -> (r: bool)
        ensures r == self@.contains(*x),
    { unimplemented!() }
}
impl<'x, T> VContains<&'x T> for [T] {
    #[verifier::external_body]
    fn v_contains(&self, x: &'x T) -> (r: bool)
        ensures r == self@.contains(*x),
    { unimplemented!() }
}
pub trait VGetFromSlice<T> {
    fn v_get_from(&self, i: usize) -> (r: Option<&[T]>);
}
impl<T> VGetFromSlice<T> for [T] {
    fn v_get_from(&self, i: usize) -> (r: Option<&[T]>)
        ensures match r {
            Some(s) => i <= self@.len() && s@ == self@.subrange(i as int, self@.len() as int),
            None => i > self@.len(),
        }
    { if i <= self.len() { Some(vstd::slice::slice_subrange(self, i, self.len())) } else { None } }
}
pub trait VStr {
    fn v_get_from(&self, i: usize) -> (r: Option<&str>);
    fn v_starts_with(&self, p: &str) -> (r: bool);
}
impl VStr for str {
    #[verifier::external_body]
    fn v_get_from(&self, i: usize) -> (r: Option<&str>)
        ensures match r {
            Some(s) => boundary(encode_utf8(self@), i as int)
                && encode_utf8(s@) == encode_utf8(self@).subrange(i as int, encode_utf8(self@).len() as int),
            None => !boundary(encode_utf8(self@), i as int),
        }
    { self.get(i..) }
    #[verifier::external_body]
    fn v_starts_with(&self, p: &str) -> (r: bool)
        ensures r == encode_utf8(p@).is_prefix_of(encode_utf8(self@))
    { self.starts_with(p) }
}
pub trait VAsRef<T> {
    fn v_as_ref(&self) -> (r: &T);
}
impl<T> VAsRef<T> for std::rc::Rc<T> {
    fn v_as_ref(&self) -> (r: &T) ensures *r == **self { &**self }
}

pub broadcast proof fn lemma_push_contains<T>(s: Seq<T>, x: T, y: T)
    ensures #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x),
{
    let n = s.push(x);
    if s.contains(y) { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(n[k] == y); }
    assert(n[s.len() as int] == x);
    if n.contains(y) { let k = choose|k: int| 0 <= k < n.len() && n[k] == y; if k < s.len() { assert(s[k] == y); } }
}
pub broadcast proof fn lemma_insert_contains<T>(s: Seq<T>, i: int, x: T, y: T)
    requires 0 <= i <= s.len(),
    ensures #[trigger] s.insert(i, x).contains(y) == (s.contains(y) || y == x),
{
    let n = s.insert(i, x);
    if s.contains(y) { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; if k < i { assert(n[k] == y); } else { assert(n[k + 1] == y); } }
    if y == x { assert(n[i] == y); }
    if n.contains(y) { let k = choose|k: int| 0 <= k < n.len() && n[k] == y; if k < i { assert(s[k] == y); } else if k > i { assert(s[k - 1] == y); } }
}
pub broadcast proof fn lemma_index_contains<T>(s: Seq<T>, k: int)
    requires 0 <= k < s.len(),
    ensures s.contains(#[trigger] s[k]),
{}
// ---- finite iterators ----
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SeqIter<T> { v: std::vec::IntoIter<T> }
impl<T> SeqIter<T> {
    /// All items this iterator produces from its creation on.
    pub uninterp spec fn all(&self) -> Seq<T>;
    /// How many of them have been taken.
    pub uninterp spec fn pos(&self) -> nat;
    pub open spec fn rest(&self) -> Seq<T> { self.all().subrange(self.pos() as int, self.all().len() as int) }
    pub open spec fn fresh(&self, s: Seq<T>) -> bool { self.pos() == 0 && self.all() == s }
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool)
        ensures r == (self.pos() < self.all().len()), self.pos() <= self.all().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: T)
        requires old(self).pos() < old(self).all().len(),
        ensures final(self).all() == old(self).all(), final(self).pos() == old(self).pos() + 1,
            r == old(self).all()[old(self).pos() as int],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> final(self).pos() == old(self).pos() + 1
                && r == Some(old(self).all()[old(self).pos() as int]),
            old(self).pos() >= old(self).all().len() ==> final(self).pos() == old(self).pos() && r.is_none(),
    { unimplemented!() }
    pub fn v_into_iter(self) -> (r: SeqIter<T>) ensures r == self { self }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: SeqIter<U>)
        requires forall|i: int| 0 <= i < self.all().len() ==> #[trigger] call_requires(f, (self.all()[i],)), self.pos() == 0,
        ensures r.pos() == 0, r.all().len() == self.all().len(),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < self.all().len() ==> call_ensures(f, (self.all()[i],), r.all()[i]),
    { unimplemented!() }
    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).all().len() ==> #[trigger] call_requires(f, (old(self).all()[i],)), old(self).pos() == 0,
        ensures
            r ==> exists|i: int| 0 <= i < old(self).all().len() && call_ensures(f, (#[trigger] old(self).all()[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self).all().len() ==> call_ensures(f, (#[trigger] old(self).all()[i],), false),
    {
        while self.has_next()
            invariant self.all() == old(self).all(), old(self).pos() == 0, self.pos() <= self.all().len(),
                forall|i: int| 0 <= i < old(self).all().len() ==> #[trigger] call_requires(f, (old(self).all()[i],)),
                forall|i: int| #![auto] 0 <= i < self.pos() ==> call_ensures(f, (old(self).all()[i],), false),
            decreases self.all().len() - self.pos(),
        {
            let x = self.take_next();
            if f(x) { return true; }
        }
        false
    }
    pub fn all_<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).all().len() ==> #[trigger] call_requires(f, (old(self).all()[i],)), old(self).pos() == 0,
        ensures
            !r ==> exists|i: int| 0 <= i < old(self).all().len() && call_ensures(f, (#[trigger] old(self).all()[i],), false),
            r ==> forall|i: int| 0 <= i < old(self).all().len() ==> call_ensures(f, (#[trigger] old(self).all()[i],), true),
    {
        while self.has_next()
            invariant self.all() == old(self).all(), old(self).pos() == 0, self.pos() <= self.all().len(),
                forall|i: int| 0 <= i < old(self).all().len() ==> #[trigger] call_requires(f, (old(self).all()[i],)),
                forall|i: int| #![auto] 0 <= i < self.pos() ==> call_ensures(f, (old(self).all()[i],), true),
            decreases self.all().len() - self.pos(),
        {
            let x = self.take_next();
            if !f(x) { return false; }
        }
        true
    }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < old(self).all().len() ==> #[trigger] call_requires(f, (old(self).all()[i],)), old(self).pos() == 0,
        ensures match r {
            Some(p) => p < old(self).all().len() && call_ensures(f, (old(self).all()[p as int],), true)
                && forall|i: int| 0 <= i < p ==> call_ensures(f, (#[trigger] old(self).all()[i],), false),
            None => forall|i: int| 0 <= i < old(self).all().len() ==> call_ensures(f, (#[trigger] old(self).all()[i],), false),
        }
    { unimplemented!() }
    pub fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < old(self).all().len() ==> #[trigger] call_requires(f, (&old(self).all()[i],)), old(self).pos() == 0,
        ensures match r {
            Some(x) => exists|p: int| 0 <= p < old(self).all().len() && x == #[trigger] old(self).all()[p] && call_ensures(f, (&x,), true)
                && forall|i: int| #![auto] 0 <= i < p ==> call_ensures(f, (& old(self).all()[i],), false),
            None => forall|i: int| #![auto] 0 <= i < old(self).all().len() ==> call_ensures(f, (&old(self).all()[i],), false),
        }
    {
        while self.has_next()
            invariant self.all() == old(self).all(), old(self).pos() == 0, self.pos() <= self.all().len(),
                forall|i: int| 0 <= i < old(self).all().len() ==> #[trigger] call_requires(f, (&old(self).all()[i],)),
                forall|i: int| #![auto] 0 <= i < self.pos() ==> call_ensures(f, (&old(self).all()[i],), false),
            decreases self.all().len() - self.pos(),
        {
            let x = self.take_next();
            if f(&x) { return Some(x); }
        }
        None
    }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: SeqIter<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all() == self.all().take(if n < self.all().len() { n as int } else { self.all().len() as int }),
            n >= self.all().len() ==> r.all() == self.all(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: SeqIter<(usize, T)>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all().len() == self.all().len(),
            forall|i: int| 0 <= i < self.all().len() ==> #[trigger] r.all()[i] == (i as usize, self.all()[i]),
            self.all().len() <= usize::MAX,
    { unimplemented!() }
}
impl<'a, T> SeqIter<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: SeqIter<T>) where T: Copy
        ensures r.pos() == self.pos(), r.all() == self.all().map_values(|x: &'a T| *x), forall|y: T| #[trigger] r.all().contains(y) == self.all().contains(&y),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: SeqIter<T>) where T: Copy
        ensures r.pos() == self.pos(), r.all() == self.all().map_values(|x: &'a T| *x), forall|y: T| #[trigger] r.all().contains(y) == self.all().contains(&y),
    { unimplemented!() }
}
impl<'a, T> SeqIter<&'a Vec<T>> {
    /// flatten of an Option<&Vec<T>> iterator (at most one element)
    #[verifier::external_body]
    pub fn flatten(self) -> (r: SeqIter<&'a T>)
        requires self.pos() == 0, self.all().len() <= 1,
        ensures r.pos() == 0,
            self.all().len() == 0 ==> r.all() == Seq::<&'a T>::empty(),
            self.all().len() == 1 ==> r.all() == self.all()[0]@.map_values(|x: T| &x),
            forall|y: &'a T| #[trigger] r.all().contains(y) == (self.all().len() == 1 && self.all()[0]@.contains(*y)),
            forall|i: int| #![trigger self.all()[0]@[i]] self.all().len() == 1 && 0 <= i < self.all()[0]@.len() ==> *r.all()[i] == self.all()[0]@[i],
    { unimplemented!() }
}
pub trait VIntoIter<T> { fn v_into_iter(self) -> (r: SeqIter<T>); }
impl<T> VIntoIter<T> for Option<T> {
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: SeqIter<T>)
        ensures r.pos() == 0, r.all() == match self { Some(x) => seq![x], None => Seq::<T>::empty() }
    { unimplemented!() }
}
impl<T> VIntoIter<T> for Vec<T> {
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: SeqIter<T>) ensures r.pos() == 0, r.all() == self@
    { unimplemented!() }
}
impl<'a, T> VIntoIter<&'a T> for &'a Vec<T> {
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: SeqIter<&'a T>) ensures r.pos() == 0, r.all() == self@.map_values(|x: T| &x),
        forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> *r.all()[i] == self@[i],
    { unimplemented!() }
}
impl<'a, T> VIntoIter<&'a T> for &'a [T] {
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: SeqIter<&'a T>) ensures r.pos() == 0, r.all() == self@.map_values(|x: T| &x),
        forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> *r.all()[i] == self@[i],
    { unimplemented!() }
}
pub trait VIter<T> { fn v_iter(&self) -> (r: SeqIter<&T>); }
impl<T> VIter<T> for Vec<T> {
    #[verifier::external_body]
    fn v_iter(&self) -> (r: SeqIter<&T>) ensures r.pos() == 0, r.all() == self@.map_values(|x: T| &x),
        forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> *r.all()[i] == self@[i],
    { unimplemented!() }
}
impl<T> VIter<T> for [T] {
    #[verifier::external_body]
    fn v_iter(&self) -> (r: SeqIter<&T>) ensures r.pos() == 0, r.all() == self@.map_values(|x: T| &x),
        forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> *r.all()[i] == self@[i],
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_range(a: usize, b: usize) -> (r: SeqIter<usize>)
    ensures r.pos() == 0, r.all() == Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize),
{ unimplemented!() }

// ---- hash map / set (hashbrown) ----
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: std::marker::PhantomData<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_get_copied(&self, k: &K) -> (r: Option<V>) where V: Copy
        ensures r == (if self@.contains_key(*k) { Some(self@[*k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_put(&mut self, k: K, v: V)
        ensures final(self)@ == old(self)@.insert(k, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: VEntry<'a, K, V>)
        ensures r.map() == self, r.key() == k,
    { unimplemented!() }
}
pub trait VMapGet<Q, V> { fn v_get(&self, k: &Q) -> (r: Option<&V>); }
impl<K, V> VMapGet<K, V> for HashMap<K, V> {
    #[verifier::external_body]
    fn v_get(&self, k: &K) -> (r: Option<&V>)
        ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None }),
    { unimplemented!() }
}
impl<'k, K, V> VMapGet<K, V> for HashMap<&'k K, V> {
    #[verifier::external_body]
    fn v_get(&self, k: &K) -> (r: Option<&V>)
        ensures r == (if self@.contains_key(k) { Some(&self@[k]) } else { None }),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VEntry<'a, K, V> { m: std::marker::PhantomData<&'a mut (K, V)> }
impl<'a, K, V> VEntry<'a, K, V> {
    pub uninterp spec fn map(&self) -> &'a mut HashMap<K, V>;
    pub uninterp spec fn key(&self) -> K;
}
impl<'a, K, T> VEntry<'a, K, Vec<T>> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut Vec<T>)
        ensures
            mut_ref_current(self.map())@.contains_key(self.key()) ==> *r == mut_ref_current(self.map())@[self.key()],
            !mut_ref_current(self.map())@.contains_key(self.key()) ==> r@ == Seq::<T>::empty(),
            mut_ref_future(self.map())@ == mut_ref_current(self.map())@.insert(self.key(), *final(r)),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct HashSet<T> { m: std::marker::PhantomData<T> }
impl<T> View for HashSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T> HashSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(t), r == !old(self)@.contains(t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_contains(&self, t: &T) -> (r: bool) ensures r == self@.contains(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, t: &T) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(*t), r == old(self)@.contains(*t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn difference<'a>(&'a self, o: &'a HashSet<T>) -> (r: SeqIter<&'a T>)
        ensures r.pos() == 0,
            forall|x: T| #![trigger self@.contains(x)] (self@.contains(x) && !o@.contains(x)) ==> exists|i: int| 0 <= i < r.all().len() && *r.all()[i] == x,
            forall|i: int| 0 <= i < r.all().len() ==> self@.contains(*#[trigger] r.all()[i]) && !o@.contains(*r.all()[i]),
    { unimplemented!() }
}

// ---- formatting ----
#[derive(Debug)]
pub struct FmtError;
/// std::fmt::Formatter writing to some sink: the text written so far, and whether the sink never fails.
#[verifier::external_body]
pub struct Formatter<'a> { x: std::marker::PhantomData<&'a ()> }
impl<'a> View for Formatter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> Formatter<'a> {
    pub uninterp spec fn sink_ok(&self) -> bool;
    #[verifier::external_body]
    pub fn v_lit(&mut self, s: &str) -> (r: Result<(), FmtError>)
        ensures final(self).sink_ok() == old(self).sink_ok(), old(self).sink_ok() ==> r.is_ok(),
            r.is_ok() ==> final(self)@ == old(self)@ + s@,
    { unimplemented!() }
    pub fn v_arg<D: VDisplay + ?Sized>(&mut self, d: &D) -> (r: Result<(), FmtError>)
        requires d.disp_req(),
        ensures final(self).sink_ok() == old(self).sink_ok(), old(self).sink_ok() ==> r.is_ok(),
            r.is_ok() ==> final(self)@ == old(self)@ + d.disp(),
    { d.v_fmt(self) }
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>)
        ensures final(self).sink_ok() == old(self).sink_ok(), old(self).sink_ok() ==> r.is_ok(),
            r.is_ok() ==> final(self)@ == old(self)@ + s@,
    { self.v_lit(s) }
}
/// std::fmt::Display
pub trait VDisplay {
    spec fn disp(&self) -> Seq<char>;
    open spec fn disp_req(&self) -> bool { true }
    fn v_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>)
        requires self.disp_req(),
        ensures final(f).sink_ok() == old(f).sink_ok(), old(f).sink_ok() ==> r.is_ok(),
            r.is_ok() ==> final(f)@ == old(f)@ + self.disp();
}
impl<T: VDisplay + ?Sized> VDisplay for &T {
    open spec fn disp(&self) -> Seq<char> { (**self).disp() }
    open spec fn disp_req(&self) -> bool { (**self).disp_req() }
    fn v_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { (**self).v_fmt(f) }
}
impl VDisplay for str {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() }
}
impl VDisplay for String {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() }
}
/// Decimal digits of a number.
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}
pub open spec fn digit(n: nat) -> char { (('0' as u8 as int + n as int) as u8) as char }
impl VDisplay for usize {
    open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() }
}
impl VDisplay for &mut usize {
    open spec fn disp(&self) -> Seq<char> { dec(**self as nat) }
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() }
}
impl VDisplay for u32 {
    open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() }
}
/// Writing to a String never fails (std).
pub trait VStrWrite {
    fn v_lit(&mut self, s: &str) -> (r: Result<(), FmtError>);
    fn v_arg<D: VDisplay + ?Sized>(&mut self, d: &D) -> (r: Result<(), FmtError>);
    fn v_lit_s(&mut self, s: &str);
    fn v_arg_s<D: VDisplay + ?Sized>(&mut self, d: &D);
    fn v_unknown_s(&mut self);
}
impl VStrWrite for String {
    #[verifier::external_body]
    fn v_lit(&mut self, s: &str) -> (r: Result<(), FmtError>)
        ensures r.is_ok(), final(self)@ == old(self)@ + s@,
    { unimplemented!() }
    #[verifier::external_body]
    fn v_arg<D: VDisplay + ?Sized>(&mut self, d: &D) -> (r: Result<(), FmtError>)
        ensures r.is_ok(), final(self)@ == old(self)@ + d.disp(),
    { unimplemented!() }
    #[verifier::external_body]
    fn v_lit_s(&mut self, s: &str)
        ensures final(self)@ == old(self)@ + s@,
    { unimplemented!() }
    #[verifier::external_body]
    fn v_arg_s<D: VDisplay + ?Sized>(&mut self, d: &D)
        ensures final(self)@ == old(self)@ + d.disp(),
    { unimplemented!() }
    #[verifier::external_body]
    fn v_unknown_s(&mut self) { unimplemented!() }
}
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: std::cmp::Ord + std::marker::Destruct> [std::cmp::min] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == std::cmp::Ordering::Less { b } else { a });
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: std::cmp::Ord + std::marker::Destruct> [std::cmp::max] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == std::cmp::Ordering::Less { a } else { b });
} // mod shim
pub use shim::{HashMap, HashSet};
pub mod fmt { pub use crate::shim::Formatter; pub type Result = core::result::Result<(), crate::shim::FmtError>; }
