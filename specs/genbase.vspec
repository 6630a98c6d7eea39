// Shared by the generation contracts: random numbers, the strategy trait.
//# prelude
use crate::shim::*;
pub mod rand {
    use vstd::prelude::*;
    /// Whether the function under verification may draw fresh entropy. Nothing implies it.
    pub uninterp spec fn entropy() -> bool;
    pub uninterp spec fn rng_of(seed: Seq<u8>) -> int;
    pub uninterp spec fn rng_fill(state: int, n: nat) -> (int, Seq<u8>);
    /// What drawing below `n` from a generator in this state gives, for each width of the drawn type.
    pub uninterp spec fn rng_range(width: int, state: int, n: nat) -> (int, nat);
    /// `k` is drawn uniformly below `n` by a generator that goes from state `s0` to `s1`.
    pub open spec fn draws(s0: int, s1: int, n: nat, k: nat) -> bool { k < n && exists|w: int| (s1, k) == #[trigger] rng_range(w, s0, n) }
    #[verifier::external_body]
    pub struct StdRng { _p: u8 }
    impl View for StdRng { type V = int; uninterp spec fn view(&self) -> int; }
    pub trait SeedableRng: Sized { fn from_seed(seed: [u8; 32]) -> Self; }
    impl SeedableRng for StdRng {
        #[verifier::external_body]
        fn from_seed(seed: [u8; 32]) -> (r: Self) ensures r@ == rng_of(seed@), { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct ThreadRng { _p: u8 }
    #[verifier::external_body]
    pub fn rng() -> ThreadRng requires entropy(), { unimplemented!() }
    pub trait Rng { fn fill(&mut self, dest: &mut [u8; 32]); }
    impl Rng for ThreadRng {
        #[verifier::external_body]
        fn fill(&mut self, dest: &mut [u8; 32]) { unimplemented!() }
    }
    impl Rng for StdRng {
        #[verifier::external_body]
        fn fill(&mut self, dest: &mut [u8; 32]) ensures (final(self)@, final(dest)@) == rng_fill(old(self)@, old(dest)@.len()), { unimplemented!() }
    }
    /// `random_range` over the integer types the crate draws from; panics on an empty range.
    pub trait VRange<T> {
        spec fn nonempty(r: core::ops::Range<T>) -> bool;
        fn random_range(&mut self, r: core::ops::Range<T>) -> T requires Self::nonempty(r);
    }
    impl VRange<usize> for StdRng {
        open spec fn nonempty(r: core::ops::Range<usize>) -> bool { r.start < r.end }
        #[verifier::external_body]
        fn random_range(&mut self, r: core::ops::Range<usize>) -> (v: usize)
            ensures r.start <= v < r.end, (final(self)@, (v - r.start) as nat) == rng_range(0, old(self)@, (r.end - r.start) as nat),
                draws(old(self)@, final(self)@, (r.end - r.start) as nat, (v - r.start) as nat),
        { unimplemented!() }
    }
    impl VRange<u32> for StdRng {
        open spec fn nonempty(r: core::ops::Range<u32>) -> bool { r.start < r.end }
        #[verifier::external_body]
        fn random_range(&mut self, r: core::ops::Range<u32>) -> (v: u32)
            ensures r.start <= v < r.end, (final(self)@, (v - r.start) as nat) == rng_range(32, old(self)@, (r.end - r.start) as nat),
                draws(old(self)@, final(self)@, (r.end - r.start) as nat, (v - r.start) as nat),
        { unimplemented!() }
    }
    impl VRange<u64> for StdRng {
        open spec fn nonempty(r: core::ops::Range<u64>) -> bool { r.start < r.end }
        #[verifier::external_body]
        fn random_range(&mut self, r: core::ops::Range<u64>) -> (v: u64)
            ensures r.start <= v < r.end, (final(self)@, (v - r.start) as nat) == rng_range(64, old(self)@, (r.end - r.start) as nat),
                draws(old(self)@, final(self)@, (r.end - r.start) as nat, (v - r.start) as nat),
        { unimplemented!() }
    }
}
/// The address of a value, as an identity for it.
pub uninterp spec fn addr_of<T>(x: T) -> *const T;
#[verifier::external_body]
pub fn v_addr<T>(x: &T) -> (r: *const T) ensures r == addr_of(*x), { unimplemented!() }
//# fn production::Production::len
@spec
ensures r == self.rhs@.len(),
//# fn production::Production::is_empty
@spec
ensures r == (self.rhs@.len() == 0),
//# fn production::Production::get_expression
@spec
ensures r == (if $0 < self.rhs@.len() { Some(&self.rhs@[$0 as int]) } else { None }),
//# module generation
use crate::term::Term;
use crate::expression::Expression;
use crate::production::Production;
use crate::rand;
use crate::rand::*;
//# module grammar
use crate::generation::GenerationStrategy;
use crate::generation::RandomWalk;
use crate::rand;
use crate::rand::*;
//# prelude
impl VDisplay for Production {
    uninterp spec fn disp(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() }
}
