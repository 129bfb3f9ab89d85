//! A stand-in for `rand` with the parts of its interface that code like geos-rs uses.
//! Every random choice is taken from a script, so that a caller can enumerate them all.
use std::cell::RefCell;

pub mod control {
    use super::*;
    thread_local! { static S: RefCell<(Vec<u64>, Vec<(u64, u64)>)> = const { RefCell::new((vec![], vec![])) }; }
    /// start an execution that makes these choices first and the first alternative afterwards
    pub fn begin(script: Vec<u64>) { S.with(|s| *s.borrow_mut() = (script, vec![])) }
    thread_local! { static C: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
    /// since it was last asked: was a choice only a sample of its real alternatives (whose chances are then unknown)?
    pub fn coarse() -> bool { C.with(|c| c.replace(false)) }
    pub(crate) fn some(n: u64) -> u64 { C.with(|c| c.set(true)); choose(n) }
    /// the choices made: (number of alternatives, alternative taken)
    pub fn end() -> Vec<(u64, u64)> { S.with(|s| std::mem::take(&mut s.borrow_mut().1)) }
    pub(crate) fn choose(n: u64) -> u64 {
        assert!(n > 0, "cannot sample empty range");
        S.with(|s| {
            let mut s = s.borrow_mut();
            let k = s.1.len();
            let c = s.0.get(k).copied().unwrap_or(0);
            assert!(c < n, "script does not fit the execution");
            s.1.push((n, c));
            c
        })
    }
}
use control::{choose, some};

pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u32() as u8 } }
}
pub trait CryptoRng {}

const FEW: [u64; 4] = [0, 1, 1 << 63, u64::MAX];
macro_rules! gens { ($($n:ident),*) => { $(
    #[derive(Clone, Debug, Default)]
    pub struct $n;
    impl RngCore for $n {
        fn next_u32(&mut self) -> u32 { (FEW[some(4) as usize] >> 32) as u32 }
        fn next_u64(&mut self) -> u64 { FEW[some(4) as usize] }
    }
    impl CryptoRng for $n {}
    impl SeedableRng for $n {}
)* } }
pub trait SeedableRng: Sized + Default {
    fn from_entropy() -> Self { Self::default() }
    fn seed_from_u64(_: u64) -> Self { Self::default() }
    fn from_rng<R: RngCore>(_: R) -> Result<Self, std::fmt::Error> { Ok(Self::default()) }
}
pub mod rngs { use super::*; gens!(ThreadRng, StdRng, SmallRng, OsRng); }
pub use rngs::ThreadRng;
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub fn random<T: Gen>() -> T { T::gen() }

pub trait Gen { fn gen() -> Self; }
impl Gen for bool { fn gen() -> bool { choose(2) == 1 } }
impl Gen for f64 { fn gen() -> f64 { [0.0, 0.25, 0.5, 0.75, 1.0 - f64::EPSILON / 2.0][some(5) as usize] } }
impl Gen for f32 { fn gen() -> f32 { f64::gen() as f32 } }

pub mod distributions { pub mod uniform {
    use super::super::choose;
    pub trait SampleUniform: Sized { fn pick(lo: Self, hi: Self, inclusive: bool) -> Self; }
    pub trait SampleRange<T> { fn pick(self) -> T; }
    impl<T: SampleUniform> SampleRange<T> for std::ops::Range<T> { fn pick(self) -> T { T::pick(self.start, self.end, false) } }
    impl<T: SampleUniform> SampleRange<T> for std::ops::RangeInclusive<T> { fn pick(self) -> T { let (a, b) = self.into_inner(); T::pick(a, b, true) } }
    macro_rules! ints { ($($t:ty),*) => { $(
        impl SampleUniform for $t { fn pick(lo: $t, hi: $t, inc: bool) -> $t {
            let n = hi as i128 - lo as i128 + inc as i128;
            assert!(n > 0, "cannot sample empty range");
            (lo as i128 + choose(n as u64) as i128) as $t
        } }
        impl super::super::Gen for $t { fn gen() -> $t { super::super::FEW[super::super::some(4) as usize] as $t } }
    )* } }
    ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    impl SampleUniform for f64 { fn pick(lo: f64, hi: f64, _: bool) -> f64 { lo + (hi - lo) * <f64 as super::super::Gen>::gen() } }
} }
use distributions::uniform::{SampleRange, SampleUniform};

pub trait Rng: RngCore {
    fn gen<T: Gen>(&mut self) -> T { T::gen() }
    fn gen_range<T: SampleUniform, R: SampleRange<T>>(&mut self, r: R) -> T { r.pick() }
    fn gen_bool(&mut self, p: f64) -> bool { if p == 0.5 { choose(2) == 1 } else { some(2) == 1 } }
}
impl<R: RngCore + ?Sized> Rng for R {}

pub mod seq {
    use super::*;
    pub trait SliceRandom {
        type Item;
        fn shuffle<R: Rng + ?Sized>(&mut self, r: &mut R);
        fn choose<R: Rng + ?Sized>(&self, r: &mut R) -> Option<&Self::Item>;
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn shuffle<R: Rng + ?Sized>(&mut self, _: &mut R) { for i in (1..self.len()).rev() { self.swap(i, choose(i as u64 + 1) as usize) } }
        fn choose<R: Rng + ?Sized>(&self, _: &mut R) -> Option<&T> { if self.is_empty() { None } else { Some(&self[choose(self.len() as u64) as usize]) } }
    }
}
pub mod prelude { pub use super::{random, rngs::*, seq::SliceRandom, thread_rng, CryptoRng, Rng, RngCore, SeedableRng}; }
