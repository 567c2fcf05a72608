//! Contract of the `rand` API used by trin: every value is unconstrained within its documented
//! range; sampling from an empty range panics.
use std::ops::{Bound, RangeBounds};

pub trait RngCore {
    fn next_u32(&mut self) -> u32 {
        nd::any()
    }
    fn next_u64(&mut self) -> u64 {
        nd::any()
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        // At most 64 bytes are ever requested; drawn from one unconstrained block.
        let block: [u8; 64] = nd::bytes();
        let n = dst.len();
        assert!(n <= 64, "model capacity exceeded");
        dst.copy_from_slice(&block[..n]);
    }
}

pub trait Standard: Sized {
    fn draw() -> Self;
}
macro_rules! std_ints {
    ($($t:ty),*) => {$(
        impl Standard for $t { fn draw() -> Self { nd::any() } }
        impl Uniform for $t {
            fn between(lo: Bound<&Self>, hi: Bound<&Self>) -> Self {
                let v: $t = nd::any();
                let lo_ok = match lo { Bound::Included(a) => v >= *a, Bound::Excluded(a) => v > *a, Bound::Unbounded => true };
                let hi_ok = match hi { Bound::Included(a) => v <= *a, Bound::Excluded(a) => v < *a, Bound::Unbounded => true };
                // Natively a draw outside the range is folded into it instead of being discarded.
                #[cfg(not(kani))]
                if !(lo_ok && hi_ok) {
                    let lo = match lo { Bound::Included(a) => *a, Bound::Excluded(a) => *a + 1, Bound::Unbounded => <$t>::MIN };
                    let hi = match hi { Bound::Included(a) => *a, Bound::Excluded(a) => *a - 1, Bound::Unbounded => <$t>::MAX };
                    let width = hi.wrapping_sub(lo).wrapping_add(1);
                    return if width > 0 { lo + v.rem_euclid(width) } else { lo };
                }
                nd::assume(lo_ok && hi_ok);
                v
            }
            fn empty(lo: Bound<&Self>, hi: Bound<&Self>) -> bool {
                match (lo, hi) {
                    (Bound::Included(a), Bound::Included(b)) => a > b,
                    (Bound::Included(a), Bound::Excluded(b)) => a >= b,
                    _ => false,
                }
            }
        }
    )*};
}
pub trait Uniform: Sized {
    fn between(lo: Bound<&Self>, hi: Bound<&Self>) -> Self;
    fn empty(lo: Bound<&Self>, hi: Bound<&Self>) -> bool;
}
std_ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Standard for bool {
    fn draw() -> Self {
        nd::any()
    }
}
impl Standard for f64 {
    fn draw() -> Self {
        let v: u32 = nd::any();
        v as f64 / 4294967296.0
    }
}
impl Standard for f32 {
    fn draw() -> Self {
        let v: u16 = nd::any();
        v as f32 / 65536.0
    }
}
impl<const N: usize> Standard for [u8; N] {
    fn draw() -> Self {
        nd::bytes()
    }
}

pub trait Rng: RngCore {
    fn random<T: Standard>(&mut self) -> T {
        T::draw()
    }
    fn random_range<T: Uniform, R: RangeBounds<T>>(&mut self, r: R) -> T {
        assert!(!T::empty(r.start_bound(), r.end_bound()), "cannot sample empty range");
        T::between(r.start_bound(), r.end_bound())
    }
    fn random_bool(&mut self, p: f64) -> bool {
        assert!((0.0..=1.0).contains(&p));
        let b: bool = nd::any();
        nd::assume(!(p == 0.0 && b) && !(p == 1.0 && !b));
        b
    }
    fn fill(&mut self, dst: &mut [u8]) {
        self.fill_bytes(dst)
    }
    fn gen<T: Standard>(&mut self) -> T {
        T::draw()
    }
    fn gen_range<T: Uniform, R: RangeBounds<T>>(&mut self, r: R) -> T {
        self.random_range(r)
    }
}
impl<T: RngCore + ?Sized> Rng for T {}

#[derive(Clone, Debug, Default)]
pub struct ThreadRng;
impl RngCore for ThreadRng {}
impl<T: RngCore + ?Sized> RngCore for &mut T {}
pub fn rng() -> ThreadRng {
    ThreadRng
}
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
pub fn random<T: Standard>() -> T {
    T::draw()
}
pub fn random_range<T: Uniform, R: RangeBounds<T>>(r: R) -> T {
    rng().random_range(r)
}
pub mod rngs {
    pub use super::ThreadRng;
}
pub mod prelude {
    pub use super::seq::*;
    pub use super::{rng, Rng, RngCore};
}
pub mod seq {
    use super::RngCore;
    use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    static FROM: AtomicUsize = AtomicUsize::new(0);
    /// Among how many elements the last choice or shuffle was made, for specifications to look at.
    pub fn last_choice_from() -> usize {
        FROM.swap(0, Relaxed)
    }
    /// `choose`/`choose_multiple`/`shuffle`: an arbitrary element, arbitrary distinct elements, an
    /// arbitrary permutation.
    pub trait IndexedRandom {
        type Item;
        fn choose<R: RngCore + ?Sized>(&self, _: &mut R) -> Option<&Self::Item>;
        fn choose_multiple<'a, R: RngCore + ?Sized>(&'a self, _: &mut R, n: usize) -> std::vec::IntoIter<&'a Self::Item>;
    }
    impl<T> IndexedRandom for [T] {
        type Item = T;
        fn choose<R: RngCore + ?Sized>(&self, _: &mut R) -> Option<&T> {
            if self.is_empty() {
                None
            } else {
                FROM.store(self.len(), Relaxed);
                Some(&self[nd::below(self.len())])
            }
        }
        fn choose_multiple<'a, R: RngCore + ?Sized>(&'a self, _: &mut R, n: usize) -> std::vec::IntoIter<&'a T> {
            let k = if n < self.len() { n } else { self.len() };
            let mut pool: Vec<&'a T> = self.iter().collect();
            let mut out = Vec::with_capacity(k);
            while out.len() < k {
                let j = nd::below(pool.len());
                out.push(pool.swap_remove(j));
            }
            out.into_iter()
        }
    }
    pub trait SliceRandom {
        fn shuffle<R: RngCore + ?Sized>(&mut self, _: &mut R);
    }
    impl<T> SliceRandom for [T] {
        fn shuffle<R: RngCore + ?Sized>(&mut self, _: &mut R) {
            FROM.store(self.len(), Relaxed);
            let mut i = self.len();
            while i > 1 {
                let j = nd::below(i);
                i -= 1;
                self.swap(i, j);
            }
        }
    }
    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: RngCore + ?Sized>(self, _: &mut R) -> Option<Self::Item> {
            let mut v: Vec<Self::Item> = self.collect();
            if v.is_empty() {
                None
            } else {
                FROM.store(v.len(), Relaxed);
                let j = nd::below(v.len());
                Some(v.swap_remove(j))
            }
        }
        fn choose_multiple<R: RngCore + ?Sized>(self, _: &mut R, n: usize) -> Vec<Self::Item> {
            let mut pool: Vec<Self::Item> = self.collect();
            let k = if n < pool.len() { n } else { pool.len() };
            let mut out = Vec::with_capacity(k);
            while out.len() < k {
                let j = nd::below(pool.len());
                out.push(pool.swap_remove(j));
            }
            out
        }
    }
    impl<I: Iterator> IteratorRandom for I {}
}
