//! The four scalar types, with exact value alphabets and bitwise comparison (all NaNs equal).
use householder::types::{c32, c64, HScalar};
use householder::*;
use rand::RngCore;
use rand_distr::{Distribution, StandardNormal};
use std::fmt::Debug;

pub trait Sc: HScalar + Copy + Debug + 'static {
    const NAME: &'static str;
    const COMPLEX: bool;
    fn of(re: f64, im: f64) -> Self;
    fn parts(self) -> (f64, f64);
    /// Bits of the two components, NaNs canonicalised.
    fn bits(self) -> (u64, u64);
    fn add_(self, o: Self) -> Self;
    fn mul_(self, o: Self) -> Self;
    /// The library's random filling.
    fn fill<L: LayoutType, D: DataContainerMut<Item = Self>, RS: SizeIdentifier, CS: SizeIdentifier>(
        m: &mut GenericBaseMatrixMut<Self, L, D, RS, CS>, rng: &mut dyn RngCore,
    );
    /// What one element of a random filling has to be, straight from the distribution.
    fn sample(rng: &mut dyn RngCore) -> Self;
    fn same(self, o: Self) -> bool {
        self.bits() == o.bits()
    }
    /// The k-th of a family of pairwise distinct values, exact in every type for k < 2^20.
    fn tag(k: usize) -> Self {
        Self::of((k + 1) as f64, -((k + 2) as f64) / 2.0)
    }
    fn sentinel() -> Self {
        Self::of(-123456.5, 77.25)
    }
    fn zero_() -> Self {
        Self::of(0.0, 0.0)
    }
}
fn b64(x: f64) -> u64 {
    if x.is_nan() {
        u64::MAX
    } else {
        x.to_bits()
    }
}
macro_rules! real {
    ($t:ty, $n:expr) => {
        impl Sc for $t {
            const NAME: &'static str = $n;
            const COMPLEX: bool = false;
            fn of(re: f64, _im: f64) -> Self {
                re as $t
            }
            fn parts(self) -> (f64, f64) {
                (self as f64, 0.0)
            }
            fn bits(self) -> (u64, u64) {
                (b64(self as f64), 0)
            }
            fn add_(self, o: Self) -> Self {
                self + o
            }
            fn mul_(self, o: Self) -> Self {
                self * o
            }
            fn fill<L: LayoutType, D: DataContainerMut<Item = Self>, RS: SizeIdentifier, CS: SizeIdentifier>(
                m: &mut GenericBaseMatrixMut<Self, L, D, RS, CS>, mut rng: &mut dyn RngCore,
            ) {
                m.fill_from_rand_standard_normal(&mut rng)
            }
            fn sample(rng: &mut dyn RngCore) -> Self {
                Distribution::<$t>::sample(&StandardNormal, rng)
            }
        }
    };
}
macro_rules! cplx {
    ($t:ty, $r:ty, $n:expr) => {
        impl Sc for $t {
            const NAME: &'static str = $n;
            const COMPLEX: bool = true;
            fn of(re: f64, im: f64) -> Self {
                <$t>::new(re as $r, im as $r)
            }
            fn parts(self) -> (f64, f64) {
                (self.re as f64, self.im as f64)
            }
            fn bits(self) -> (u64, u64) {
                (b64(self.re as f64), b64(self.im as f64))
            }
            fn add_(self, o: Self) -> Self {
                self + o
            }
            fn mul_(self, o: Self) -> Self {
                self * o
            }
            fn fill<L: LayoutType, D: DataContainerMut<Item = Self>, RS: SizeIdentifier, CS: SizeIdentifier>(
                m: &mut GenericBaseMatrixMut<Self, L, D, RS, CS>, mut rng: &mut dyn RngCore,
            ) {
                m.fill_from_rand_standard_normal(&mut rng)
            }
            fn sample(rng: &mut dyn RngCore) -> Self {
                let re: $r = StandardNormal.sample(rng);
                let im: $r = StandardNormal.sample(rng);
                <$t>::new(re, im)
            }
        }
    };
}
real!(f32, "f32");
real!(f64, "f64");
cplx!(c32, f32, "c32");
cplx!(c64, f64, "c64");

/// Runs `$body` with `$T` bound to each scalar type.
#[macro_export]
macro_rules! each_scalar {
    ($T:ident, $body:block) => {{
        {
            type $T = f64;
            $body
        }
        {
            type $T = f32;
            $body
        }
        {
            type $T = householder::types::c32;
            $body
        }
        {
            type $T = householder::types::c64;
            $body
        }
    }};
}
