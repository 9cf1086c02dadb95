//! Scalars the library is driven with: plain numbers, and `Sim`, an `f64` each of
//! whose operations is a seam.
use crate::seam::{seam, Kind};
use float_next_after::NextAfter;
use geo::kernels::{HasKernel, RobustKernel};
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::fmt;
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy, Default)]
pub struct Sim(pub f64);

#[inline]
fn s() {
    seam(Kind::Scalar)
}

impl fmt::Debug for Sim {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        seam(Kind::Debug);
        self.0.fmt(f)
    }
}
impl PartialEq for Sim {
    fn eq(&self, o: &Self) -> bool {
        s();
        self.0 == o.0
    }
}
impl PartialOrd for Sim {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        s();
        self.0.partial_cmp(&o.0)
    }
}
macro_rules! op {
    ($($t:ident $m:ident),*) => {$(
        impl $t for Sim {
            type Output = Sim;
            fn $m(self, o: Sim) -> Sim { s(); Sim($t::$m(self.0, o.0)) }
        }
    )*};
}
op!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl Neg for Sim {
    type Output = Sim;
    fn neg(self) -> Sim {
        s();
        Sim(-self.0)
    }
}
impl Zero for Sim {
    fn zero() -> Self {
        Sim(0.)
    }
    fn is_zero(&self) -> bool {
        s();
        self.0 == 0.
    }
}
impl One for Sim {
    fn one() -> Self {
        Sim(1.)
    }
}
impl Num for Sim {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(x: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        f64::from_str_radix(x, r).map(Sim)
    }
}
impl ToPrimitive for Sim {
    fn to_i64(&self) -> Option<i64> {
        s();
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        s();
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        s();
        Some(self.0)
    }
    fn to_usize(&self) -> Option<usize> {
        s();
        self.0.to_usize()
    }
}
impl NumCast for Sim {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        s();
        n.to_f64().map(Sim)
    }
}
macro_rules! f1 { ($($m:ident)*) => {$( fn $m(self) -> Sim { s(); Sim(Float::$m(self.0)) } )*}; }
macro_rules! f2 { ($($m:ident)*) => {$( fn $m(self, o: Sim) -> Sim { s(); Sim(Float::$m(self.0, o.0)) } )*}; }
macro_rules! c0 { ($($m:ident)*) => {$( fn $m() -> Sim { Sim(<f64 as Float>::$m()) } )*}; }
macro_rules! b1 { ($($m:ident)*) => {$( fn $m(self) -> bool { s(); Float::$m(self.0) } )*}; }
impl Float for Sim {
    c0!(nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon);
    b1!(is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative);
    f1!(floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    f2!(powf log max min abs_sub hypot atan2);
    fn classify(self) -> FpCategory {
        s();
        self.0.classify()
    }
    fn mul_add(self, a: Sim, b: Sim) -> Sim {
        s();
        Sim(Float::mul_add(self.0, a.0, b.0))
    }
    fn powi(self, n: i32) -> Sim {
        s();
        Sim(self.0.powi(n))
    }
    fn sin_cos(self) -> (Sim, Sim) {
        s();
        let (a, b) = self.0.sin_cos();
        (Sim(a), Sim(b))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        s();
        Float::integer_decode(self.0)
    }
}
impl HasKernel for Sim {
    type Ker = RobustKernel;
}
impl NextAfter<Sim> for Sim {
    fn next_after(self, y: Sim) -> Sim {
        s();
        Sim(NextAfter::next_after(self.0, y.0))
    }
}

/// What the harness needs of any scalar.
pub trait Coord: geo::GeoNum + 'static {
    fn of(v: f64) -> Self;
    fn raw(self) -> f64;
}
impl Coord for f64 {
    fn of(v: f64) -> f64 {
        v
    }
    fn raw(self) -> f64 {
        self
    }
}
macro_rules! coord {
    ($($t:ident)*) => {$(
        impl Coord for $t {
            fn of(v: f64) -> $t {
                v as $t
            }
            fn raw(self) -> f64 {
                self as f64
            }
        }
    )*};
}
coord!(i16 i32 i64 f32);
impl Coord for Sim {
    fn of(v: f64) -> Sim {
        Sim(v)
    }
    fn raw(self) -> f64 {
        self.0
    }
}
pub trait FCoord: Coord + geo_crossings::Float {}
impl FCoord for f64 {}
impl FCoord for f32 {}
impl FCoord for Sim {}
