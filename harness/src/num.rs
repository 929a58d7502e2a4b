use std::ops::{Add, Div, Mul, Neg, Sub};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::{BasicOperations, Complex};

/// Reference complex number (double precision, own arithmetic).
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Z { pub re: f64, pub im: f64 }

pub const fn z(re: f64, im: f64) -> Z { Z { re, im } }

impl Z {
    pub const ZERO: Z = z(0.0, 0.0);
    pub const ONE: Z = z(1.0, 0.0);
    pub const I: Z = z(0.0, 1.0);
    pub fn conj(self) -> Z { z(self.re, -self.im) }
    pub fn n2(self) -> f64 { self.re * self.re + self.im * self.im }
    pub fn abs(self) -> f64 { self.re.hypot(self.im) }
    pub fn arg(self) -> f64 { self.im.atan2(self.re) }
    pub fn s(self, k: f64) -> Z { z(self.re * k, self.im * k) }
    pub fn finite(self) -> bool { self.re.is_finite() && self.im.is_finite() }
    pub fn dist(self, o: Z) -> f64 { (self - o).abs() }
}
impl Add for Z { type Output = Z; fn add(self, o: Z) -> Z { z(self.re + o.re, self.im + o.im) } }
impl Sub for Z { type Output = Z; fn sub(self, o: Z) -> Z { z(self.re - o.re, self.im - o.im) } }
impl Mul for Z { type Output = Z; fn mul(self, o: Z) -> Z { z(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re) } }
impl Neg for Z { type Output = Z; fn neg(self) -> Z { z(-self.re, -self.im) } }
impl Div for Z { type Output = Z; fn div(self, o: Z) -> Z {
    // Smith's method: never forms |o|^2
    if o.re.abs() >= o.im.abs() {
        let r = o.im / o.re; let d = o.re + o.im * r;
        z((self.re + self.im * r) / d, (self.im - self.re * r) / d)
    } else {
        let r = o.re / o.im; let d = o.re * r + o.im;
        z((self.re * r + self.im) / d, (self.im * r - self.re) / d)
    }
} }
impl std::iter::Sum for Z { fn sum<I: Iterator<Item = Z>>(it: I) -> Z { it.fold(Z::ZERO, |a, b| a + b) } }

/// The two element types under test.
pub trait Prec: Complex + BasicOperations<Self> + PartialEq + Copy {
    const NAME: &'static str;
    const EPS: f64;
    const TINY: f64;
    const HUGE: f64;
    const IS32: bool;
    fn z(self) -> Z;
    fn of(v: Z) -> Self;
    fn bits(self) -> (u64, u64);
    fn fl(r: Self::Precision) -> f64;
    fn lf(r: f64) -> Self::Precision;
    fn flbits(r: Self::Precision) -> u64;
    /// Rounds a reference value to this precision.
    fn rnd(v: Z) -> Z { Self::of(v).z() }
}
impl Prec for Cf32 {
    const NAME: &'static str = "Cf32";
    const EPS: f64 = f32::EPSILON as f64;
    const TINY: f64 = f32::MIN_POSITIVE as f64;
    const HUGE: f64 = f32::MAX as f64;
    const IS32: bool = true;
    fn z(self) -> Z { z(self.x as f64, self.y as f64) }
    fn of(v: Z) -> Self { Cf32 { x: v.re as f32, y: v.im as f32 } }
    fn bits(self) -> (u64, u64) { (self.x.to_bits() as u64, self.y.to_bits() as u64) }
    fn fl(r: f32) -> f64 { r as f64 }
    fn lf(r: f64) -> f32 { r as f32 }
    fn flbits(r: f32) -> u64 { r.to_bits() as u64 }
}
impl Prec for Cf64 {
    const NAME: &'static str = "Cf64";
    const EPS: f64 = f64::EPSILON;
    const TINY: f64 = f64::MIN_POSITIVE;
    const HUGE: f64 = f64::MAX;
    const IS32: bool = false;
    fn z(self) -> Z { z(self.x, self.y) }
    fn of(v: Z) -> Self { Cf64 { x: v.re, y: v.im } }
    fn bits(self) -> (u64, u64) { (self.x.to_bits(), self.y.to_bits()) }
    fn fl(r: f64) -> f64 { r }
    fn lf(r: f64) -> f64 { r }
    fn flbits(r: f64) -> u64 { r.to_bits() }
}
