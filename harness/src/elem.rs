//! Matrix element types: real and complex, both precisions.
use crate::num::{z, Prec, Z};
use crate::rng::Rng;
use crate::work::{num, Reg};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::BasicOperations;

pub trait Elem: BasicOperations<Self> + Copy {
    const NAME: &'static str;
    const ID: u64;
    const EPS: f64;
    fn z(self) -> Z;
    fn of(v: Z) -> Self;
    fn bits(self) -> (u64, u64);
    fn gen(r: &mut Rng, g: Reg, n: usize) -> Vec<Self> { (0..n).map(|_| Self::of(num(r, g))).collect() }
}
impl Elem for f32 {
    const NAME: &'static str = "f32"; const ID: u64 = 0; const EPS: f64 = f32::EPSILON as f64;
    fn z(self) -> Z { z(self as f64, 0.0) }
    fn of(v: Z) -> f32 { v.re as f32 }
    fn bits(self) -> (u64, u64) { (self.to_bits() as u64, 0) }
}
impl Elem for f64 {
    const NAME: &'static str = "f64"; const ID: u64 = 1; const EPS: f64 = f64::EPSILON;
    fn z(self) -> Z { z(self, 0.0) }
    fn of(v: Z) -> f64 { v.re }
    fn bits(self) -> (u64, u64) { (self.to_bits(), 0) }
}
macro_rules! cx { ($t:ty, $n:expr, $i:expr) => { impl Elem for $t {
    const NAME: &'static str = $n; const ID: u64 = $i; const EPS: f64 = <$t as Prec>::EPS;
    fn z(self) -> Z { Prec::z(self) }
    fn of(v: Z) -> $t { <$t as Prec>::of(v) }
    fn bits(self) -> (u64, u64) { Prec::bits(self) }
} } }
cx!(Cf32, "Cf32", 2);
cx!(Cf64, "Cf64", 3);
