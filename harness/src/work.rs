//! Workload generation and conversions between reference and library values.
use crate::driver::Ctx;
use crate::num::{z, Prec, Z};
use crate::refm::{Feat, Tab};
use crate::rng::Rng;
use renplex::input::IOType;
use renplex::math::matrix::Matrix;

/// Kinds of numbers fed to the code under test.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Reg { Int, Disc, Gauss, Wide, Sparse, Axis }
pub const REGS: [Reg; 6] = [Reg::Int, Reg::Disc, Reg::Gauss, Reg::Wide, Reg::Sparse, Reg::Axis];

pub fn reg(r: &mut Rng) -> Reg { r.pick(&REGS) }

pub fn num(r: &mut Rng, g: Reg) -> Z {
    match g {
        Reg::Int => z(r.below(9) as f64 - 4.0, r.below(9) as f64 - 4.0),
        Reg::Disc => { let (m, p) = (r.f(), r.f() * 6.283185307179586); z(m * p.cos(), m * p.sin()) }
        Reg::Gauss => z(r.gauss(), r.gauss()),
        Reg::Wide => { let m = 10f64.powf(r.sf() * 3.0); let p = r.f() * 6.283185307179586; z(m * p.cos(), m * p.sin()) }
        Reg::Sparse => match r.below(5) { 0 | 1 => Z::ZERO, 2 => z(r.sf(), 0.0), 3 => z(-0.0, r.sf()), _ => z(r.sf(), r.sf()) },
        Reg::Axis => match r.below(4) { 0 => z(r.sf(), 0.0), 1 => z(0.0, r.sf()), 2 => z(r.gauss(), r.gauss()), _ => z(r.pick(&[-1.0, 0.0, 1.0]), r.pick(&[-1.0, 0.0, 1.0])) },
    }
}
/// Value already rounded to the element type, so both sides see the same number.
pub fn val<P: Prec>(r: &mut Rng, g: Reg) -> Z { P::rnd(num(r, g)) }
pub fn vals<P: Prec>(r: &mut Rng, g: Reg, n: usize) -> Vec<Z> { (0..n).map(|_| val::<P>(r, g)).collect() }
pub fn tab<P: Prec>(r: &mut Rng, g: Reg, h: usize, w: usize) -> Tab { Tab { r: h, c: w, v: vals::<P>(r, g, h * w) } }

/// Sizes: mostly small, sometimes large.
pub fn dim(r: &mut Rng, small: bool, big: usize) -> usize {
    if small { return r.range(1, 4); }
    match r.below(20) { 0..=12 => r.range(1, 8), 13..=17 => r.range(1, 24.min(big)), _ => r.range(1, big) }
}

/// Sizes of the large stages: around powers of two, or anything up to `cap` with small ones more often.
pub fn large(r: &mut Rng, cap: usize) -> usize {
    let bits = (usize::BITS - cap.leading_zeros()) as usize;
    let n = match r.below(4) {
        0 => (1usize << r.below(bits + 1)) + r.below(3) - 1,
        1 => r.range(1, cap),
        _ => (cap as f64).powf(r.f()).ceil() as usize,
    };
    n.clamp(1, cap)
}
/// Several sizes of which at least one is large, cut down until `cost` is at most `limit`.
pub fn large_sizes<const N: usize>(r: &mut Rng, caps: [usize; N], limit: usize, cost: impl Fn(&[usize; N]) -> usize) -> [usize; N] {
    let lead = r.below(N);
    let mut s = [0; N];
    for i in 0..N { s[i] = if i == lead { large(r, caps[i]).max(caps[i] / 2) } else if r.chance(1, 2) { large(r, caps[i]) } else { r.range(1, caps[i].min(4)) }; }
    while cost(&s) > limit {
        let i = r.below(N);
        if i != lead || s.iter().enumerate().all(|(k, v)| k == lead || *v <= 2) { s[i] = (s[i] * 3 / 4).max(1); }
    }
    s
}
/// A size for the current stage: tiny, ordinary up to `big`, or large up to `huge`.
pub fn size(c: &mut Ctx, big: usize, huge: usize) -> usize { if c.big { large(&mut c.rng, huge) } else { dim(&mut c.rng, c.small, big) } }

pub fn lib_vec<P: Prec>(v: &[Z]) -> Vec<P> { v.iter().map(|x| P::of(*x)).collect() }
pub fn lib_mat<P: Prec>(t: &Tab) -> Matrix<P> { Matrix::from_body(lib_vec::<P>(&t.v), [t.r, t.c]) }
pub fn lib_feat<P: Prec>(f: &Feat) -> IOType<P> {
    match f { Feat::V(v) => IOType::Scalar(lib_vec(v)), Feat::M(m) => IOType::Matrix(m.iter().map(lib_mat).collect()) }
}
pub fn ref_vec<P: Prec>(v: &[P]) -> Vec<Z> { v.iter().map(|x| x.z()).collect() }
pub fn ref_mat<P: Prec>(m: &Matrix<P>) -> Tab { let s = m.get_shape(); Tab { r: s[0], c: s[1], v: ref_vec(m.get_body()) } }
pub fn ref_feat<P: Prec>(f: &IOType<P>) -> Feat {
    match f { IOType::Scalar(v) => Feat::V(ref_vec(v)), IOType::Matrix(m) => Feat::M(m.iter().map(ref_mat).collect()) }
}
/// Bit pattern of a feature, including its shape.
pub fn bits_of<P: Prec>(f: &IOType<P>) -> Vec<u64> {
    let mut o = Vec::new();
    match f {
        IOType::Scalar(v) => { o.push(1); for x in v { let b = x.bits(); o.push(b.0); o.push(b.1); } }
        IOType::Matrix(m) => { o.push(2); for t in m { o.extend(t.get_shape().iter().map(|x| *x as u64)); for x in t.get_body() { let b = x.bits(); o.push(b.0); o.push(b.1); } } }
    }
    o
}
/// (number of maps or 0, shapes...) of a library feature
pub fn shape_of<P: Prec>(f: &IOType<P>) -> Vec<usize> {
    match f {
        IOType::Scalar(v) => vec![0, v.len()],
        IOType::Matrix(m) => { let mut o = vec![1, m.len()]; for t in m { o.extend(t.get_shape()); o.push(t.get_body().len()); } o }
    }
}
pub fn shape_ref(f: &Feat) -> Vec<usize> {
    match f {
        Feat::V(v) => vec![0, v.len()],
        Feat::M(m) => { let mut o = vec![1, m.len()]; for t in m { o.extend([t.r, t.c, t.v.len()]); } o }
    }
}

/// A directory of its own for a case that touches files; removed with everything in it.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("verif-scratch-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir(&d).expect("scratch directory");
        Scratch(d)
    }
    pub fn path(&self, name: &str) -> String { self.0.join(name).to_str().unwrap().to_string() }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}
