//! C08: matrix and vector arithmetic.
use monitors::driver::{main as run, Plan};
use monitors::elem::Elem;
use monitors::num::Z;
use monitors::work::*;
use monitors::{Ctx, Stage};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::{Matrix, SliceOps, SliceToMatrix};

fn same<E: Elem>(a: &[E], b: &[E]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bits() == y.bits()) }
fn judge<E: Elem>(c: &mut Ctx, what: &'static str, got: &[E], want: &[Z], tol: &[f64]) {
    c.check(got.len() == want.len(), || format!("{} {what}: {} results, expected {}", E::NAME, got.len(), want.len()));
    for i in 0..want.len() {
        c.within(what, got[i].z().dist(want[i]), tol[i], || format!("{} {what}: entry {i} of {} = {:?}, expected {:?}", E::NAME, want.len(), got[i].z(), want[i]));
    }
    c.count(what, 1);
}
fn untouched<E: Elem>(c: &mut Ctx, what: &str, now: &Matrix<E>, body: &[E], shape: [usize; 2]) {
    c.check(same(now.get_body(), body) && now.get_shape() == shape, || format!("{} {what} changed its operand", E::NAME));
}

fn arith<E: Elem>(c: &mut Ctx) {
    let (r, w) = if c.big { let [r, w] = large_sizes(&mut c.rng, [600, 600], 30_000, |s| s[0] * s[1]); (r, w) } else { (dim(&mut c.rng, c.small, 60), dim(&mut c.rng, c.small, 60)) };
    let g = reg(&mut c.rng);
    let exact = g == Reg::Int;
    let a: Vec<E> = E::gen(&mut c.rng, g, r * w);
    let m = Matrix::from_body(a.clone(), [r, w]);
    let za: Vec<Z> = a.iter().map(|x| x.z()).collect();
    let eps = E::EPS;
    let t = |v: f64| if exact { 0.0 } else { v };

    // matrix times vector, both forms
    let v: Vec<E> = E::gen(&mut c.rng, g, w);
    let zv: Vec<Z> = v.iter().map(|x| x.z()).collect();
    let want: Vec<Z> = (0..r).map(|i| (0..w).map(|j| za[i * w + j] * zv[j]).sum()).collect();
    let tol: Vec<f64> = (0..r).map(|i| t(4.0 * eps * (w as f64 + 3.0) * (0..w).map(|j| za[i * w + j].abs() * zv[j].abs()).sum::<f64>())).collect();
    let got = c.ok("mul_vec", || m.mul_vec(v.clone()));
    judge(c, "matrix times vector", &got, &want, &tol);
    let got = c.ok("mul_slice", || m.mul_slice(&v));
    judge(c, "matrix times slice", &got, &want, &tol);
    untouched(c, "matrix times vector", &m, &a, [r, w]);

    // matrix sum
    let b: Vec<E> = E::gen(&mut c.rng, g, r * w);
    let zb: Vec<Z> = b.iter().map(|x| x.z()).collect();
    let mb = Matrix::from_body(b.clone(), [r, w]);
    let mut s = m.clone();
    c.ok("add_mut", || s.add_mut(&mb));
    let want: Vec<Z> = za.iter().zip(&zb).map(|(x, y)| *x + *y).collect();
    let tol: Vec<f64> = za.iter().zip(&zb).map(|(x, y)| t(eps * (x.abs() + y.abs()))).collect();
    judge(c, "matrix sum", s.get_body(), &want, &tol);
    c.check(s.get_shape() == [r, w], || "shape of a sum".into());
    untouched(c, "matrix sum", &mb, &b, [r, w]);
    // with an empty operand
    let mut e: Matrix<E> = if c.rng.chance(1, 2) { Matrix::new() } else { let mut x = Matrix::from_body(vec![a[0]], [1, 1]); let _ = x.del_row(0); x };
    c.ok("add_mut to an empty matrix", || e.add_mut(&m));
    untouched(c, "sum with an empty left operand", &e, &a, [r, w]);
    let cap = e.get_capacity().to_vec();
    c.check(cap[0] >= r && cap[1] >= w, || format!("sum with an empty left operand of shape {r}x{w} has room for {cap:?}"));
    c.ok("add_mut of an empty matrix", || e.add_mut(&Matrix::new()));
    untouched(c, "sum with an empty right operand", &e, &a, [r, w]);
    c.count("sums with an empty matrix", 2);

    // scalars
    let k: E = E::gen(&mut c.rng, g, 1)[0];
    let zk = k.z();
    let mut s = m.clone();
    c.ok("add_mut_scalar", || s.add_mut_scalar(k));
    let want: Vec<Z> = za.iter().map(|x| *x + zk).collect();
    let tol: Vec<f64> = za.iter().map(|x| t(eps * (x.abs() + zk.abs()))).collect();
    judge(c, "matrix plus scalar", s.get_body(), &want, &tol);
    let mut s = m.clone();
    c.ok("mul_mut_scalar", || s.mul_mut_scalar(k));
    let want: Vec<Z> = za.iter().map(|x| *x * zk).collect();
    let tol: Vec<f64> = za.iter().map(|x| t(6.0 * eps * x.abs() * zk.abs())).collect();
    judge(c, "matrix times scalar", s.get_body(), &want, &tol);
    let mut sv = a.clone();
    c.ok("slice mul_mut_scalar", || sv.as_mut_slice().mul_mut_scalar(k));
    judge(c, "slice times scalar", &sv, &want, &tol);
    if zk.abs() > 1e-6 {
        let mut s = m.clone();
        c.ok("div_mut_scalar", || s.div_mut_scalar(k));
        let want: Vec<Z> = za.iter().map(|x| *x / zk).collect();
        let tol: Vec<f64> = za.iter().map(|x| 12.0 * eps * x.abs() / zk.abs()).collect();
        judge(c, "matrix over scalar", s.get_body(), &want, &tol);
        let mut sv = a.clone();
        c.ok("slice div_mut_scalar", || sv.as_mut_slice().div_mut_scalar(k));
        judge(c, "slice over scalar", &sv, &want, &tol);
    }

    // slices
    let want: Vec<Z> = za.iter().zip(&zb).map(|(x, y)| *x + *y).collect();
    let tol: Vec<f64> = za.iter().zip(&zb).map(|(x, y)| t(eps * (x.abs() + y.abs()))).collect();
    let got = c.ok("add_slice", || a.as_slice().add_slice(&b));
    judge(c, "slice sum", &got, &want, &tol);
    let mut s = a.clone();
    c.ok("add_slice_mut", || s.as_mut_slice().add_slice_mut(&b));
    judge(c, "slice sum in place", &s, &want, &tol);
    let want: Vec<Z> = za.iter().zip(&zb).map(|(x, y)| *x * *y).collect();
    let tol: Vec<f64> = za.iter().zip(&zb).map(|(x, y)| t(6.0 * eps * x.abs() * y.abs())).collect();
    let got = c.ok("slice product", || SliceOps::mul_slice(a.as_slice(), &b));
    judge(c, "slice product", &got, &want, &tol);
    let mut s = a.clone();
    c.ok("mul_slice_mut", || s.as_mut_slice().mul_slice_mut(&b));
    judge(c, "slice product in place", &s, &want, &tol);
    let n = a.len() as f64;
    let sp = c.call("scalar_prod", || a.as_slice().scalar_prod(&b));
    let mag: f64 = za.iter().zip(&zb).map(|(x, y)| x.abs() * y.abs()).sum();
    judge(c, "scalar product", &[sp], &[want.iter().copied().sum()], &[t(4.0 * eps * (n + 3.0) * mag)]);
    let tm = c.ok("to_matrix", || a.as_slice().to_matrix([r, w]));
    untouched(c, "to_matrix", &tm, &a, [r, w]);
    c.sig(&[E::ID, r as u64, w as u64, g as u64]);
    c.sample(|| format!("{} all operations on {r}x{w}, {g:?} entries", E::NAME));
}

fn mismatch<E: Elem>(c: &mut Ctx) {
    let (r, w) = if c.big { let [r, w] = large_sizes(&mut c.rng, [300, 300], 5_000, |s| s[0] * s[1]); (r, w) } else { (c.rng.range(1, 9), c.rng.range(1, 9)) };
    let (r2, w2) = match c.rng.below(4) { 0 => (w, r), 1 => (r, w + 1), 2 => (r + 1, w), _ => (c.rng.range(1, 9), c.rng.range(1, 9)) };
    let a: Vec<E> = E::gen(&mut c.rng, Reg::Gauss, r * w);
    let b: Vec<E> = E::gen(&mut c.rng, Reg::Gauss, r2 * w2);
    let (m, mb) = (Matrix::from_body(a.clone(), [r, w]), Matrix::from_body(b.clone(), [r2, w2]));
    if (r, w) != (r2, w2) {
        let mut s = m.clone();
        c.err(&format!("adding {r2}x{w2} to {r}x{w}"), || s.add_mut(&mb));
        untouched(c, "refused sum", &s, &a, [r, w]);
        untouched(c, "refused sum", &mb, &b, [r2, w2]);
    }
    let n = c.rng.pick(&[0, w + 1, w.saturating_sub(1), c.idx as usize % 12]);
    if n != w {
        let v: Vec<E> = E::gen(&mut c.rng, Reg::Gauss, n);
        c.err(&format!("{r}x{w} times a vector of {n}"), || m.mul_vec(v.clone()));
        c.err(&format!("{r}x{w} times a slice of {n}"), || m.mul_slice(&v));
    }
    if a.len() != b.len() {
        let mut s = a.clone();
        c.err("adding slices of different length", || s.as_mut_slice().add_slice_mut(&b));
        c.check(same(&s, &a), || "refused slice sum changed its operand".into());
        c.err("adding slices of different length", || a.as_slice().add_slice(&b));
        c.err("multiplying slices of different length", || s.as_mut_slice().mul_slice_mut(&b));
        c.check(same(&s, &a), || "refused slice product changed its operand".into());
        c.err("multiplying slices of different length", || SliceOps::mul_slice(a.as_slice(), &b));
        c.err("reshaping to a different number of entries", || a.as_slice().to_matrix([r2, w2]));
    }
    c.count("incompatible operands", 1);
    c.sig(&[99, E::ID, r as u64, w as u64, r2 as u64, w2 as u64]);
}

fn f1(c: &mut Ctx) { match c.idx % 4 { 0 => arith::<f32>(c), 1 => arith::<f64>(c), 2 => arith::<Cf32>(c), _ => arith::<Cf64>(c) } }
fn f2(c: &mut Ctx) { match c.idx % 4 { 0 => mismatch::<f32>(c), 1 => mismatch::<f64>(c), 2 => mismatch::<Cf32>(c), _ => mismatch::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "arithmetic", quick: 150_000, thorough: 1_200_000, f: f1 },
    Stage { name: "mismatch", quick: 50_000, thorough: 250_000, f: f2 },
    Stage { name: "large-arithmetic", quick: 5_000, thorough: 40_000, f: f1 },
    Stage { name: "large-mismatch", quick: 5_000, thorough: 25_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C08",
        rule: "distinct (element type, shape, kind of entries) on which every operation was compared, plus distinct incompatible pairs",
        assumptions: &["sizes from 1 to 600 per axis, up to 30000 entries"],
        stages: STAGES,
        must_observe: &["matrix times vector", "matrix times slice", "matrix sum", "sums with an empty matrix", "matrix plus scalar", "matrix times scalar", "matrix over scalar", "slice times scalar", "slice over scalar", "slice sum", "slice sum in place", "slice product", "slice product in place", "scalar product", "incompatible operands"],
    });
}
