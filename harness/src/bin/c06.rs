//! C06: loss derivatives.
use monitors::driver::{main as run, Plan};
use monitors::num::{z, Prec, Z};
use monitors::refm::{Feat, Tab};
use monitors::work::*;
use monitors::{Ctx, Stage};
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::Complex;
use renplex::opt::ComplexLossFunc as L;

pub trait DForms: Prec {
    fn direct(l: &L, t: &IOType<Self>, p: &IOType<Self>) -> Result<Vec<Self>, String>;
    fn released(l: &L, t: &[Self], p: &[Self]) -> Vec<Self>;
}
impl DForms for Cf32 {
    fn direct(l: &L, t: &IOType<Self>, p: &IOType<Self>) -> Result<Vec<Self>, String> { l.compute_d_cf32(t, p).map_err(|e| format!("{e:?}")) }
    fn released(l: &L, t: &[Self], p: &[Self]) -> Vec<Self> { l.release_dfunc_cf32()(t.iter(), p.iter()) }
}
impl DForms for Cf64 {
    fn direct(l: &L, t: &IOType<Self>, p: &IOType<Self>) -> Result<Vec<Self>, String> { l.compute_d_cf64(t, p).map_err(|e| format!("{e:?}")) }
    fn released(l: &L, t: &[Self], p: &[Self]) -> Vec<Self> { l.release_dfunc_cf64()(t.iter(), p.iter()) }
}

fn split(c: &mut Ctx, v: &[Z]) -> Feat {
    let n = v.len();
    let divs: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
    let per = n / c.rng.pick(&divs);
    let d2: Vec<usize> = (1..=per).filter(|d| per % d == 0).collect();
    let h = c.rng.pick(&d2);
    Feat::M(v.chunks(per).map(|ch| Tab { r: h, c: per / h, v: ch.to_vec() }).collect())
}

/// d/dp of -sum t ln softmax(|p|^2): (sum(t) * softmax_k - t_k) * conj(p_k)
fn ce_grad(t: &[Z], p: &[Z]) -> Vec<Z> {
    let m = p.iter().map(|v| v.n2()).fold(0.0, f64::max);
    let e: Vec<f64> = p.iter().map(|v| (v.n2() - m).exp()).collect();
    let s: f64 = e.iter().sum();
    let ts: f64 = t.iter().map(|v| v.re).sum();
    p.iter().enumerate().map(|(k, p)| p.conj().s(ts * e[k] / s - t[k].re)).collect()
}

fn derivs<P: DForms>(c: &mut Ctx) {
    let n = if c.big { large(&mut c.rng, 5000) } else if c.small { c.rng.range(1, 5) } else { match c.rng.below(8) { 0 => 1, 1 => c.rng.range(50, 300), _ => c.rng.range(1, 24) } };
    let (g1, g2) = (reg(&mut c.rng), reg(&mut c.rng));
    let t = vals::<P>(&mut c.rng, g1, n);
    let p = vals::<P>(&mut c.rng, g2, n);
    let maps = c.rng.chance(1, 2);
    let (tf, pf) = if maps { (split(c, &t), split(c, &p)) } else { (Feat::V(t.clone()), Feat::V(p.clone())) };
    let (lt, lp) = (lib_feat::<P>(&tf), lib_feat::<P>(&pf));
    for l in [L::MeanSquare, L::NormCrossEntropy] {
        let want = match l { L::MeanSquare => t.iter().zip(&p).map(|(t, p)| (*p - *t).conj()).collect(), _ => ce_grad(&t, &p) };
        let a = c.ok("loss derivative", || P::d_loss(&lt, &lp, &l));
        let b = c.ok("loss derivative", || P::direct(&l, &lt, &lp));
        let r = c.call("released derivative", || P::released(&l, &lib_vec::<P>(&t), &lib_vec::<P>(&p)));
        for (got, form) in [(a, "d_loss"), (b, "compute"), (r, "released function")] {
            c.check(got.len() == n, || format!("{} {l:?}: {} derivatives for {n} outputs ({form})", P::NAME, got.len()));
            let ts: f64 = t.iter().map(|v| v.re.abs()).sum();
            let m2 = p.iter().map(|v| v.n2()).fold(0.0, f64::max);
            let tol = |i: usize| match l {
                L::MeanSquare => 2.0 * P::EPS * (t[i].abs() + p[i].abs()),
                _ => 8.0 * P::EPS * (n as f64 + 8.0 + m2) * (ts + t[i].abs()) * p[i].abs() + P::TINY,
            };
            for i in 0..n {
                c.within("loss derivative", got[i].z().dist(want[i]), tol(i), || format!("{} {l:?} derivative {i} of {n} (maps={maps}, {form}) = {:?}, expected {:?}", P::NAME, got[i].z(), want[i]));
            }
            c.count(match l { L::MeanSquare => "mean-square derivatives", _ => "cross-entropy derivatives" }, 1);
        }
    }
    c.count(if maps { "feature maps" } else { "vectors" }, 1);
    c.sig(&[P::IS32 as u64, n as u64, g1 as u64, g2 as u64, maps as u64]);
    c.sample(|| format!("{} derivatives of both losses, {n} outputs, maps={maps}", P::NAME));
}

/// Derivatives against differences of the library's own loss (mean square: times the number of outputs).
fn differences(c: &mut Ctx) {
    let n = c.rng.range(1, 10);
    let t = vals::<Cf64>(&mut c.rng, Reg::Gauss, n);
    let p = vals::<Cf64>(&mut c.rng, Reg::Gauss, n);
    let lt = IOType::Scalar(lib_vec::<Cf64>(&t));
    let l = if c.idx % 2 == 0 { L::MeanSquare } else { L::NormCrossEntropy };
    let k = match l { L::MeanSquare => n as f64, _ => 1.0 };
    let loss = |c: &mut Ctx, v: &[Z]| c.ok("loss", || Cf64::loss(&lt, &IOType::Scalar(lib_vec(v)), &l)) * k;
    let d = c.ok("loss derivative", || Cf64::d_loss(&lt, &IOType::Scalar(lib_vec(&p)), &l));
    c.check(d.len() == n, || format!("{} derivatives for {n} outputs", d.len()));
    let h = 2f64.powi(-17);
    let scale: f64 = t.iter().chain(&p).map(|v| 1.0 + v.n2()).sum();
    for i in 0..n {
        let mut q = p.clone();
        let mut at = |c: &mut Ctx, e: Z| { q[i] = p[i] + e; loss(c, &q) };
        let dx = (at(c, z(h, 0.0)) - at(c, z(-h, 0.0))) / (2.0 * h);
        let dy = (at(c, z(0.0, h)) - at(c, z(0.0, -h))) / (2.0 * h);
        let want = z(dx, -dy).s(0.5);
        c.within("difference quotient", d[i].z().dist(want), 1e-9 * scale * scale, || format!("{l:?} derivative {i} of {n} = {:?}, differences of the loss give {want:?}", d[i].z()));
        c.count(match l { L::MeanSquare => "difference quotients (mean square)", _ => "difference quotients (cross-entropy)" }, 1);
    }
    c.sig(&[7, n as u64, c.idx % 2]);
}

fn mismatch<P: DForms>(c: &mut Ctx) {
    let n = c.rng.range(1, 12);
    let mut m = c.rng.range(1, 12);
    if m == n { m = n + 1; }
    let (t, p) = (vals::<P>(&mut c.rng, Reg::Gauss, n), vals::<P>(&mut c.rng, Reg::Gauss, m));
    let ps = vals::<P>(&mut c.rng, Reg::Gauss, n);
    let k = c.rng.below(4);
    let (tf, pf) = match k { 0 => (Feat::V(t), Feat::V(p)), 1 => (split(c, &t), split(c, &p)), 2 => (Feat::V(t), split(c, &ps)), _ => (split(c, &t), Feat::V(ps)) };
    let (lt, lp) = (lib_feat::<P>(&tf), lib_feat::<P>(&pf));
    for l in [L::MeanSquare, L::NormCrossEntropy] {
        c.err(&format!("{} {l:?} derivative of mismatched target/prediction (kind {k}, {n} vs {m})", P::NAME), || P::d_loss(&lt, &lp, &l));
        c.err(&format!("{} {l:?} derivative of mismatched target/prediction (kind {k}, {n} vs {m})", P::NAME), || P::direct(&l, &lt, &lp));
        c.count("mismatches refused", 2);
    }
    c.sig(&[9, P::IS32 as u64, k as u64, n as u64, m as u64]);
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { derivs::<Cf32>(c) } else { derivs::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { mismatch::<Cf32>(c) } else { mismatch::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "derivatives", quick: 250_000, thorough: 2_000_000, f: f1 },
    Stage { name: "large-derivatives", quick: 10_000, thorough: 80_000, f: f1 },
    Stage { name: "differences", quick: 50_000, thorough: 400_000, f: differences },
    Stage { name: "mismatch", quick: 20_000, thorough: 100_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C06",
        rule: "distinct (precision, number of outputs, kinds of data, vector or maps) on which the derivatives were compared, plus distinct mismatches",
        assumptions: &["the mean-square derivative is that of the total squared error (no division by the number of outputs), as the statement says"],
        stages: STAGES,
        must_observe: &["mean-square derivatives", "cross-entropy derivatives", "feature maps", "vectors", "mismatches refused", "difference quotients (mean square)", "difference quotients (cross-entropy)"],
    });
}
