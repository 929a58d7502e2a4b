//! C05: loss values.
use monitors::driver::{main as run, Plan};
use monitors::num::{Prec, Z};
use monitors::refm::{Feat, Tab};
use monitors::work::*;
use monitors::{Ctx, Stage};
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::opt::ComplexLossFunc as L;

pub trait LossForms: Prec {
    fn direct(l: &L, t: &IOType<Self>, p: &IOType<Self>) -> Result<f64, String>;
    fn released(l: &L, t: &[Self], p: &[Self]) -> f64;
}
impl LossForms for Cf32 {
    fn direct(l: &L, t: &IOType<Self>, p: &IOType<Self>) -> Result<f64, String> { l.compute_cf32(t, p).map(|v| v as f64).map_err(|e| format!("{e:?}")) }
    fn released(l: &L, t: &[Self], p: &[Self]) -> f64 { l.release_func_cf32()(t.iter(), p.iter()) as f64 }
}
impl LossForms for Cf64 {
    fn direct(l: &L, t: &IOType<Self>, p: &IOType<Self>) -> Result<f64, String> { l.compute_cf64(t, p).map_err(|e| format!("{e:?}")) }
    fn released(l: &L, t: &[Self], p: &[Self]) -> f64 { l.release_func_cf64()(t.iter(), p.iter()) }
}

/// Same values as a vector or as feature maps.
fn split(c: &mut Ctx, v: &[Z]) -> Feat {
    let n = v.len();
    let divs: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
    let maps = c.rng.pick(&divs);
    let per = n / maps;
    let d2: Vec<usize> = (1..=per).filter(|d| per % d == 0).collect();
    let h = c.rng.pick(&d2);
    Feat::M(v.chunks(per).map(|ch| Tab { r: h, c: per / h, v: ch.to_vec() }).collect())
}

fn mse(t: &[Z], p: &[Z]) -> (f64, f64) {
    let n = t.len() as f64;
    let s: f64 = t.iter().zip(p).map(|(a, b)| (*a - *b).n2()).sum();
    let m: f64 = t.iter().zip(p).map(|(a, b)| (a.abs() + b.abs()) * (*a - *b).abs()).sum();
    (s / n, (4.0 * m + (n + 4.0) * s) / n)
}
fn ce(t: &[Z], p: &[Z]) -> (f64, f64) {
    let m = p.iter().map(|v| v.n2()).fold(0.0, f64::max);
    let lse = m + p.iter().map(|v| (v.n2() - m).exp()).sum::<f64>().ln();
    let v: f64 = t.iter().zip(p).map(|(t, p)| t.re * (lse - p.n2())).sum();
    let ts: f64 = t.iter().map(|t| t.re.abs()).sum();
    (v, (p.len() as f64 + 8.0) * ts * (1.0 + lse.abs() + m))
}

fn inputs<P: Prec>(c: &mut Ctx) -> (Vec<Z>, Vec<Z>, usize) {
    let n = if c.big { large(&mut c.rng, 5000) } else if c.small { c.rng.range(1, 5) } else { match c.rng.below(8) { 0 => 1, 1 => c.rng.range(50, 400), _ => c.rng.range(1, 24) } };
    let kind = c.rng.below(6);
    let (g1, g2) = (reg(&mut c.rng), reg(&mut c.rng));
    let mut t = vals::<P>(&mut c.rng, g1, n);
    let mut p = vals::<P>(&mut c.rng, g2, n);
    if kind == 0 { t = vec![Z::ZERO; n]; let k = c.rng.below(n); t[k] = Z::ONE; }
    if kind == 1 { let s = c.rng.pick(&[5.0, 12.0, 30.0, 200.0]); for v in p.iter_mut() { *v = P::rnd(v.s(s)); } }
    if kind == 2 { p = t.clone(); if n > 1 { let k = c.rng.below(n); p[k] = val::<P>(&mut c.rng, Reg::Gauss); } }
    (t, p, kind)
}

fn values<P: LossForms>(c: &mut Ctx) {
    let (t, p, kind) = inputs::<P>(c);
    let n = t.len();
    let maps = c.rng.chance(1, 2);
    let (tf, pf) = if maps { (split(c, &t), split(c, &p)) } else { (Feat::V(t.clone()), Feat::V(p.clone())) };
    let (lt, lp) = (lib_feat::<P>(&tf), lib_feat::<P>(&pf));
    for l in [L::MeanSquare, L::NormCrossEntropy] {
        let (want, mag) = match l { L::MeanSquare => mse(&t, &p), _ => ce(&t, &p) };
        let tol = 4.0 * P::EPS * mag + P::TINY;
        let a = P::fl(c.ok("loss", || P::loss(&lt, &lp, &l)));
        let b = c.ok("loss", || P::direct(&l, &lt, &lp));
        let r = c.call("released loss function", || P::released(&l, &lib_vec::<P>(&t), &lib_vec::<P>(&p)));
        for (got, form) in [(a, "loss"), (b, "compute"), (r, "released function")] {
            c.check(got.is_finite(), || format!("{} {l:?} loss of {n} outputs is {got} ({form}) for target {t:?}, prediction {p:?}", P::NAME));
            c.within("loss value", (got - want).abs(), tol, || format!("{} {l:?} ({form}, {n} outputs, maps={maps}) = {got}, expected {want}; target {:?} prediction {:?}", P::NAME, &t[..n.min(4)], &p[..n.min(4)]));
        }
        c.count(match l { L::MeanSquare => "mean-square values", _ => "cross-entropy values" }, 3);
    }
    if n == 1 { c.count("single output", 1); }
    c.count(if maps { "feature maps" } else { "vectors" }, 1);
    c.sig(&[P::IS32 as u64, n as u64, kind as u64, maps as u64]);
    c.sample(|| format!("{} both losses, {n} outputs, maps={maps}, kind {kind}", P::NAME));
}

fn mismatch<P: LossForms>(c: &mut Ctx) {
    let n = c.rng.range(1, 12);
    let mut m = c.rng.range(1, 12);
    if m == n { m = n + 1; }
    let t = vals::<P>(&mut c.rng, Reg::Gauss, n);
    let p = vals::<P>(&mut c.rng, Reg::Gauss, m);
    let p_same = vals::<P>(&mut c.rng, Reg::Gauss, n);
    let k = c.rng.below(4);
    let (tf, pf) = match k {
        0 => (Feat::V(t.clone()), Feat::V(p.clone())),
        1 => (split(c, &t), split(c, &p)),
        2 => (Feat::V(t.clone()), split(c, &p_same)),
        _ => (split(c, &t), Feat::V(p_same)),
    };
    let (lt, lp) = (lib_feat::<P>(&tf), lib_feat::<P>(&pf));
    for l in [L::MeanSquare, L::NormCrossEntropy] {
        c.err(&format!("{} {l:?} loss of mismatched target/prediction (kind {k}, {n} vs {m})", P::NAME), || P::loss(&lt, &lp, &l));
        c.err(&format!("{} {l:?} loss of mismatched target/prediction (kind {k}, {n} vs {m})", P::NAME), || P::direct(&l, &lt, &lp));
        c.count("mismatches refused", 2);
    }
    c.sig(&[9, P::IS32 as u64, k as u64, n as u64, m as u64]);
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { values::<Cf32>(c) } else { values::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { mismatch::<Cf32>(c) } else { mismatch::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "values", quick: 300_000, thorough: 2_400_000, f: f1 },
    Stage { name: "large-values", quick: 10_000, thorough: 80_000, f: f1 },
    Stage { name: "mismatch", quick: 20_000, thorough: 100_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C05",
        rule: "distinct (precision, number of outputs, kind of data, vector or maps) on which both losses were compared, plus distinct mismatches",
        assumptions: &["moduli up to about 2e5 (squared moduli up to 4e10)"],
        stages: STAGES,
        must_observe: &["mean-square values", "cross-entropy values", "single output", "feature maps", "vectors", "mismatches refused"],
    });
}
