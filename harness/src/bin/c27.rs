//! C27: loss and accuracy are averages over the batch.
use monitors::driver::{main as run, Plan};
use monitors::nets::*;
use monitors::num::z;
use monitors::refm::*;
use monitors::train::Batch;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage, Z};
use renplex::act::ComplexActFunc as A;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::opt::ComplexLossFunc as L;

fn first_max(v: &[Z]) -> usize { let mut k = 0; for i in 1..v.len() { if v[i].n2() > v[k].n2() { k = i; } } k }
/// Is the position of the largest modulus beyond doubt?
fn clear(v: &[Z], tol: f64) -> bool { let k = first_max(v); v.iter().enumerate().all(|(i, x)| i == k || x.abs() < v[k].abs() * (1.0 - 1e-5) - tol) }

/// Small integers with many ties; prediction = input exactly.
fn ties<P: Prec>(c: &mut Ctx) {
    let n = if c.big { large(&mut c.rng, 70) } else { c.rng.range(1, 6) };
    let depth = c.rng.range(1, 3);
    let mut id = vec![Z::ZERO; n * n];
    for i in 0..n { id[i * n + i] = Z::ONE; }
    let s = Spec::Dense { ni: n, no: n, act: A::None, init: Init::Uniform(0) };
    let net = assemble::<P>((0..depth).map(|_| s.with_params::<P>(&id, &vec![Z::ZERO; n])).collect());
    let m = if c.big { large(&mut c.rng, 3000) } else if c.small { 3 } else { c.rng.pick(&[1usize, 2, 3, 5, 7, 16, 33]) };
    let small = |c: &mut Ctx| -> Z { z(c.rng.below(3) as f64 - 1.0, c.rng.below(3) as f64 - 1.0) };
    let mut b = Batch { xs: vec![], ts: vec![] };
    let mut right = 0;
    for _ in 0..m {
        let x: Vec<Z> = (0..n).map(|_| small(c)).collect();
        let t: Vec<Z> = if c.rng.chance(1, 2) { let k = c.rng.below(n); (0..n).map(|i| if i == k { Z::ONE } else { Z::ZERO }).collect() } else { (0..n).map(|_| small(c)).collect() };
        if first_max(&x) == first_max(&t) { right += 1; }
        let tie = |v: &[Z]| v.iter().filter(|e| e.n2() == v[first_max(v)].n2()).count() > 1;
        if tie(&x) || tie(&t) { c.count("points with ties", 1); }
        b.xs.push(Feat::V(x)); b.ts.push(Feat::V(t));
    }
    let acc = P::fl(c.call("max_pred_test", || net.max_pred_test(&b.lib::<P>())));
    c.within("accuracy", (acc - right as f64 / m as f64).abs(), (m as f64 + 2.0) * P::EPS, || format!("{}: accuracy {acc}, {right} of {m} points agree (first inputs {:?}, targets {:?})", P::NAME, &b.xs[..m.min(8)], &b.ts[..m.min(8)]));
    // squared errors are integers, so the mean-square loss is exact up to the divisions
    let lib = c.ok("loss", || net.loss(&b.lib::<P>(), &L::MeanSquare));
    let want: f64 = b.xs.iter().zip(&b.ts).map(|(x, t)| x.vec().iter().zip(t.vec()).map(|(a, b)| (*a - *b).n2()).sum::<f64>() / n as f64).sum::<f64>() / m as f64;
    c.within("loss", (P::fl(lib) - want).abs(), 4.0 * (m as f64 + 4.0) * P::EPS * want, || format!("{}: loss {} over {m} points of {n} outputs, expected {want}", P::NAME, P::fl(lib)));
    c.count("integer batches", 1);
    c.sig(&[P::IS32 as u64, n as u64, m as u64, depth as u64]);
    c.sample(|| format!("{} {m} points, {n} outputs: {right} agree, accuracy {acc}", P::NAME));
}

fn general<P: Prec>(c: &mut Ctx) {
    let o = NetOpts { acts: &ACTS, exact_pool: false, allow_maps: true, flat_end: c.rng.chance(3, 4), min_layers: 1, max_layers: if c.small { 3 } else { 4 }, max_ch: 3, max_dim: if c.small { 3 } else { 7 } };
    let many = c.big && c.rng.chance(1, 2);
    let (d, specs) = if many { gen_net::<P>(&mut c.rng, &o) } else { gen_net_for::<P>(c, &o, 3_000_000) };
    let seed = gen_seed(&mut c.rng);
    let adj = gen_adj::<P>(&mut c.rng, &specs, Reg::Disc);
    let rl = reference::<P>(&specs, seed, &adj);
    let net = build::<P>(&specs, seed, &adj);
    let m = if many { large(&mut c.rng, 1500).max(21) } else if c.small { 2 } else { c.rng.pick(&[1usize, 2, 3, 4, 6, 9, 20]) };
    let mut b = Batch { xs: vec![], ts: vec![] };
    let mut tries = 0;
    let (mut each, mut tol) = ([0.0, 0.0], [0.0, 0.0]);
    let (mut right, mut sure) = (0, true);
    while b.xs.len() < m {
        tries += 1;
        if tries > 3 * m + 5 { c.count("undetermined points skipped", 1); return; }
        let (x, repeat) = if !b.xs.is_empty() && c.rng.chance(1, 8) { (b.xs[0].clone(), true) } else { (gen_input::<P>(&mut c.rng, d, Reg::Gauss), false) };
        let tr = trace::<P>(&rl, &x);
        if !tr.determined { continue; }
        let t = if repeat { b.ts[0].clone() } else {
            match tr.feats.last().unwrap() { Feat::V(v) => Feat::V(if c.rng.chance(1, 2) { let k = c.rng.below(v.len()); (0..v.len()).map(|i| if i == k { Z::ONE } else { Z::ZERO }).collect() } else { vals::<P>(&mut c.rng, Reg::Gauss, v.len()) }), Feat::M(ms) => Feat::M(ms.iter().map(|t| tab::<P>(&mut c.rng, Reg::Gauss, t.r, t.c)).collect()) }
        };
        // what the network says about this point alone
        let (lx, lt) = (lib_feat::<P>(&x), lib_feat::<P>(&t));
        let pred = c.ok("forward", || net.forward(&lx));
        for (i, lf) in [L::MeanSquare, L::NormCrossEntropy].iter().enumerate() {
            let l = P::fl(c.ok("loss of a point", || P::loss(&lt, &pred, lf)));
            each[i] += l; tol[i] += l.abs();
        }
        let p = ref_feat(&pred).flat();
        if first_max(&p) == first_max(&t.flat()) { right += 1; }
        sure &= clear(&p, 0.0) && clear(&t.flat(), 0.0);
        b.xs.push(x); b.ts.push(t);
    }
    let vector = matches!(b.ts[0], Feat::V(_));
    for round in 0..2 {
        let ds = b.lib::<P>();
        for (i, lf) in [L::MeanSquare, L::NormCrossEntropy].iter().enumerate() {
            let got = P::fl(c.ok("loss", || net.loss(&ds, lf)));
            c.within("loss", (got - each[i] / m as f64).abs(), 4.0 * (m as f64 + 3.0) * P::EPS * tol[i] / m as f64 + P::TINY, || format!("{} {lf:?} of {m} points = {got}, average of the points {}: {specs:?}", P::NAME, each[i] / m as f64));
            c.count("batch losses", 1);
        }
        if vector && sure {
            let got = P::fl(c.call("max_pred_test", || net.max_pred_test(&ds)));
            c.within("accuracy", (got - right as f64 / m as f64).abs(), (m as f64 + 2.0) * P::EPS, || format!("{}: accuracy {got}, {right} of {m} points agree: {specs:?}", P::NAME));
            c.count("batch accuracies", 1);
        }
        if round == 0 {
            // another order
            for i in (1..m).rev() { let j = c.rng.below(i + 1); b.xs.swap(i, j); b.ts.swap(i, j); }
            c.count("reordered batches", 1);
        }
    }
    if !vector { c.count("targets that are feature maps", 1); }
    let mut w = words(&specs); w.push(m as u64);
    c.sig(&w);
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { ties::<Cf32>(c) } else { ties::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { general::<Cf32>(c) } else { general::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "ties", quick: 150_000, thorough: 1_000_000, f: f1 },
    Stage { name: "large-ties", quick: 5_000, thorough: 30_000, f: f1 },
    Stage { name: "large-general", quick: 3_000, thorough: 20_000, f: f2 },
    Stage { name: "general", quick: 60_000, thorough: 400_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C27",
        rule: "distinct (architecture, batch size) whose batch loss and accuracy were recomputed point by point",
        assumptions: &["the loss of one point is the library's own (monitored by C05)", "accuracy on non-integer outputs is only compared when the largest modulus is beyond doubt"],
        stages: STAGES,
        must_observe: &["points with ties", "integer batches", "batch losses", "batch accuracies", "reordered batches", "targets that are feature maps"],
    });
}
