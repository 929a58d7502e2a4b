//! C19: a training step moves every parameter by the mean gradient.
use monitors::driver::{main as run, Plan};
use monitors::nets::*;
use monitors::num::z;
use monitors::refm::*;
use monitors::train::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage, Z};
use renplex::act::ComplexActFunc as A;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::opt::ComplexLossFunc as L;

const LINEAR: [A; 1] = [A::None];
const SOFT: [A; 3] = [A::None, A::RITSigmoid, A::RITTanh];

/// No uncertainty in any parameter.
fn unknown(rl: &[RLayer]) -> Vec<RLayer> {
    rl.iter().map(|l| match l {
        RLayer::Dense { ni, no, w, b, act } => RLayer::Dense { ni: *ni, no: *no, w: vec![Z::ZERO; w.len()], b: vec![Z::ZERO; b.len()], act: *act },
        RLayer::Conv { k, b, act } => RLayer::Conv { k: k.iter().map(|f| f.iter().map(|t| Tab::new(t.r, t.c)).collect()).collect(), b: vec![Z::ZERO; b.len()], act: *act },
        o => o.clone(),
    }).collect()
}

fn step<P: Prec>(c: &mut Ctx) {
    let acts: &'static [A] = match c.rng.below(4) { 0 => &LINEAR, 1 => &SOFT, _ => &ACTS };
    let exact = c.rng.chance(1, 2);
    let o = NetOpts { acts, exact_pool: exact, allow_maps: true, flat_end: c.rng.chance(2, 3), min_layers: 2, max_layers: if c.small { 3 } else { 5 }, max_ch: 3, max_dim: if c.small { 3 } else { 6 } };
    // many points on an ordinary network, or few points on a large one
    let many = c.big && c.rng.chance(1, 2);
    let (d, specs) = if many { gen_net::<P>(&mut c.rng, &o) } else { gen_net_for::<P>(c, &o, 1_000_000) };
    if !specs.iter().any(|s| s.params().0 > 0) { c.count("no parameters, skipped", 1); return; }
    let seed = gen_seed(&mut c.rng);
    let adj = if c.rng.chance(1, 4) { vec![] } else { gen_adj::<P>(&mut c.rng, &specs, Reg::Disc) };
    let mut net = build::<P>(&specs, seed, &adj);
    let mut rl = reference::<P>(&specs, seed, &adj);
    let steps = if c.rng.chance(1, 4) { 2 } else { 1 };
    // the first step is compared parameter by parameter; a second one starts from an uncertain state
    // and is only made when the first was a plain no-change step (learning rate zero)
    for s in 0..steps {
        let n = if many { large(&mut c.rng, 1200).max(9) } else if c.small { c.rng.range(1, 2) } else { c.rng.pick(&[1usize, 2, 3, 5, 8]) };
        let g = c.rng.pick(&[Reg::Disc, Reg::Gauss, Reg::Gauss]);
        let mut batch = match gen_batch::<P>(c, &rl, d, n, g) { Some(b) => b, None => { c.count("no smooth points found, skipped", 1); return; } };
        // a point among others that is predicted exactly
        if n > 1 && c.rng.chance(1, 8) {
            let i = c.rng.below(n);
            let x = lib_feat::<P>(&batch.xs[i]);
            batch.ts[i] = ref_feat(&c.ok("forward", || net.forward(&x)));
            c.count("points predicted exactly", 1);
        }
        let lf = if c.rng.chance(2, 3) { L::MeanSquare } else { L::NormCrossEntropy };
        let m = mean_grad::<P>(c, &net, &rl, &batch, &lf);
        let big = biggest(&m);
        if !(big > 1e-12) || !big.is_finite() { c.count("no gradient, skipped", 1); return; }
        let wmax = rl.iter().map(|l| match l { RLayer::Dense { w, .. } => w.iter().map(|v| v.abs()).fold(0.0, f64::max), RLayer::Conv { k, .. } => k.iter().flatten().flat_map(|t| t.v.iter()).map(|v| v.abs()).fold(0.0, f64::max), _ => 0.0 }).fold(0.1, f64::max);
        let phase = match c.rng.below(8) { 0 | 1 | 2 => Z::ONE, 3 => c.rng.pick(&[z(-1.0, 0.0), z(0.0, 1.0), z(0.0, -1.0)]), _ => { let p = c.rng.f() * 6.283185307179586; z(p.cos(), p.sin()) } };
        if phase.re == 0.0 { c.count("purely imaginary learning rates", 1); }
        let zero_step = steps == 2 && s == 0;
        let lr = if zero_step { Z::ZERO } else { P::rnd(phase.s(0.3 * wmax / big)) };
        let names = format!("{} {specs:?}, batch of {n}, {lf:?}, learning rate {lr:?}", P::NAME);
        // what the layers were before, seen through the inputs they are probed with afterwards
        if c.rng.chance(1, 3) {
            let none = unknown(&rl);
            for k in 0..specs.len() { if let Some(l) = layer_of(c, &net, &batch.xs[0], k) { check_layer::<P>(c, l, &specs[k], &rl[k], &none[k], &format!("{names}, layer {k} before the step")); } }
            c.count("layers probed before the step", 1);
        }
        c.ok("gradient_opt", || net.gradient_opt(batch.lib::<P>(), &lf, P::of(lr)));
        let (new, err) = if zero_step { (rl.clone(), unknown(&rl)) } else { stepped::<P>(&rl, &m, lr) };
        // parameters that visibly moved
        if !zero_step {
            let mut moved = 0;
            for k in 0..rl.len() { for i in 0..m.w[k].len() { if (lr * m.w[k][i]).abs() > 20.0 * (lr.abs() * m.wt[k][i] + 8.0 * P::EPS * wmax) { moved += 1; } } for i in 0..m.b[k].len() { if (lr * m.b[k][i]).abs() > 20.0 * (lr.abs() * m.bt[k][i] + 8.0 * P::EPS * wmax) { moved += 1; } } }
            c.count("parameters that moved well beyond the error bound", moved);
        }
        let mut xi = batch.xs[0].clone();
        for k in 0..specs.len() {
            let mut l = layer_of(c, &net, &xi, k);
            for _ in 0..4 { if l.is_some() { break; } xi = gen_input::<P>(&mut c.rng, d, Reg::Gauss); l = layer_of(c, &net, &xi, k); }
            match l {
                None => { c.count("layers not reachable", 1); continue; }
                Some(l) => {
                    c.check(l.params_len() == specs[k].params(), || format!("training changed the size of layer {k}: {names}"));
                    check_layer::<P>(c, l, &specs[k], &new[k], &err[k], &format!("{names}, layer {k}"));
                    match specs[k] { Spec::Dense { .. } => c.count("dense layers read back", 1), Spec::Conv { .. } => c.count("convolutional layers read back", 1), _ => {} }
                }
            }
        }
        if specs.iter().any(|s| matches!(s, Spec::Pool { .. })) { c.count(if exact { "networks with averaging" } else { "networks with any pooling" }, 1); }
        if specs.iter().any(|s| matches!(s, Spec::Flat { .. })) { c.count("networks with flatten", 1); }
        if n > 1 { c.count("batches of several points", 1); }
        c.count(if zero_step { "steps of rate zero" } else { "training steps" }, 1);
        rl = new;
    }
    let mut w = words(&specs); w.push(P::IS32 as u64);
    c.sig(&w);
    c.sample(|| format!("{} {specs:?}: every parameter of every layer read back after a step", P::NAME));
}

/// The adjustment itself, on integers: exact, each parameter once, nothing else.
fn adjust<P: Prec>(c: &mut Ctx) {
    let s = if c.rng.chance(1, 2) { Spec::Dense { ni: size(c, 8, 130), no: size(c, 8, 130), act: A::None, init: Init::Uniform(1) } }
        else { Spec::Conv { c: if c.big { c.rng.range(1, 30) } else { c.rng.range(1, 3) }, f: if c.big { c.rng.range(1, 30) } else { c.rng.range(1, 3) }, kh: c.rng.range(1, 4), kw: c.rng.range(1, 4), act: A::None, init: Init::Uniform(1) } };
    let (nw, nb) = s.params();
    let (mut w, mut b) = (vals::<P>(&mut c.rng, Reg::Int, nw), vals::<P>(&mut c.rng, Reg::Int, nb));
    let mut l = s.with_params::<P>(&w, &b);
    for _ in 0..2 {
        let (dw, db) = (vals::<P>(&mut c.rng, Reg::Int, nw), vals::<P>(&mut c.rng, Reg::Int, nb));
        c.ok("neg_conj_adjustment", || l.neg_conj_adjustment(lib_vec(&dw), lib_vec(&db)));
        for i in 0..nw { w[i] = w[i] - dw[i].conj(); }
        for i in 0..nb { b[i] = b[i] - db[i].conj(); }
        let got = probe_linear::<P>(&s, &l);
        let want = s.ref_with_params(&w, &b);
        let (gw, gb) = params(&got); let (ww, wb) = params(&want);
        c.check(gw == ww && gb == wb, || format!("{} {s:?}: parameters after an adjustment {gw:?} {gb:?}, exactly {ww:?} {wb:?}", P::NAME));
        c.count("adjustments", 1);
    }
    c.sig(&[1, P::IS32 as u64, nw as u64, nb as u64]);
}
fn params(l: &RLayer) -> (Vec<Z>, Vec<Z>) {
    match l { RLayer::Dense { w, b, .. } => (w.clone(), b.clone()), RLayer::Conv { k, b, .. } => (k.iter().flatten().flat_map(|t| t.v.clone()).collect(), b.clone()), _ => (vec![], vec![]) }
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { step::<Cf32>(c) } else { step::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { adjust::<Cf32>(c) } else { adjust::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "steps", quick: 100_000, thorough: 600_000, f: f1 },
    Stage { name: "large-steps", quick: 7_500, thorough: 50_000, f: f1 },
    Stage { name: "large-adjustments", quick: 1_500, thorough: 10_000, f: f2 },
    Stage { name: "adjustments", quick: 50_000, thorough: 250_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C19",
        rule: "distinct (architecture, precision) whose parameters were all read back after a training step",
        assumptions: &["batch points lie where the network is smooth; others are skipped and counted", "the gradient through a pooling layer is the one it declares through its kernel (monitored by C18)", "the loss derivative at the output is the library's own (monitored by C06)"],
        stages: STAGES,
        must_observe: &["training steps", "steps of rate zero", "inputs repeated", "purely imaginary learning rates", "points predicted exactly", "dense layers read back", "convolutional layers read back", "networks with averaging", "networks with any pooling", "layers probed before the step", "networks with flatten", "batches of several points", "parameters that moved well beyond the error bound", "trained layer outputs compared", "adjustments"],
    });
}
