//! C31: training is reproducible and descends.
use monitors::driver::{main as run, Outcome, Plan};
use monitors::nets::*;
use monitors::num::z;
use monitors::refm::*;
use monitors::train::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::act::ComplexActFunc as A;
use renplex::cvnn::network::CNetwork;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::opt::ComplexLossFunc as L;

const SOFT: [A; 3] = [A::None, A::RITSigmoid, A::RITTanh];

fn view<P: Prec>(c: &mut Ctx, net: &CNetwork<P>, xs: &[Feat]) -> Vec<Vec<u64>> {
    let mut out = Vec::new();
    for x in xs {
        let lx: IOType<P> = lib_feat(x);
        match c.attempt(|| net.collect_acts(lx)) {
            Outcome::Ret(Ok(a)) => out.extend(a.iter().map(bits_of)),
            Outcome::Ret(Err(_)) => out.push(vec![1]),
            Outcome::Panic(_) => out.push(vec![2]),
        }
    }
    out
}

/// Two runs of the same history.
fn twins<P: Prec>(c: &mut Ctx) {
    let o = NetOpts { acts: &ACTS, exact_pool: false, allow_maps: true, flat_end: c.rng.chance(2, 3), min_layers: 2, max_layers: if c.small { 3 } else { 5 }, max_ch: 3, max_dim: if c.small { 3 } else { 6 } };
    let long = c.big && c.rng.chance(1, 2);
    let (d, specs) = if long { gen_net::<P>(&mut c.rng, &o) } else { gen_net_for::<P>(c, &o, 300_000) };
    let seed = gen_seed(&mut c.rng);
    let adj = if c.rng.chance(1, 2) { vec![] } else { gen_adj::<P>(&mut c.rng, &specs, Reg::Disc) };
    let rl = reference::<P>(&specs, seed, &adj);
    let steps = if long { c.rng.range(7, 60) } else if c.small { 2 } else { c.rng.range(1, 6) };
    let mut hist = Vec::new();
    for _ in 0..steps {
        let n = if long && c.rng.chance(1, 8) { large(&mut c.rng, 150) } else { c.rng.range(1, 5) };
        match gen_batch::<P>(c, &rl, d, n, Reg::Gauss) { Some(b) => hist.push((b, c.rng.chance(2, 3), P::of(P::rnd(z(c.rng.f() * 0.1, if c.rng.chance(1, 3) { c.rng.sf() * 0.1 } else { 0.0 }))))), None => { c.count("no smooth points found, skipped", 1); return; } }
    }
    let threaded = !c.small && c.rng.chance(1, 4);
    let one = |c: &mut Ctx| -> (Vec<Vec<u64>>, u64) {
        let mut net = build::<P>(&specs, seed, &adj);
        let mut failed = 0;
        for (k, (b, ms, lr)) in hist.iter().enumerate() {
            let lf = if *ms { L::MeanSquare } else { L::NormCrossEntropy };
            let ds = b.lib::<P>();
            // a network driven out of range may stop training; both runs must then do so at the same step
            match c.attempt(|| net.gradient_opt(ds, &lf, *lr)) { Outcome::Ret(Ok(_)) => {} _ => { failed = k as u64 + 1; break; } }
        }
        let xs: Vec<Feat> = hist.iter().map(|h| h.0.xs[0].clone()).collect();
        (view(c, &net, &xs), failed)
    };
    let (a, fa) = one(c);
    let (b, fb) = if threaded { c.count("second run on another thread", 1); let s = std::sync::Mutex::new(&mut *c); std::thread::scope(|t| t.spawn(|| one(&mut s.lock().unwrap())).join()).unwrap_or_else(|e| std::panic::resume_unwind(e)) } else { one(c) };
    c.check(fa == fb, || format!("{}: of two identical training runs one failed at step {fa}, the other at {fb} (0: never): {specs:?}", P::NAME));
    c.check(a == b, || format!("{}: two identical training runs of {steps} steps differ: {specs:?}", P::NAME));
    if fa == 0 { c.count("pairs of runs compared", 1); c.count("training steps compared", steps as u64); } else { c.count("runs that left the valid range", 1); }
    let mut w = words(&specs); w.push(steps as u64);
    c.sig(&w);
}

/// Mean-square error of the reference network over the batch, with a bound on the rounding error a
/// computation in the library's precision makes.
fn err_of<P: Prec>(rl: &[RLayer], b: &Batch) -> Option<(f64, f64)> {
    let (mut s, mut t) = (0.0, 0.0);
    for (x, y) in b.xs.iter().zip(&b.ts) {
        let tr = trace::<P>(rl, x);
        if !tr.determined { return None; }
        let tol = *tr.tol.last().unwrap();
        for (p, q) in tr.feats.last().unwrap().flat().iter().zip(y.flat()) {
            let d = (*p - q).abs();
            s += d * d;
            t += 2.0 * d * tol + tol * tol + 8.0 * P::EPS * d * d;
        }
    }
    Some((s / b.xs.len() as f64, t / b.xs.len() as f64))
}

/// What rounding the parameters of the new network can add to the squared error.
fn rounding(m: &MeanGrad, err: &[RLayer]) -> f64 {
    let mut s = 0.0;
    for (k, l) in err.iter().enumerate() {
        match l {
            RLayer::Dense { w, b, .. } => { for (g, e) in m.w[k].iter().zip(w).chain(m.b[k].iter().zip(b)) { s += 2.0 * g.abs() * e.re; } }
            RLayer::Conv { k: ks, b, .. } => { for (g, e) in m.w[k].iter().zip(ks.iter().flatten().flat_map(|t| t.v.iter())).chain(m.b[k].iter().zip(b)) { s += 2.0 * g.abs() * e.re; } }
            _ => {}
        }
    }
    s
}

fn descent<P: Prec>(c: &mut Ctx) {
    let acts: &'static [A] = if c.rng.chance(1, 2) { &SOFT } else { &ACTS };
    let o = NetOpts { acts, exact_pool: true, allow_maps: true, flat_end: c.rng.chance(2, 3), min_layers: 2, max_layers: if c.small { 3 } else { 4 }, max_ch: 3, max_dim: if c.small { 3 } else { 6 } };
    let many = c.big && c.rng.chance(1, 2);
    let (d, specs) = if many { gen_net::<P>(&mut c.rng, &o) } else { gen_net_for::<P>(c, &o, 300_000) };
    let seed = gen_seed(&mut c.rng);
    let adj = gen_adj::<P>(&mut c.rng, &specs, Reg::Disc);
    let rl = reference::<P>(&specs, seed, &adj);
    let n = if many { large(&mut c.rng, 1100).max(9) } else if c.small { 2 } else { c.rng.pick(&[1usize, 2, 3, 5, 8]) };
    let batch = match gen_batch::<P>(c, &rl, d, n, Reg::Gauss) { Some(b) => b, None => { c.count("no smooth points found, skipped", 1); return; } };
    let mut net = build::<P>(&specs, seed, &adj);
    let lf = L::MeanSquare;
    let m = mean_grad::<P>(c, &net, &rl, &batch, &lf);
    let g2 = length2(&m);
    let outs = batch.ts[0].flat().len() as f64;
    if !(g2 > 1e-20) || !g2.is_finite() { c.count("no gradient, skipped", 1); return; }
    let (e0, r0) = match err_of::<P>(&rl, &batch) { Some(e) => e, None => return };
    for delta in [0.1, 3e-2, 1e-2, 3e-3, 1e-3, 1e-4, 1e-5] {
        let lr = P::rnd(z(delta / g2.sqrt(), 0.0));
        let want = 2.0 * lr.re * g2;
        // the reference decides where the first order is visible above rounding
        let (new, err) = stepped::<P>(&rl, &m, lr);
        let (e1, r1) = match err_of::<P>(&new, &batch) { Some(e) => e, None => continue };
        let slack = 4.0 * (r0 + r1 + rounding(&m, &err));
        if !((e0 - e1 - want).abs() < 0.05 * want) || slack > 0.05 * want { continue; }
        let l0 = P::fl(c.ok("loss", || net.loss(&batch.lib::<P>(), &lf))) * outs;
        c.ok("gradient_opt", || net.gradient_opt(batch.lib::<P>(), &lf, P::of(lr)));
        let l1 = P::fl(c.ok("loss", || net.loss(&batch.lib::<P>(), &lf))) * outs;
        c.check(l1 < l0, || format!("{} {specs:?}, batch of {n}: a step with learning rate {} raised the squared error from {l0} to {l1}, a decrease of {want} was due", P::NAME, lr.re));
        c.within("decrease", (l0 - l1 - want).abs(), 0.05 * want + 0.05 * want + slack, || format!("{} {specs:?}, batch of {n}: the squared error fell by {} instead of {want} (learning rate {})", P::NAME, l0 - l1, lr.re));
        c.count("descents compared", 1);
        if P::IS32 { c.count("descents in single precision", 1); } else { c.count("descents in double precision", 1); }
        if specs.iter().any(|s| matches!(s, Spec::Conv { .. })) { c.count("descents of convolutional networks", 1); }
        let mut w = words(&specs); w.push(n as u64);
        c.sig(&w);
        c.sample(|| format!("{} {specs:?}: squared error {l0} -> {l1}, predicted decrease {want}", P::NAME));
        return;
    }
    c.count("first order not visible, skipped", 1);
}

/// Learning rate zero; also over several calls and both losses.
fn still<P: Prec>(c: &mut Ctx) {
    let o = NetOpts { acts: &ACTS, exact_pool: false, allow_maps: true, flat_end: c.rng.chance(2, 3), min_layers: 2, max_layers: if c.small { 3 } else { 5 }, max_ch: 3, max_dim: if c.small { 3 } else { 6 } };
    let (d, specs) = gen_net_for::<P>(c, &o, 300_000);
    let seed = gen_seed(&mut c.rng);
    let adj = gen_adj::<P>(&mut c.rng, &specs, Reg::Disc);
    let rl = reference::<P>(&specs, seed, &adj);
    let batch = match { let n = if c.big { large(&mut c.rng, 60) } else { 3 }; gen_batch::<P>(c, &rl, d, n, Reg::Gauss) } { Some(b) => b, None => { c.count("no smooth points found, skipped", 1); return; } };
    let mut net = build::<P>(&specs, seed, &adj);
    let mut before = Vec::new();
    for x in &batch.xs { let lx = lib_feat::<P>(x); before.push(ref_feat(&c.ok("forward", || net.forward(&lx))).flat()); }
    for lf in [L::MeanSquare, L::NormCrossEntropy] {
        let ds = batch.lib::<P>();
        // the gradient must exist for a zero step to be one
        let m = mean_grad::<P>(c, &net, &rl, &batch, &lf);
        if !biggest(&m).is_finite() { c.count("no gradient, skipped", 1); return; }
        c.ok("gradient_opt with learning rate zero", || net.gradient_opt(ds, &lf, P::of(z(0.0, 0.0))));
    }
    for (x, b) in batch.xs.iter().zip(&before) {
        let lx = lib_feat::<P>(x);
        let a = ref_feat(&c.ok("forward", || net.forward(&lx))).flat();
        // numbers, not bits: 0 and -0 are the same prediction
        c.check(a == *b, || format!("{} {specs:?}: training with learning rate zero changed a prediction from {b:?} to {a:?}", P::NAME));
    }
    c.count("zero steps", 2);
    c.sig(&words(&specs));
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { twins::<Cf32>(c) } else { twins::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { descent::<Cf32>(c) } else { descent::<Cf64>(c) } }
fn f3(c: &mut Ctx) { if c.idx % 2 == 0 { still::<Cf32>(c) } else { still::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "twins", quick: 50_000, thorough: 400_000, f: f1 },
    Stage { name: "descent", quick: 150_000, thorough: 1_000_000, f: f2 },
    Stage { name: "large-twins", quick: 3_000, thorough: 20_000, f: f1 },
    Stage { name: "large-descent", quick: 7_500, thorough: 40_000, f: f2 },
    Stage { name: "large-still", quick: 2_000, thorough: 10_000, f: f3 },
    Stage { name: "still", quick: 30_000, thorough: 200_000, f: f3 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C31",
        rule: "distinct (architecture, batch size or number of steps) trained",
        assumptions: &["descent is compared where the reference model shows the first order to within 5% above rounding, at points where the network is smooth", "pooling layers in descent runs are those with an exact gradient"],
        stages: STAGES,
        must_observe: &["pairs of runs compared", "second run on another thread", "descents in single precision", "descents in double precision", "descents of convolutional networks", "zero steps"],
    });
}
