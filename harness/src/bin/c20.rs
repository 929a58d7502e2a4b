//! C20: refused training and adjustment calls change nothing.
use monitors::driver::{main as run, Outcome, Plan};
use monitors::nets::*;
use monitors::num::z;
use monitors::refm::*;
use monitors::train::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::opt::ComplexLossFunc as L;

fn grow<P: Prec>(f: &Feat, more: bool) -> Feat {
    match f {
        Feat::V(v) => { let mut v = v.clone(); if more { v.push(z(0.5, 0.25)) } else { v.pop(); } Feat::V(v) }
        Feat::M(m) => { let mut m = m.clone(); if more { let t = m[0].clone(); m.push(t) } else { m.pop(); } Feat::M(m) }
    }
}
fn other_kind(f: &Feat) -> Feat {
    match f { Feat::V(v) => Feat::M(vec![Tab { r: 1, c: v.len(), v: v.clone() }]), Feat::M(_) => Feat::V(f.flat()) }
}

/// Everything a user can see of a network: outputs for several inputs.
fn view<P: Prec>(c: &mut Ctx, net: &CNetwork<P>, xs: &[Feat], when: &str) -> Vec<Vec<u64>> {
    xs.iter().flat_map(|x| { let a = c.ok(&format!("activations {when}"), || net.collect_acts(lib_feat::<P>(x))); a.iter().map(bits_of).collect::<Vec<_>>() }).collect()
}

fn failing<P: Prec>(c: &mut Ctx) {
    let o = NetOpts { acts: &ACTS, exact_pool: c.rng.chance(1, 2), allow_maps: true, flat_end: c.rng.chance(2, 3), min_layers: 2, max_layers: if c.small { 3 } else { 5 }, max_ch: 3, max_dim: if c.small { 3 } else { 6 } };
    let many = c.big && c.rng.chance(2, 3);
    let (d, specs) = if many { gen_net::<P>(&mut c.rng, &o) } else { gen_net_for::<P>(c, &o, 1_000_000) };
    let seed = gen_seed(&mut c.rng);
    let adj = gen_adj::<P>(&mut c.rng, &specs, Reg::Disc);
    let rl = reference::<P>(&specs, seed, &adj);
    let n = if many { large(&mut c.rng, 1100).max(7) } else if c.small { 2 } else { c.rng.range(1, 6) };
    let (batch, probe) = match (gen_batch::<P>(c, &rl, d, n, Reg::Gauss), gen_batch::<P>(c, &rl, d, 3, Reg::Gauss)) { (Some(a), Some(b)) => (a, b), _ => { c.count("no smooth points found, skipped", 1); return; } };
    let mut net = build::<P>(&specs, seed, &adj);
    let mut twin = build::<P>(&specs, seed, &adj);
    let lf = if c.rng.chance(1, 2) { L::MeanSquare } else { L::NormCrossEntropy };
    let lr = P::of(P::rnd(z(0.05, if c.rng.chance(1, 3) { 0.02 } else { 0.0 })));
    let before = view(c, &net, &probe.xs, "before");

    let rounds = c.rng.range(1, 3);
    for _ in 0..rounds {
        let at = match c.rng.below(3) { 0 => 0, 1 => n - 1, _ => c.rng.below(n) };
        let fault = c.rng.below(8);
        let mut ds: Dataset<P, P> = Dataset::new();
        let name;
        if fault == 0 { name = "empty batch"; }
        else {
            name = ["", "input of the other kind", "input too long", "input too short", "target of the other kind", "target too long", "target too short", "target empty"][fault];
            for i in 0..n {
                let (mut x, mut t) = (batch.xs[i].clone(), batch.ts[i].clone());
                if i == at {
                    match fault {
                        1 => x = other_kind(&x),
                        2 => x = grow::<P>(&x, true),
                        3 => x = grow::<P>(&x, false),
                        4 => t = other_kind(&t),
                        5 => t = grow::<P>(&t, true),
                        6 => t = grow::<P>(&t, false),
                        _ => t = match t { Feat::V(_) => Feat::V(vec![]), Feat::M(_) => Feat::M(vec![]) },
                    }
                }
                ds.add_point((lib_feat::<P>(&x), lib_feat::<P>(&t)));
            }
        }
        c.refused(&format!("{} training with {name} at point {at} of {n} on {specs:?}", P::NAME), || net.gradient_opt(ds, &lf, lr));
        let after = view(c, &net, &probe.xs, "after a refused call");
        c.check(after == before, || format!("{}: a training call refused for {name} at point {at} of {n} changed {specs:?}", P::NAME));
        c.count(match fault { 0 => "empty batches", 1..=3 => "bad inputs", _ => "bad targets" }, 1);
        if fault > 0 && n > 1 { c.count(if at == 0 { "bad first point" } else if at == n - 1 { "bad last point" } else { "bad point in the middle" }, 1); }
        c.sig(&[P::IS32 as u64, fault as u64, at as u64, n as u64, specs.len() as u64, specs[0].words()[0]]);
    }
    // a later valid call behaves as if nothing had happened
    c.ok("training after a refused call", || net.gradient_opt(batch.lib::<P>(), &lf, lr));
    c.ok("training", || twin.gradient_opt(batch.lib::<P>(), &lf, lr));
    let mut xs = Vec::new();
    for x in &probe.xs { let lx: IOType<P> = lib_feat(x); if let Outcome::Ret(Ok(_)) = c.attempt(|| twin.collect_acts(lx)) { xs.push(x.clone()); } }
    let (a, b) = (view(c, &net, &xs, "after training"), view(c, &twin, &xs, "after training"));
    c.check(a == b, || format!("{}: training after a refused call differs from training without one on {specs:?}", P::NAME));
    c.count("valid calls after refused ones", 1);
    c.sample(|| format!("{} {specs:?}: {rounds} refused training calls, then a valid one", P::NAME));
}

/// Too few layers.
fn short<P: Prec>(c: &mut Ctx) {
    let (d, specs) = if c.rng.chance(1, 2) { let n = c.rng.range(1, 6); (InDim::V(n), vec![Spec::Dense { ni: n, no: c.rng.range(1, 6), act: c.rng.pick(&ACTS), init: Init::XaGU(n) }]) }
        else { let ch = c.rng.range(1, 3); (InDim::M(ch, 5, 4), vec![Spec::Conv { c: ch, f: c.rng.range(1, 3), kh: c.rng.range(1, 4), kw: c.rng.range(1, 4), act: c.rng.pick(&ACTS), init: Init::XaGU(ch) }]) };
    let seed = gen_seed(&mut c.rng);
    let adj = gen_adj::<P>(&mut c.rng, &specs, Reg::Disc);
    let rl = reference::<P>(&specs, seed, &adj);
    let batch = match gen_batch::<P>(c, &rl, d, 3, Reg::Gauss) { Some(b) => b, None => return };
    let mut net = build::<P>(&specs, seed, &adj);
    let before = view(c, &net, &batch.xs, "before");
    let lf = L::MeanSquare;
    c.err("training of a network with one layer", || net.gradient_opt(batch.lib::<P>(), &lf, P::of(z(0.1, 0.0))));
    let after = view(c, &net, &batch.xs, "after");
    c.check(before == after, || format!("a refused training call changed {specs:?}"));
    c.count("networks with one layer", 1);
    c.sig(&words(&specs));
}

/// Adjustments of the wrong size.
fn adjust<P: Prec>(c: &mut Ctx) {
    let (d, s) = if c.rng.chance(1, 2) { let n = c.rng.range(1, 7); (InDim::V(n), Spec::Dense { ni: n, no: c.rng.range(1, 7), act: c.rng.pick(&ACTS), init: Init::XaGU(n) }) }
        else { let ch = c.rng.range(1, 3); (InDim::M(ch, 5, 6), Spec::Conv { c: ch, f: c.rng.range(1, 3), kh: c.rng.range(1, 4), kw: c.rng.range(1, 4), act: c.rng.pick(&ACTS), init: Init::XaGU(ch) }) };
    let specs = [s];
    let seed = gen_seed(&mut c.rng);
    let adj = gen_adj::<P>(&mut c.rng, &specs, Reg::Disc);
    let rl = reference::<P>(&specs, seed, &adj);
    let xs = match gen_batch::<P>(c, &rl, d, 3, Reg::Gauss) { Some(b) => b.xs, None => return };
    let mut l = build_layers::<P>(&specs, seed, &adj).pop().unwrap();
    let (nw, nb) = specs[0].params();
    let off = |c: &mut Ctx, n: usize| -> usize { match c.rng.below(4) { 0 => n + 1, 1 => n - 1, 2 => 0, _ => n + c.rng.range(1, 9) } };
    let (aw, ab) = match c.rng.below(3) { 0 => (off(c, nw), nb), 1 => (nw, off(c, nb)), _ => (off(c, nw), off(c, nb)) };
    let out = |c: &mut Ctx, l: &renplex::cvnn::layer::CLayer<P>| -> Vec<Vec<u64>> { xs.iter().map(|x| { let o = c.ok("forward", || l.foward(&lib_feat::<P>(x))); bits_of(&o) }).collect() };
    let before = out(c, &l);
    let one = P::of(z(0.5, -0.25));
    c.refused(&format!("{} adjustment with {aw} and {ab} values for {nw} weights and {nb} biases of {:?}", P::NAME, specs[0]), || l.neg_conj_adjustment(vec![one; aw], vec![one; ab]));
    let after = out(c, &l);
    c.check(before == after, || format!("{}: a refused adjustment ({aw}, {ab}) changed {:?}", P::NAME, specs[0]));
    c.count("adjustments refused", 1);
    let mut w = specs[0].words(); w.extend([aw as u64, ab as u64]);
    c.sig(&w);
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { failing::<Cf32>(c) } else { failing::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { short::<Cf32>(c) } else { short::<Cf64>(c) } }
fn f3(c: &mut Ctx) { if c.idx % 2 == 0 { adjust::<Cf32>(c) } else { adjust::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "failing", quick: 75_000, thorough: 600_000, f: f1 },
    Stage { name: "large-failing", quick: 7_500, thorough: 40_000, f: f1 },
    Stage { name: "one-layer", quick: 10_000, thorough: 50_000, f: f2 },
    Stage { name: "adjustments", quick: 40_000, thorough: 200_000, f: f3 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C20",
        rule: "distinct (precision, fault, position in the batch, batch size, depth, kind of first layer), plus distinct refused adjustments",
        assumptions: &["a refusal is an error value or a panic", "unchanged means bit-identical activations of every layer on probe inputs"],
        stages: STAGES,
        must_observe: &["empty batches", "bad inputs", "bad targets", "bad first point", "bad last point", "bad point in the middle", "valid calls after refused ones", "networks with one layer", "adjustments refused"],
    });
}
