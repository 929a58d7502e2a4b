//! C14: a network is the composition of its layers; reading calls do not change it.
use monitors::driver::{main as run, Outcome, Plan};
use monitors::nets::*;
use monitors::refm::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::act::ComplexActFunc as A;
use renplex::cvnn::layer::CLayer;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::opt::ComplexLossFunc as L;

const OPTS: NetOpts = NetOpts { acts: &ACTS, exact_pool: false, allow_maps: true, flat_end: false, min_layers: 1, max_layers: 6, max_ch: 3, max_dim: 9 };

const SOFT: [A; 3] = [A::None, A::RITSigmoid, A::RITTanh];

/// What a layer declares, to recognise which layer a reference points to.
fn face<P: Prec>(l: &CLayer<P>) -> String {
    let k = match l { CLayer::Dense(_) => "dense", CLayer::Convolutional(_) => "conv", CLayer::Reduce(_) => "pool", CLayer::Flatten(_) => "flat" };
    format!("{k} {:?} -> {:?} {:?}", l.get_input_shape(), l.get_output_shape(), l.params_len())
}

fn compose<P: Prec>(c: &mut Ctx) {
    let mut o = OPTS;
    if c.small { o.max_layers = 3; o.max_dim = 4; }
    if c.big && c.idx % 4 != 3 { o.acts = &SOFT; }
    let (d, specs) = gen_net_for::<P>(c, &o, 3_000_000);
    let seed = gen_seed(&mut c.rng);
    let adj = if c.rng.chance(1, 4) { vec![] } else { gen_adj::<P>(&mut c.rng, &specs, Reg::Disc) };
    let mut net = build::<P>(&specs, seed, &adj);
    let singles = build_layers::<P>(&specs, seed, &adj);
    let rl = reference::<P>(&specs, seed, &adj);
    let g = reg(&mut c.rng);
    let x = gen_input::<P>(&mut c.rng, d, g);
    let tr = trace::<P>(&rl, &x);
    if !tr.determined { c.count("undetermined points skipped", 1); return; }
    let lx = lib_feat::<P>(&x);
    let names = format!("{} {specs:?}", P::NAME);

    // the prediction against the reference model and against the single layers, one by one
    let pred = c.ok("forward", || net.forward(&lx));
    let n = specs.len();
    c.check(shape_of(&pred) == shape_ref(&tr.feats[n]), || format!("prediction has shape {:?}, expected {:?}: {names}", shape_of(&pred), shape_ref(&tr.feats[n])));
    c.within("prediction", max_dist(&pred, &tr.feats[n]), tr.tol[n], || names.clone());
    let mut step = vec![lx.clone()];
    for l in &singles { let y = c.ok("layer", || l.foward(step.last().unwrap())); step.push(y); }
    let bits: Vec<Vec<u64>> = step.iter().map(bits_of).collect();
    c.check(bits_of(&pred) == bits[n], || format!("prediction differs from feeding the layers one after another: {names}"));
    c.count("predictions", 1);

    // every activation
    let acts = c.ok("collect_acts", || net.collect_acts(lx.clone()));
    c.check(acts.len() == n + 1, || format!("{} activations for {n} layers", acts.len()));
    for k in 0..=n {
        c.check(bits_of(&acts[k]) == bits[k], || format!("activation {k} of {n} differs from the output of layer {k}: {names}"));
        c.within("activation", max_dist(&acts[k], &tr.feats[k]), tr.tol[k], || format!("activation {k}: {names}"));
    }
    // interception
    for k in 0..n {
        let (f, l) = c.ok("intercept", || net.intercept(lx.clone(), k));
        c.check(bits_of(&f) == bits[k], || format!("intercept({k}) does not return the features entering that layer: {names}"));
        c.check(face(l) == face(&singles[k]), || format!("intercept({k}) returned layer {}, expected {}", face(l), face(&singles[k])));
        let y = c.ok("intercepted layer", || l.foward(&f));
        c.check(bits_of(&y) == bits[k + 1], || format!("the layer returned by intercept({k}) is not layer {k}: {names}"));
        c.count("interceptions", 1);
    }
    let far = n + c.rng.below(3);
    c.err(&format!("intercept({far}) of {n} layers"), || net.intercept(lx.clone(), far));

    // reading calls, in any order, change nothing
    let mut data = Dataset::new();
    let m = c.rng.range(1, 4);
    for _ in 0..m {
        let xi = gen_input::<P>(&mut c.rng, d, g);
        if !trace::<P>(&rl, &xi).determined { continue; }
        let t = match &pred { IOType::Scalar(v) => IOType::Scalar(lib_vec::<P>(&vals::<P>(&mut c.rng, Reg::Gauss, v.len()))), IOType::Matrix(ms) => IOType::Matrix(ms.iter().map(|t| lib_mat::<P>(&tab::<P>(&mut c.rng, Reg::Gauss, t.get_shape()[0], t.get_shape()[1]))).collect()) };
        data.add_point((lib_feat::<P>(&xi), t));
    }
    if data.get_n_points() == 0 { data.add_point((lx.clone(), pred.clone())); }
    let lf = if c.rng.chance(1, 2) { L::MeanSquare } else { L::NormCrossEntropy };
    let vector = matches!(pred, IOType::Scalar(_));
    let l0 = c.ok("loss", || net.loss(&data, &lf));
    let a0 = if vector { Some(P::flbits(c.call("max_pred_test", || net.max_pred_test(&data)))) } else { None };
    for _ in 0..4 {
        match c.rng.below(5) {
            0 => { let p = c.ok("forward", || net.forward(&lx)); c.check(bits_of(&p) == bits[n], || format!("repeated prediction differs: {names}")); }
            1 => { let l = c.ok("loss", || net.loss(&data, &lf)); c.check(P::flbits(l) == P::flbits(l0), || format!("repeated loss differs: {names}")); }
            2 => if vector { let a = c.call("max_pred_test", || net.max_pred_test(&data)); c.check(Some(P::flbits(a)) == a0, || format!("repeated accuracy differs: {names}")); },
            3 => { let a = c.ok("collect_acts", || net.collect_acts(lx.clone())); c.check(a.iter().map(bits_of).collect::<Vec<_>>() == bits, || format!("repeated activations differ: {names}")); }
            _ => { let k = c.rng.below(n); let b = { let (f, _) = c.ok("intercept", || net.intercept(lx.clone(), k)); bits_of(&f) }; c.check(b == bits[k], || format!("repeated intercept differs: {names}")); }
        }
        c.count("repeated reads", 1);
    }
    let p = c.ok("forward", || net.forward(&lx));
    c.check(bits_of(&p) == bits[n], || format!("prediction differs after other reads: {names}"));
    // other inputs in between, then the first one again
    let other = gen_input::<P>(&mut c.rng, d, g);
    let ot = trace::<P>(&rl, &other);
    if ot.determined {
        let lo = lib_feat::<P>(&other);
        let p = c.ok("forward", || net.forward(&lo));
        c.within("prediction", max_dist(&p, &ot.feats[n]), ot.tol[n], || format!("second input: {names}"));
        let mut y = lo.clone();
        for l in &singles { y = c.ok("layer", || l.foward(&y)); }
        c.check(bits_of(&p) == bits_of(&y), || format!("prediction of a second input differs from feeding the layers: {names}"));
        let p = c.ok("forward", || net.forward(&lx));
        c.check(bits_of(&p) == bits[n], || format!("prediction differs after predicting another input: {names}"));
        c.count("second inputs", 1);
    }
    // after training the prediction is the composition of the layers as they are now
    if n > 1 && vector && data.get_n_points() > 0 {
        let lr = P::of(P::rnd(monitors::num::z(0.01, 0.0)));
        if let Outcome::Ret(Ok(_)) = c.attempt(|| net.gradient_opt(data.clone(), &L::MeanSquare, lr)) {
            let mut y = lx.clone();
            let mut fine = true;
            for k in 0..n {
                // a parameter may have left the range in which the activations are defined
                let (f, l) = match c.attempt(|| net.intercept(lx.clone(), k)) { Outcome::Ret(Ok(r)) => r, _ => { fine = false; break; } };
                c.check(bits_of(&f) == bits_of(&y), || format!("after training, intercept({k}) does not return what the layers before it give: {names}"));
                y = match c.attempt(|| l.foward(&y)) { Outcome::Ret(Ok(r)) => r, _ => { fine = false; break; } };
            }
            if fine && ref_feat(&y).flat().iter().all(|v| v.finite()) {
                let p = c.ok("forward", || net.forward(&lx));
                c.check(bits_of(&p) == bits_of(&y), || format!("after training, the prediction is not the composition of the layers: {names}"));
                let a = c.ok("collect_acts", || net.collect_acts(lx.clone()));
                c.check(a.len() == n + 1 && bits_of(&a[n]) == bits_of(&y), || format!("after training, the activations do not end with the prediction: {names}"));
                c.count("predictions after training", 1);
            }
        }
    }
    if n > 2 { c.count("networks of three or more layers", 1); }
    if n > 6 { c.count("networks of seven or more layers", 1); }
    c.sig(&words(&specs));
    c.sample(|| format!("{} layers {specs:?}, prediction, {n} interceptions, all activations", P::NAME));
}
fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { compose::<Cf32>(c) } else { compose::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "composition", quick: 100_000, thorough: 600_000, f: f1 },
    Stage { name: "large-composition", quick: 7_500, thorough: 40_000, f: f1 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C14",
        rule: "distinct network architectures (layer kinds, sizes, activations, initialisation) whose predictions, activations and interceptions were compared",
        assumptions: &["points whose value depends on rounding (jump of an activation, direction of a near-zero number) are skipped and counted"],
        stages: STAGES,
        must_observe: &["predictions", "interceptions", "repeated reads", "networks of three or more layers", "networks of seven or more layers", "second inputs", "predictions after training"],
    });
}
