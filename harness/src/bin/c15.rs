//! C15: construction of networks and what they report.
use monitors::driver::{main as run, Plan};
use monitors::nets::*;
use monitors::refm::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::act::ComplexActFunc as A;
use renplex::cvnn::layer::{conv::ConvCLayer, dense::DenseCLayer, CLayer};
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::init::InitMethod;
use renplex::input::IOShape;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::opt::ComplexLossFunc as L;

/// A layer that was not initialised: no units, or no channels and filters.
fn blank<P: Prec>(c: &mut Ctx, n: usize) -> (CLayer<P>, &'static str) {
    let mut s = gen_seed(&mut c.rng);
    if c.rng.chance(1, 2) { (DenseCLayer::<P>::init(IOShape::Scalar(n), 0, A::None, InitMethod::Uniform(1), &mut s).expect("LIB: dense init").wrap(), "dense without units") }
    else { (ConvCLayer::<P>::init(IOShape::Matrix(0), 0, [2, 2], A::None, InitMethod::Uniform(1), &mut s).expect("LIB: conv init").wrap(), "convolution without channels and filters") }
}

fn gen_layer(c: &mut Ctx, want: Option<IOShape>) -> Spec {
    // half of the time a layer that fits what is asked for
    let top = if c.big { large(&mut c.rng, 40) } else { 6 };
    let n = c.rng.range(1, top);
    let fit = if c.big { c.rng.chance(9, 10) } else { c.rng.chance(3, 5) };
    let kind = match (&want, fit) { (Some(IOShape::Scalar(_)), true) => 0, (Some(IOShape::Matrix(_)), true) => c.rng.range(1, 3), _ => c.rng.below(4) };
    let n = match (&want, fit) { (Some(IOShape::Scalar(k)), true) | (Some(IOShape::Matrix(k)), true) => *k, _ => n };
    match kind {
        0 => Spec::Dense { ni: n, no: c.rng.range(1, top), act: c.rng.pick(&ACTS), init: Init::Uniform(1) },
        1 => Spec::Conv { c: n, f: c.rng.range(1, top), kh: c.rng.range(1, 3), kw: c.rng.range(1, 3), act: c.rng.pick(&ACTS), init: Init::Uniform(1) },
        2 => Spec::Pool { n, bh: c.rng.range(1, 3), bw: c.rng.range(1, 3), kind: PoolKind::Mean, kernel: Tab::new(3, 3) },
        _ => Spec::Flat { h: c.rng.range(1, 3), w: c.rng.range(1, 3), n },
    }
}

fn reports<P: Prec>(c: &mut Ctx, net: &CNetwork<P>, have: &[Spec], after: &str) {
    match (have.first(), have.last()) {
        (Some(f), Some(l)) => {
            let i = c.ok("get_input_shape", || net.get_input_shape());
            c.check(i == f.in_shape(), || format!("after {after}: input shape {i:?}, first layer takes {:?}", f.in_shape()));
            let o = c.ok("get_output_shape", || net.get_output_shape());
            c.check(o == l.out_shape(), || format!("after {after}: output shape {o:?}, last layer gives {:?}", l.out_shape()));
        }
        _ => {
            c.err(&format!("input shape of an empty network after {after}"), || net.get_input_shape());
            c.err(&format!("output shape of an empty network after {after}"), || net.get_output_shape());
        }
    }
    let p = c.call("params_len", || net.params_len());
    let want: usize = have.iter().map(|s| s.params().0 + s.params().1).sum();
    c.check(p == want, || format!("after {after}: {p} parameters, layers have {want}"));
}

fn build_seq<P: Prec>(c: &mut Ctx) {
    let mut net = CNetwork::<P>::new();
    let mut have: Vec<Spec> = Vec::new();
    reports(c, &net, &have, "creation");
    let steps = if c.big { c.rng.range(20, 120) } else { c.rng.range(3, 14) };
    let mut wordsv = vec![];
    for _ in 0..steps {
        let first = if have.is_empty() { c.rng.chance(1, 2) } else { c.rng.chance(1, 8) };
        let want = have.last().map(|s| s.out_shape());
        if c.rng.chance(1, 6) {
            let n = match want { Some(IOShape::Scalar(k)) => k, _ => 3 };
            let (l, what) = blank::<P>(c, n);
            if first { c.err(&format!("add_input of a {what}"), || net.add_input(l)) } else { c.err(&format!("add of a {what}"), || net.add(l)) }
            c.count("uninitialised layers refused", 1);
            reports(c, &net, &have, "refusing an uninitialised layer");
            continue;
        }
        let s = gen_layer(c, have.last().map(|s| s.out_shape()));
        let mut seed = gen_seed(&mut c.rng);
        let l = s.lib::<P>(&mut seed);
        let ok = if first { have.is_empty() } else { want == Some(s.in_shape()) };
        let what = if first { "add_input" } else { "add" };
        if ok {
            c.ok(&format!("{what} of {s:?} after {have:?}"), || if first { net.add_input(l) } else { net.add(l) });
            have.push(s.clone());
            c.count("layers accepted", 1);
        } else {
            c.err(&format!("{what} of {s:?} after {have:?}"), || if first { net.add_input(l) } else { net.add(l) });
            c.count(if first { "second first layers refused" } else if have.is_empty() { "layers before the first refused" } else { "layers that do not fit refused" }, 1);
        }
        wordsv.extend(s.words());
        reports(c, &net, &have, what);
    }
    c.sig(&wordsv);
    c.sample(|| format!("{} network ending with {} layers after {steps} additions", P::NAME, have.len()));
}

/// Refused additions leave predictions bit-identical.
fn unchanged<P: Prec>(c: &mut Ctx) {
    let o = NetOpts { acts: &ACTS, exact_pool: false, allow_maps: true, flat_end: false, min_layers: 1, max_layers: 4, max_ch: 3, max_dim: 6 };
    let (d, specs) = gen_net::<P>(&mut c.rng, &o);
    let seed = gen_seed(&mut c.rng);
    let mut net = build::<P>(&specs, seed, &vec![]);
    let rl = reference::<P>(&specs, seed, &vec![]);
    let x = gen_input::<P>(&mut c.rng, d, Reg::Gauss);
    if !trace::<P>(&rl, &x).determined { c.count("undetermined points skipped", 1); return; }
    let lx = lib_feat::<P>(&x);
    let p = c.ok("forward", || net.forward(&lx));
    for _ in 0..3 {
        let s = gen_layer(c, None);
        let mut sd = gen_seed(&mut c.rng);
        let l = s.lib::<P>(&mut sd);
        match c.rng.below(3) {
            0 => c.err("second add_input", || net.add_input(l)),
            1 if s.in_shape() != specs.last().unwrap().out_shape() => c.err("add of a layer that does not fit", || net.add(l)),
            _ => { let (l, w) = blank::<P>(c, 3); c.err(w, || net.add(l)) }
        }
        let q = c.ok("forward", || net.forward(&lx));
        c.check(bits_of(&q) == bits_of(&p), || format!("a refused layer changed the prediction of {specs:?}"));
        c.count("predictions after a refusal", 1);
    }
    c.sig(&words(&specs));
}

fn empty<P: Prec>(c: &mut Ctx) {
    let mut net = CNetwork::<P>::new();
    let n = c.rng.range(1, 5);
    let d = if c.rng.chance(1, 2) { InDim::V(n) } else { InDim::M(n, 3, 4) };
    let x = lib_feat::<P>(&gen_input::<P>(&mut c.rng, d, Reg::Gauss));
    c.err("prediction of an empty network", || net.forward(&x));
    let k = c.rng.below(4);
    c.err("intercept of an empty network", || net.intercept(x.clone(), k).map(|_| ()));
    c.err("activations of an empty network", || net.collect_acts(x.clone()));
    c.err("input shape of an empty network", || net.get_input_shape());
    c.err("output shape of an empty network", || net.get_output_shape());
    let mut ds = Dataset::new();
    for _ in 0..c.rng.below(3) { ds.add_point((x.clone(), x.clone())); }
    let lf = if c.rng.chance(1, 2) { L::MeanSquare } else { L::NormCrossEntropy };
    c.err("training of an empty network", || net.gradient_opt(ds, &lf, P::of(monitors::num::z(0.1, 0.0))));
    let p = c.call("params_len", || net.params_len());
    c.check(p == 0, || format!("an empty network reports {p} parameters"));
    c.count("requests to an empty network", 1);
    c.sig(&[n as u64, P::IS32 as u64, k as u64]);
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { build_seq::<Cf32>(c) } else { build_seq::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { unchanged::<Cf32>(c) } else { unchanged::<Cf64>(c) } }
fn f3(c: &mut Ctx) { if c.idx % 2 == 0 { empty::<Cf32>(c) } else { empty::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "sequences", quick: 150_000, thorough: 1_200_000, f: f1 },
    Stage { name: "large-sequences", quick: 5_000, thorough: 40_000, f: f1 },
    Stage { name: "unchanged", quick: 25_000, thorough: 200_000, f: f2 },
    Stage { name: "empty", quick: 2_500, thorough: 12_500, f: f3 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C15",
        rule: "distinct sequences of offered layers whose acceptance and reported sizes were followed",
        assumptions: &["an uninitialised layer is a dense layer without units or a convolutional layer without channels and filters"],
        stages: STAGES,
        must_observe: &["layers accepted", "second first layers refused", "layers before the first refused", "layers that do not fit refused", "uninitialised layers refused", "predictions after a refusal", "requests to an empty network"],
    });
}
