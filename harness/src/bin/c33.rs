//! C33: single and double precision use up the generator alike, and agree where their methods agree.
use monitors::driver::{main as run, Plan};
use monitors::nets::*;
use monitors::refm::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage, Z};
use renplex::act::ComplexActFunc as A;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::random::{lcgf32, lcgf64};
use renplex::math::Real;

const E32: f64 = f32::EPSILON as f64;
const METHODS: [&str; 5] = ["uniform", "Xavier-Glorot uniform", "Xavier-Glorot normal", "Xavier", "He"];

fn method(c: &mut Ctx) -> Init {
    let n = match c.rng.below(3) { 0 => c.rng.range(1, 5), 1 => c.rng.range(1, 200), _ => c.rng.range(1, 100_000) };
    match c.rng.below(5) { 0 => Init::Uniform(if c.rng.chance(1, 6) { 0 } else { n }), 1 => Init::XaGU(n), 2 => Init::XaGN(n), 3 => Init::Xa(n), _ => Init::He(n) }
}
fn any_seed(c: &mut Ctx) -> u128 { match c.rng.below(4) { 0 => c.rng.u128(), 1 => c.rng.below(1000) as u128, _ => gen_seed(&mut c.rng) } }

/// What rounding in single precision can make of a weight drawn with this method.
///
/// The root of a logarithm close to zero magnifies the rounding of the draw, at most to its square root.
/// The evenly spread methods place the modulus differently in the two precisions: not compared.
fn slack(i: Init) -> Option<f64> { match i { Init::He(n) | Init::XaGN(n) => Some((2.0 / n as f64).sqrt() * 2.0 * E32.sqrt()), _ => None } }
/// A draw of exactly zero is replaced by the smallest number, which differs between the precisions.
fn zero_draw(i: Init, w: Z) -> bool { match i { Init::He(n) | Init::XaGN(n) => w.abs() > 6.6 * (2.0 / n as f64).sqrt(), _ => false } }

fn compare(c: &mut Ctx, i: Init, a: &[Z], b: &[Z], what: &str) {
    c.check(a.len() == b.len(), || format!("{what}: {} weights in single, {} in double precision", a.len(), b.len()));
    for (k, (x, y)) in a.iter().zip(b).enumerate() {
        if zero_draw(i, *x) || zero_draw(i, *y) { c.count("draws of zero, not compared", 1); continue; }
        let Some(tol) = slack(i) else { continue };
        c.within("weight", (*x - *y).abs(), tol, || format!("{what}: weight {k} is {x:?} in single and {y:?} in double precision"));
    }
    c.count(METHODS[init_id(i) as usize], a.len() as u64);
}

fn draws(c: &mut Ctx) {
    let i = method(c);
    let s0 = any_seed(c);
    let (mut s, mut t) = (s0, s0);
    let n = if c.small { 5 } else { 40 };
    let m = init_of(i);
    let (mut a, mut b) = (Vec::new(), Vec::new());
    for _ in 0..n {
        a.push(Prec::z(c.call("gen", || m.gen::<Cf32>(&mut s))));
        b.push(Prec::z(c.call("gen", || m.gen::<Cf64>(&mut t))));
        c.check(s == t, || format!("{i:?} from seed {s0}: the precisions leave different seeds behind"));
    }
    compare(c, i, &a, &b, &format!("{i:?} from seed {s0}"));
    // plain numbers
    let (mut s, mut t) = (s0, s0);
    for _ in 0..4 {
        let (x, y) = (c.call("lcgf32", || lcgf32(&mut s)), c.call("lcgf64", || lcgf64(&mut t)));
        c.within("draw", (x as f64 - y).abs(), 2.0 * E32, || format!("draw from seed {s0}: {x} in single and {y} in double precision"));
        c.check(s == t, || format!("draws from seed {s0} leave different seeds behind"));
    }
    let scale = if c.rng.chance(1, 8) { 0 } else { c.rng.range(1, 5000) };
    let (x, y) = (c.call("gen", || <f32 as Real>::gen(&mut s, scale)), c.call("gen", || <f64 as Real>::gen(&mut t, scale)));
    c.within("real weight", (x as f64 - y).abs(), 24.0 * E32 * scale as f64, || format!("real weight of scale {scale} after seed {s0}: {x} and {y}"));
    c.check(s == t, || format!("real weights after seed {s0} leave different seeds behind"));
    c.count("real weights", 1);
    c.sig(&[init_id(i), s0 as u64]);
}

fn weights(l: &RLayer) -> Vec<Z> { match l { RLayer::Dense { w, .. } => w.clone(), RLayer::Conv { k, .. } => k.iter().flatten().flat_map(|t| t.v.iter().copied()).collect(), _ => vec![] } }

/// A chain of layers drawn from one seed, read through their outputs.
fn layers(c: &mut Ctx) {
    let s0 = any_seed(c);
    let (mut s, mut t) = (s0, s0);
    let n = c.rng.range(1, 4);
    let mut w = vec![s0 as u64];
    for k in 0..n {
        let i = method(c);
        let dense = c.rng.chance(1, 2);
        let sp = if c.big && c.rng.chance(1, 2) {
            if dense { let [ni, no] = large_sizes(&mut c.rng, [1500, 1500], 6_000, |s| s[0] * s[1]); Spec::Dense { ni, no, act: A::None, init: i } }
            else { let [ch, f, kh, kw] = large_sizes(&mut c.rng, [150, 300, 24, 24], 2_000, |s| s.iter().product()); Spec::Conv { c: ch, f, kh, kw, act: A::None, init: i } }
        } else if dense { Spec::Dense { ni: size(c, 8, 60), no: size(c, 8, 60), act: A::None, init: i } } else { Spec::Conv { c: c.rng.range(1, 4), f: c.rng.range(1, 4), kh: size(c, 4, 8).min(9), kw: size(c, 4, 8).min(9), act: A::None, init: i } };
        let (a, b) = (c.call("init", || sp.lib::<Cf32>(&mut s)), c.call("init", || sp.lib::<Cf64>(&mut t)));
        c.check(s == t, || format!("layer {k} {sp:?} from seed {s0}: the precisions leave different seeds behind"));
        c.check(a.params_len() == b.params_len() && a.get_input_shape() == b.get_input_shape() && a.get_output_shape() == b.get_output_shape(), || format!("layer {k} {sp:?}: the precisions differ in size"));
        let (a, b) = (weights(&probe_linear::<Cf32>(&sp, &a)), weights(&probe_linear::<Cf64>(&sp, &b)));
        compare(c, i, &a, &b, &format!("layer {k} {sp:?} from seed {s0}"));
        c.count(if matches!(sp, Spec::Dense { .. }) { "dense layers" } else { "convolutional layers" }, 1);
        w.extend(sp.words());
    }
    c.sig(&w);
    c.sample(|| format!("{n} layers from seed {s0}"));
}

pub const STAGES: &[Stage] = &[
    Stage { name: "draws", quick: 100_000, thorough: 1_000_000, f: draws },
    Stage { name: "layers", quick: 60_000, thorough: 600_000, f: layers },
    Stage { name: "large-layers", quick: 2_000, thorough: 20_000, f: layers },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C33",
        rule: "distinct (method, seed) and distinct (layers, seed) drawn in both precisions",
        assumptions: &["weights of the evenly spread methods are not compared, only the seeds they leave behind", "a draw of exactly zero, where the normal methods substitute the smallest number of the precision, is not compared"],
        stages: STAGES,
        must_observe: &["uniform", "Xavier-Glorot uniform", "Xavier-Glorot normal", "Xavier", "He", "real weights", "dense layers", "convolutional layers"],
    });
}
