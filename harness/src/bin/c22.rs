//! C22: weight initialisation.
use monitors::driver::{main as run, Plan};
use monitors::nets::*;
use monitors::refm::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage, Z};
use renplex::act::ComplexActFunc as A;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::Real;

const M: u128 = (1 << 31) - 1;
fn pow(mut b: u128, mut e: u128) -> u128 { let mut r = 1; b %= M; while e > 0 { if e & 1 == 1 { r = r * b % M; } b = b * b % M; e >>= 1; } r }
fn before(state: u128, k: usize) -> u128 { let inv = pow(1103515245, M - 2); (0..k).fold(state % M, |s, _| (s + M - 12345) % M * inv % M) }
const FIXED: u128 = 1934915413;
fn any_seed(c: &mut Ctx) -> u128 {
    let s = match c.rng.below(6) {
        0 => { let t = c.rng.pick(&[0u128, 0, 1, M - 1, M - 2]); let k = c.rng.range(1, 9); before(t, k) }
        1 => c.rng.u128(),
        2 => c.rng.below(100) as u128,
        _ => c.rng.u128() % M,
    };
    if s % M == FIXED { 42 } else { s }
}
fn gen<P: Prec>(i: Init, s: &mut u128) -> P {
    match i { Init::Uniform(n) => P::gen(s, n), Init::XaGU(n) => P::gen_xagu(s, n), Init::XaGN(n) => P::gen_xagn(s, n), Init::Xa(n) => P::gen_xa(s, n), Init::He(n) => P::gen_he(s, n) }
}
/// Largest modulus of the evenly spread methods, or the root mean square of the others.
fn scale(i: Init) -> (f64, bool) {
    match i { Init::Uniform(n) => (n as f64, true), Init::Xa(n) => ((12.0 / n as f64).sqrt(), true), Init::XaGU(n) => ((6.0 / n as f64).sqrt(), true), Init::He(n) | Init::XaGN(n) => ((2.0 / n as f64).sqrt(), false) }
}
fn method(c: &mut Ctx) -> Init {
    let n = match c.rng.below(3) { 0 => c.rng.range(1, 5), 1 => c.rng.range(1, 200), _ => c.rng.range(1, 100_000) };
    match c.rng.below(5) { 0 => Init::Uniform(n), 1 => Init::XaGU(n), 2 => Init::XaGN(n), 3 => Init::Xa(n), _ => Init::He(n) }
}
fn ks(c: &mut Ctx, mut u: Vec<f64>, what: &'static str, msg: String) {
    u.sort_by(f64::total_cmp);
    let n = u.len() as f64;
    let d = u.iter().enumerate().map(|(i, x)| (x - i as f64 / n).abs().max((x - (i + 1) as f64 / n).abs())).fold(0.0, f64::max);
    c.within(what, d, 3.5 / n.sqrt(), || format!("{msg}: {what} deviates by {d} from even"));
}

fn judge<P: Prec>(c: &mut Ctx, w: &[Z], i: Init, msg: &str) {
    let (s, even) = scale(i);
    c.check(w.iter().all(|v| v.finite()), || format!("{msg}: weight that is not finite"));
    let n = w.len() as f64;
    if even {
        c.check(w.iter().all(|v| v.abs() <= s * (1.0 + 8.0 * P::EPS)), || format!("{msg}: weight of modulus {} beyond {s}", w.iter().map(|v| v.abs()).fold(0.0, f64::max)));
        if n > 1000.0 { ks(c, w.iter().map(|v| v.abs() / s).collect(), "spread of moduli", msg.to_string()); }
    } else if n > 1000.0 {
        // a draw of exactly zero gives one weight far out, which is not what a sample mean is about
        let far = w.iter().filter(|v| v.abs() > 8.0 * s).count();
        c.check(far <= 2, || format!("{msg}: {far} weights beyond eight times {s}"));
        let rms = (w.iter().filter(|v| v.abs() <= 8.0 * s).map(|v| v.n2()).sum::<f64>() / n).sqrt();
        c.within("root mean square", (rms / s - 1.0).abs(), 6.0 * (1.0 / (2.0 * n)).sqrt() + 1e-4, || format!("{msg}: root mean square {rms}, expected {s}"));
    }
    if n > 1000.0 {
        ks(c, w.iter().filter(|v| v.n2() > 0.0).map(|v| (v.arg() / std::f64::consts::TAU).rem_euclid(1.0)).collect(), "spread of phases", msg.to_string());
        c.count("samples tested statistically", 1);
        c.count(["uniform", "Xavier-Glorot uniform", "Xavier-Glorot normal", "Xavier", "He"][init_id(i) as usize], 1);
    }
    c.count("weights judged", w.len() as u64);
}

/// Numbers drawn directly.
fn direct<P: Prec>(c: &mut Ctx) {
    let i = method(c);
    let s0 = any_seed(c);
    let n = if c.small { 20 } else if c.idx % 8 < 2 { 20_000 } else { 50 };
    let mut s = s0;
    let mut t = s0;
    let m = init_of(i);
    let mut w = Vec::with_capacity(n);
    for _ in 0..n {
        let a = c.call("gen", || gen::<P>(i, &mut s));
        let b: P = c.call("InitMethod::gen", || m.gen(&mut t));
        c.check(a.bits() == b.bits() && s == t, || format!("{} {i:?} from the same seed: {:?} and {:?}", P::NAME, a.z(), b.z()));
        w.push(a.z());
    }
    c.check(s != s0 || n == 0, || format!("{i:?} does not advance the seed"));
    judge::<P>(c, &w, i, &format!("{} {i:?}, {n} draws from seed {s0}", P::NAME));
    c.sig(&[P::IS32 as u64, init_id(i), s0 as u64]);
    c.sample(|| format!("{} {i:?} seed {s0}: {n} draws, largest modulus {}", P::NAME, w.iter().map(|v| v.abs()).fold(0.0, f64::max)));
}

fn spec(c: &mut Ctx, i: Init, big: bool) -> Spec {
    if c.big {
        c.count("large layers", 1);
        if c.rng.chance(1, 2) { let [ni, no] = large_sizes(&mut c.rng, [1500, 1500], 9_000, |s| s[0] * s[1]); return Spec::Dense { ni, no, act: A::None, init: i }; }
        let [ch, f, kh, kw] = large_sizes(&mut c.rng, [150, 300, 24, 24], 3_000, |s| s.iter().product());
        return Spec::Conv { c: ch, f, kh, kw, act: A::None, init: i };
    }
    if c.rng.chance(1, 2) { let (ni, no) = if big { (c.rng.range(40, 80), c.rng.range(40, 80)) } else { (c.rng.range(1, 8), c.rng.range(1, 8)) }; Spec::Dense { ni, no, act: A::None, init: i } }
    else { let (ch, f, kh, kw) = if big { (c.rng.range(4, 7), c.rng.range(6, 12), c.rng.range(5, 8), c.rng.range(5, 8)) } else { (c.rng.range(1, 3), c.rng.range(1, 4), c.rng.range(1, 4), c.rng.range(1, 4)) }; Spec::Conv { c: ch, f, kh, kw, act: A::None, init: i } }
}
fn weights(l: &RLayer) -> Vec<Z> { match l { RLayer::Dense { w, .. } => w.clone(), RLayer::Conv { k, .. } => k.iter().flatten().flat_map(|t| t.v.iter().copied()).collect(), _ => vec![] } }
fn bits<P: Prec>(w: &[Z]) -> Vec<(u64, u64)> { w.iter().map(|v| P::of(*v).bits()).collect() }
/// How many different numbers are expected at least among n draws.
fn distinct<P: Prec>(w: &[Z]) -> usize { let mut b = bits::<P>(w); b.sort(); b.dedup(); b.len() }

/// Layers: scaled weights, zero biases, repeatable, different from each other.
fn layers<P: Prec>(c: &mut Ctx) {
    let i = method(c);
    let big = !c.small && c.idx % 16 < 2;
    let s = spec(c, i, big);
    let s0 = any_seed(c);
    let mut seed = s0;
    let l = c.call("init", || s.lib::<P>(&mut seed));
    let w = weights(&probe_linear::<P>(&s, &l));
    judge::<P>(c, &w, i, &format!("{} {s:?} from seed {s0}", P::NAME));
    // biases: no input, no output
    let zero = match &s { Spec::Dense { ni, .. } => Feat::V(vec![Z::ZERO; *ni]), Spec::Conv { c: ch, kh, kw, .. } => Feat::M((0..*ch).map(|_| Tab::new(*kh, *kw)).collect()), _ => unreachable!() };
    let o = ref_feat(&c.ok("forward", || l.foward(&lib_feat::<P>(&zero)))).flat();
    c.check(o.iter().all(|v| v.re == 0.0 && v.im == 0.0), || format!("{} {s:?}: fresh biases {o:?}", P::NAME));
    c.count("layers with zero bias", 1);
    // weights differ within the layer and from the next layer's
    c.check(distinct::<P>(&w) + 1 + w.len() / 50 >= w.len(), || format!("{} {s:?} from seed {s0}: only {} of {} weights are different", P::NAME, distinct::<P>(&w), w.len()));
    let mid = seed;
    c.check(mid != s0, || format!("{s:?} leaves the seed {s0} as it was"));
    let next = weights(&probe_linear::<P>(&s, &s.lib::<P>(&mut seed)));
    let same = w.iter().zip(&next).filter(|(a, b)| a == b).count();
    c.check(same * 50 <= w.len() + 49, || format!("{} {s:?}: {same} of {} weights of two consecutive layers agree", P::NAME, w.len()));
    let all: Vec<Z> = w.iter().chain(&next).copied().collect();
    c.check(distinct::<P>(&all) + 2 + all.len() / 50 >= all.len(), || format!("{} {s:?} from seed {s0}: consecutive layers share weights", P::NAME));
    c.count("consecutive layers compared", 1);
    // repeat, after other activity and on another thread
    let mut again = s0;
    let l2 = s.lib::<P>(&mut again);
    let w2 = weights(&probe_linear::<P>(&s, &l2));
    c.check(again == mid && bits::<P>(&w) == bits::<P>(&w2), || format!("{} {s:?} from seed {s0} differs when built a second time", P::NAME));
    if !c.small && c.rng.chance(1, 8) {
        let (w3, end) = std::thread::scope(|t| t.spawn(|| { let mut q = s0; let l = s.lib::<P>(&mut q); (weights(&probe_linear::<P>(&s, &l)), q) }).join()).unwrap_or_else(|e| std::panic::resume_unwind(e));
        c.check(end == mid && bits::<P>(&w) == bits::<P>(&w3), || format!("{} {s:?} from seed {s0} differs on another thread", P::NAME));
        c.count("layers built on another thread", 1);
    }
    c.count("layers rebuilt", 1);
    let mut k = s.words(); k.push(s0 as u64);
    c.sig(&k);
}

fn real(c: &mut Ctx) {
    let s0 = any_seed(c);
    let n = c.rng.range(1, 1000);
    let k = if c.small { 10 } else { 20_000 };
    let (mut s, mut t) = (s0, s0);
    let mut u = Vec::new();
    let mut v = Vec::new();
    for _ in 0..k {
        let a = c.call("f32::gen", || <f32 as Real>::gen(&mut s, n)) as f64;
        let b = c.call("f64::gen", || <f64 as Real>::gen(&mut t, n));
        u.push((a / n as f64 + 1.0) / 2.0);
        v.push((b / n as f64 + 1.0) / 2.0);
    }
    c.check(s == t, || "real draws of both precisions advance the seed differently".to_string());
    c.check(u.iter().chain(&v).all(|x| (-1e-6..=1.0 + 1e-6).contains(x)), || format!("real draw outside the scale {n} from seed {s0}"));
    if !c.small { ks(c, u, "spread of real draws", format!("f32 from seed {s0}")); ks(c, v, "spread of real draws", format!("f64 from seed {s0}")); }
    c.count("real samples", 1);
    c.sig(&[s0 as u64, n as u64]);
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { direct::<Cf32>(c) } else { direct::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { layers::<Cf32>(c) } else { layers::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "direct", quick: 20_000, thorough: 120_000, f: f1 },
    Stage { name: "layers", quick: 30_000, thorough: 200_000, f: f2 },
    Stage { name: "large-layers", quick: 800, thorough: 6_000, f: f2 },
    Stage { name: "real", quick: 300, thorough: 3_000, f: real },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C22",
        rule: "distinct (method or layer, precision, seed)",
        assumptions: &["statistical bounds that a random sample exceeds with probability below 1e-8", "the generator's fixed point is left out"],
        stages: STAGES,
        must_observe: &["samples tested statistically", "uniform", "Xavier-Glorot uniform", "Xavier-Glorot normal", "Xavier", "He", "layers with zero bias", "large layers", "consecutive layers compared", "layers rebuilt", "layers built on another thread", "real samples"],
    });
}
