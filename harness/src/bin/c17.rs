//! C17: convolutional back-propagation.
use monitors::driver::{main as run, Plan};
use monitors::grads::*;
use monitors::nets::*;
use monitors::refm::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::act::ComplexActFunc as A;
use renplex::math::cfloat::{Cf32, Cf64};

type S = (usize, usize, usize, usize, usize, usize);
fn shape(c: &mut Ctx, big: usize) -> S {
    if c.big {
        let [ch, f, h, w, a, b] = large_sizes(&mut c.rng, [40, 40, 50, 50, 15, 15], 600_000, |s| { let (kh, kw) = (s[4].min(s[2]), s[5].min(s[3])); s[0] * s[1] * kh * kw * ((s[2] - kh + 1) * (s[3] - kw + 1) + 4 * s[0] * kh * kw) });
        return (ch, f, h, w, a.min(h), b.min(w));
    }
    let n = if c.small { 2 } else { 4 };
    let (ch, f) = (c.rng.range(1, n), c.rng.range(1, n));
    let (h, w) = (dim(&mut c.rng, c.small, big), dim(&mut c.rng, c.small, big));
    let (kh, kw) = match c.rng.below(6) { 0 => (h, w), 1 => (1, c.rng.range(1, w)), 2 => (c.rng.range(1, h), 1), _ => (c.rng.range(1, h.min(5)), c.rng.range(1, w.min(5))) };
    (ch, f, h, w, kh, kw)
}
fn spec(s: S, act: A, init: Init) -> Spec { Spec::Conv { c: s.0, f: s.1, kh: s.4, kw: s.5, act, init } }
fn input<P: Prec>(c: &mut Ctx, s: S, g: Reg) -> Feat { gen_input::<P>(&mut c.rng, InDim::M(s.0, s.2, s.3), g) }
fn outs(s: S) -> usize { s.1 * (s.2 - s.4 + 1) * (s.3 - s.5 + 1) }
fn fan(s: S) -> usize { s.0 * s.4 * s.5 }
fn sigw(s: S) -> Vec<u64> { [s.0, s.1, s.2, s.3, s.4, s.5].iter().map(|v| *v as u64).collect() }
const BIG: usize = 14;
const SMALL: usize = 5;

/// Integer parameters, features and gradients with the identity activation: exact.
fn exact<P: Prec>(c: &mut Ctx) {
    let s = shape(c, BIG);
    let sp = spec(s, A::None, Init::Uniform(1));
    let (nw, nb) = sp.params();
    let (mut w, mut b) = (vals::<P>(&mut c.rng, Reg::Int, nw), vals::<P>(&mut c.rng, Reg::Int, nb));
    let mut l = sp.with_params::<P>(&w, &b);
    let x = input::<P>(c, s, Reg::Int);
    let g = vals::<P>(&mut c.rng, Reg::Int, outs(s));
    let d = derivs(c, &l, &x, &g, nw, nb);
    compare::<P>(c, &sp.ref_with_params(&w, &b), &x, &g, &d, true, 0.0, &format!("{sp:?} on integers"));
    c.count("exact backward passes", 1);
    // the same layer again: other features or gradients, and changed parameters
    for _ in 0..c.rng.below(3) {
        if c.rng.chance(1, 2) {
            let (dw, db) = (vals::<P>(&mut c.rng, Reg::Int, nw), vals::<P>(&mut c.rng, Reg::Int, nb));
            c.ok("neg_conj_adjustment", || l.neg_conj_adjustment(lib_vec(&dw), lib_vec(&db)));
            for i in 0..nw { w[i] = w[i] - dw[i].conj(); }
            for i in 0..nb { b[i] = b[i] - db[i].conj(); }
            c.count("adjusted between backward passes", 1);
        }
        let x2 = if c.rng.chance(1, 2) { x.clone() } else { input::<P>(c, s, Reg::Int) };
        let g2 = if c.rng.chance(1, 2) { g.clone() } else { vals::<P>(&mut c.rng, Reg::Int, outs(s)) };
        if c.rng.chance(1, 2) { let _ = c.ok("forward", || l.foward(&lib_feat::<P>(&x))); }
        let d = derivs(c, &l, &x2, &g2, nw, nb);
        compare::<P>(c, &sp.ref_with_params(&w, &b), &x2, &g2, &d, true, 0.0, &format!("{sp:?} on integers, used before"));
        c.count("exact backward passes", 1);
    }
    let mut wd = sigw(s); wd.push(P::IS32 as u64);
    c.sig(&wd);
    c.sample(|| format!("{} {sp:?}, integers, exact", P::NAME));
}

/// Seeded and adjusted layers, every activation, error bounds.
fn seeded<P: Prec>(c: &mut Ctx) {
    let s = shape(c, BIG);
    let act = ACTS[c.idx as usize / 2 % ACTS.len()];
    let specs = [spec(s, act, gen_init(&mut c.rng, fan(s)))];
    let seed = gen_seed(&mut c.rng);
    let adj = if c.rng.chance(1, 3) { vec![] } else { gen_adj::<P>(&mut c.rng, &specs, Reg::Disc) };
    let l = build_layers::<P>(&specs, seed, &adj).pop().unwrap();
    let rl = reference::<P>(&specs, seed, &adj).pop().unwrap();
    let r = c.rng.pick(&[Reg::Disc, Reg::Gauss, Reg::Gauss, Reg::Wide, Reg::Axis]);
    let x = input::<P>(c, s, r);
    let (ok, dq) = smooth::<P>(&rl, &x, 0.0);
    if !ok { c.count("points at a kink skipped", 1); return; }
    let r = c.rng.pick(&[Reg::Disc, Reg::Gauss, Reg::Wide, Reg::Sparse]);
    let g = vals::<P>(&mut c.rng, r, outs(s));
    let (nw, nb) = specs[0].params();
    let d = derivs(c, &l, &x, &g, nw, nb);
    compare::<P>(c, &rl, &x, &g, &d, false, dq, &format!("{:?}", specs[0]));
    c.count(match act { A::None => "identity", A::ModZ => "z/|z|", A::RITSigmoid => "sigmoid", A::RITTanh => "tanh", A::RITReLU => "ReLU", A::ZReLU => "zReLU", A::Cardioid => "cardioid" }, 1);
    let mut wd = sigw(s); wd.extend([P::IS32 as u64, act_id(act), 5]);
    c.sig(&wd);
}

/// Against difference quotients of the library's forward pass (double precision).
fn quotients(c: &mut Ctx) {
    let s = shape(c, SMALL);
    let act = ACTS[c.idx as usize % ACTS.len()];
    let sp = spec(s, act, Init::Uniform(1));
    let (nw, nb) = sp.params();
    let (w, b) = (vals::<Cf64>(&mut c.rng, Reg::Disc, nw), vals::<Cf64>(&mut c.rng, Reg::Disc, nb));
    let x = input::<Cf64>(c, s, Reg::Disc);
    let rl = sp.ref_with_params(&w, &b);
    let (ok, _) = smooth::<Cf64>(&rl, &x, 1e-3);
    if !ok || rl.q(&x).flat().iter().any(|q| matches!(act, A::ModZ | A::Cardioid) && q.abs() < 0.2) { c.count("points at a kink skipped", 1); return; }
    let g = vals::<Cf64>(&mut c.rng, Reg::Disc, outs(s));
    let l = sp.with_params::<Cf64>(&w, &b);
    let d = derivs(c, &l, &x, &g, nw, nb);
    let picks = if c.small { 2 } else { 6 };
    differences(c, &sp, &w, &b, &x, &g, &d, picks, &format!("{sp:?}"));
    c.sig(&[3, act_id(act), nw as u64, nb as u64]);
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { exact::<Cf32>(c) } else { exact::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { seeded::<Cf32>(c) } else { seeded::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "exact", quick: 75_000, thorough: 600_000, f: f1 },
    Stage { name: "seeded", quick: 125_000, thorough: 800_000, f: f2 },
    Stage { name: "large-exact", quick: 2_000, thorough: 16_000, f: f1 },
    Stage { name: "large-seeded", quick: 2_000, thorough: 16_000, f: f2 },
    Stage { name: "quotients", quick: 50_000, thorough: 400_000, f: quotients },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C17",
        rule: "distinct (precision, layer shape, activation) whose returned gradients were all compared",
        assumptions: &["the incoming conjugate gradient is the conjugate of the incoming gradient", "points closer to a kink or singularity of the activation than rounding can resolve are skipped and counted"],
        stages: STAGES,
        must_observe: &["gradients compared", "exact backward passes", "adjusted between backward passes", "identity", "z/|z|", "sigmoid", "tanh", "ReLU", "zReLU", "cardioid", "difference quotients (weights)", "difference quotients (biases)", "difference quotients (inputs)"],
    });
}
