//! C11: dense layer forward pass.
use monitors::driver::{main as run, Plan};
use monitors::nets::*;
use monitors::refm::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::act::ComplexActFunc as A;
use renplex::cvnn::layer::CLayer;
use renplex::input::IOShape;
use renplex::math::cfloat::{Cf32, Cf64};

fn declared<P: Prec>(c: &mut Ctx, l: &CLayer<P>, ni: usize, no: usize) {
    let (i, o, p, e, g) = c.call("declared shapes", || (l.get_input_shape(), l.get_output_shape(), l.params_len(), l.is_empty(), l.propagates()));
    c.check(i == IOShape::Scalar(ni), || format!("{ni} -> {no}: declared input {i:?}"));
    c.check(o == IOShape::Scalar(no), || format!("{ni} -> {no}: declared output {o:?}"));
    c.check(p == (ni * no, no), || format!("{ni} -> {no}: declared parameters {p:?}"));
    c.check(!e && g, || format!("{ni} -> {no}: is_empty = {e}, propagates = {g}"));
    if let CLayer::Dense(d) = l {
        let (i, o, p) = (d.get_input_shape(), d.get_output_shape(), d.params_len());
        c.check(i == IOShape::Scalar(ni) && o == IOShape::Scalar(no) && p == (ni * no, no), || format!("{ni} -> {no}: the layer itself declares {i:?}, {o:?}, {p:?}"));
    }
}

fn run_layer<P: Prec>(c: &mut Ctx, l: &CLayer<P>, x: &Feat, no: usize) -> Vec<monitors::Z> {
    let lx = lib_feat::<P>(x);
    let before = bits_of(&lx);
    let out = c.ok("forward", || l.foward(&lx));
    let direct = match l { CLayer::Dense(d) => c.ok("forward", || d.forward(&lx)), _ => c.fail("wrapping a dense layer gave another kind".into()) };
    c.check(bits_of(&out) == bits_of(&direct), || "wrapped and direct layer disagree".into());
    c.check(bits_of(&lx) == before, || "forward changed its input".into());
    c.check(shape_of(&out) == vec![0, no], || format!("output shape {:?}, expected a vector of {no}", shape_of(&out)));
    ref_feat(&out).flat()
}

fn shape(c: &mut Ctx) -> (usize, usize) {
    // reading the weights of a seeded layer takes one forward pass per input
    if c.big { let [a, b] = large_sizes(&mut c.rng, [1000, 1000], 4_000_000, |s| s[0] * s[0] * s[1]); return (a, b); }
    (dim(&mut c.rng, c.small, 100), dim(&mut c.rng, c.small, 100))
}

/// Integer weights, biases and inputs: every sum is exact, so the result is too.
fn exact<P: Prec>(c: &mut Ctx) {
    let (ni, no) = shape(c);
    let act = c.rng.pick(&[A::None, A::RITReLU]);
    let s = Spec::Dense { ni, no, act, init: Init::Uniform(1) };
    let (mut w, mut b) = (vals::<P>(&mut c.rng, Reg::Int, ni * no), vals::<P>(&mut c.rng, Reg::Int, no));
    let mut l = s.with_params::<P>(&w, &b);
    declared(c, &l, ni, no);
    // one input comes back after others and after the parameters have changed
    let x0 = gen_input::<P>(&mut c.rng, InDim::V(ni), Reg::Int);
    let turns = c.rng.range(2, 5);
    for turn in 0..turns {
        if turn > 0 && c.rng.chance(1, 2) {
            let (dw, db) = (vals::<P>(&mut c.rng, Reg::Int, ni * no), vals::<P>(&mut c.rng, Reg::Int, no));
            c.ok("neg_conj_adjustment", || l.neg_conj_adjustment(lib_vec(&dw), lib_vec(&db)));
            for i in 0..w.len() { w[i] = w[i] - dw[i].conj(); }
            for i in 0..no { b[i] = b[i] - db[i].conj(); }
            c.count("adjusted between forward passes", 1);
        }
        let x = if turn == 0 || c.rng.chance(1, 2) { x0.clone() } else { gen_input::<P>(&mut c.rng, InDim::V(ni), Reg::Int) };
        let out = run_layer(c, &l, &x, no);
        let want = s.ref_with_params(&w, &b).fwd(&x).flat();
        for i in 0..no {
            c.check(out[i].dist(want[i]) == 0.0, || format!("{} dense {ni} -> {no} {act:?}: unit {i} = {:?}, exactly {:?}", P::NAME, out[i], want[i]));
        }
        c.count("exact forward passes", 1);
    }
    c.sig(&[P::IS32 as u64, ni as u64, no as u64, act_id(act)]);
    c.sample(|| format!("{} dense {ni} -> {no} {act:?} with integer weights and biases, exact", P::NAME));
}

/// Seeded weights (read through the identity twin) shifted by a known adjustment, any activation.
fn seeded<P: Prec>(c: &mut Ctx) {
    let (ni, no) = shape(c);
    let act = ACTS[c.idx as usize / 2 % ACTS.len()];
    let specs = [Spec::Dense { ni, no, act, init: gen_init(&mut c.rng, ni) }];
    let seed = gen_seed(&mut c.rng);
    let fresh = c.rng.chance(1, 3);
    let adj = if fresh { vec![] } else { gen_adj::<P>(&mut c.rng, &specs, Reg::Disc) };
    let mut l = build_layers::<P>(&specs, seed, &adj).pop().unwrap();
    declared(c, &l, ni, no);
    let mut rl = reference::<P>(&specs, seed, &adj);
    let g = reg(&mut c.rng);
    let x = gen_input::<P>(&mut c.rng, InDim::V(ni), g);
    judge::<P>(c, &l, &rl[0], &x, act, ni, no);
    if c.rng.chance(1, 3) {
        let more = gen_adj::<P>(&mut c.rng, &specs, Reg::Disc);
        c.ok("neg_conj_adjustment", || l.neg_conj_adjustment(lib_vec(&more[0].0), lib_vec(&more[0].1)));
        adjust_ref::<P>(&mut rl[0], &more[0]);
        judge::<P>(c, &l, &rl[0], &x, act, ni, no);
    }
    if !fresh { c.count("layers with non-zero biases", 1); }
    c.sig(&[7, P::IS32 as u64, ni as u64, no as u64, act_id(act), fresh as u64]);
}
fn judge<P: Prec>(c: &mut Ctx, l: &CLayer<P>, rl: &RLayer, x: &Feat, act: A, ni: usize, no: usize) {
    let q = rl.q(x).flat();
    // z/|z| is not defined at zero
    if act_id(act) == act_id(A::ModZ) && q.iter().any(|v| v.abs() < 1e-30) { c.count("zero argument of z/|z|, skipped", 1); return; }
    let out = run_layer(c, l, x, no);
    let (mag, n) = rl.qmag(x);
    for i in 0..no {
        let dq = 2.0 * P::EPS * mag[i] * (n as f64 + 4.0) + P::TINY;
        match act_tol(act, q[i], dq, P::EPS, P::IS32) {
            Some(tol) => {
                let want = monitors::refm::act(act, q[i]);
                c.within("dense output", out[i].dist(want), tol, || format!("{} dense {ni} -> {no} {act:?}: unit {i} = {:?}, expected {want:?}", P::NAME, out[i]));
                c.count("outputs compared", 1);
            }
            None => c.count("outputs at a jump, not compared", 1),
        }
    }
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { exact::<Cf32>(c) } else { exact::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { seeded::<Cf32>(c) } else { seeded::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "exact", quick: 100_000, thorough: 800_000, f: f1 },
    Stage { name: "seeded", quick: 100_000, thorough: 600_000, f: f2 },
    Stage { name: "large-exact", quick: 2_000, thorough: 16_000, f: f1 },
    Stage { name: "large-seeded", quick: 2_000, thorough: 16_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C11",
        rule: "distinct (precision, inputs, units, activation, fresh or adjusted) layers whose outputs were compared",
        assumptions: &["1 to 1000 inputs and units", "weights of seeded layers are read through an identity-activation twin of the same seed"],
        stages: STAGES,
        must_observe: &["exact forward passes", "outputs compared", "layers with non-zero biases", "adjusted between forward passes"],
    });
}
