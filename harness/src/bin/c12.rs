//! C12: convolutional layer forward pass.
use monitors::driver::{main as run, Plan};
use monitors::nets::*;
use monitors::refm::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::act::ComplexActFunc as A;
use renplex::cvnn::layer::CLayer;
use renplex::input::IOShape;
use renplex::math::cfloat::{Cf32, Cf64};

fn declared<P: Prec>(c: &mut Ctx, l: &CLayer<P>, ch: usize, f: usize, kh: usize, kw: usize) {
    let want = (IOShape::Matrix(ch), IOShape::Matrix(f), (ch * f * kh * kw, f));
    let got = c.call("declared shapes", || (l.get_input_shape(), l.get_output_shape(), l.params_len()));
    c.check(got == want, || format!("{ch} channels, {f} filters of {kh}x{kw}: declared {got:?}, expected {want:?}"));
    if let CLayer::Convolutional(d) = l {
        let got = (d.get_input_shape(), d.get_output_shape(), d.params_len());
        c.check(got == want && !d.is_empty() && d.propagates(), || format!("{ch} channels, {f} filters of {kh}x{kw}: the layer itself declares {got:?}"));
    }
}

fn run_layer<P: Prec>(c: &mut Ctx, l: &CLayer<P>, x: &Feat, want: &Feat) -> Vec<monitors::Z> {
    let lx = lib_feat::<P>(x);
    let before = bits_of(&lx);
    let out = c.ok("forward", || l.foward(&lx));
    let direct = match l { CLayer::Convolutional(d) => c.ok("forward", || d.forward(&lx)), _ => c.fail("wrapping a convolutional layer gave another kind".into()) };
    c.check(bits_of(&out) == bits_of(&direct), || "wrapped and direct layer disagree".into());
    c.check(bits_of(&lx) == before, || "forward changed its input".into());
    c.check(shape_of(&out) == shape_ref(want), || format!("output shape {:?}, expected {:?}", shape_of(&out), shape_ref(want)));
    ref_feat(&out).flat()
}

fn sizes(c: &mut Ctx) -> (usize, usize, usize, usize, usize, usize) {
    if c.big {
        let [ch, f, h, w, a, b] = large_sizes(&mut c.rng, [70, 70, 70, 70, 20, 20], 1_500_000, |s| { let (kh, kw) = (s[4].min(s[2]), s[5].min(s[3])); s[0] * s[1] * kh * kw * ((s[2] - kh + 1) * (s[3] - kw + 1) + 4 * s[0] * kh * kw) });
        return (ch, f, h, w, a.min(h), b.min(w));
    }
    let ch = if c.small { c.rng.range(1, 2) } else { c.rng.range(1, 5) };
    let f = if c.small { c.rng.range(1, 2) } else { c.rng.range(1, 5) };
    let (h, w) = (dim(&mut c.rng, c.small, 28), dim(&mut c.rng, c.small, 28));
    let (kh, kw) = match c.rng.below(6) { 0 => (h, w), 1 => (1, c.rng.range(1, w)), 2 => (c.rng.range(1, h), 1), _ => (c.rng.range(1, h.min(6)), c.rng.range(1, w.min(6))) };
    (ch, f, h, w, kh, kw)
}

fn exact<P: Prec>(c: &mut Ctx) {
    let (ch, f, h, w, kh, kw) = sizes(c);
    let act = c.rng.pick(&[A::None, A::RITReLU]);
    let s = Spec::Conv { c: ch, f, kh, kw, act, init: Init::Uniform(1) };
    let (mut kv, mut b) = (vals::<P>(&mut c.rng, Reg::Int, ch * f * kh * kw), vals::<P>(&mut c.rng, Reg::Int, f));
    let mut l = s.with_params::<P>(&kv, &b);
    declared(c, &l, ch, f, kh, kw);
    // one input comes back after others and after the parameters have changed
    let x0 = gen_input::<P>(&mut c.rng, InDim::M(ch, h, w), Reg::Int);
    let turns = c.rng.range(1, 4);
    for turn in 0..turns {
        if turn > 0 && c.rng.chance(1, 2) {
            let (dw, db) = (vals::<P>(&mut c.rng, Reg::Int, kv.len()), vals::<P>(&mut c.rng, Reg::Int, f));
            c.ok("neg_conj_adjustment", || l.neg_conj_adjustment(lib_vec(&dw), lib_vec(&db)));
            for i in 0..kv.len() { kv[i] = kv[i] - dw[i].conj(); }
            for i in 0..f { b[i] = b[i] - db[i].conj(); }
            c.count("adjusted between forward passes", 1);
        }
        let x = if turn == 0 || c.rng.chance(1, 2) { x0.clone() } else {
            // a layer takes images of any size that the kernel fits into
            let (h, w) = if c.rng.chance(1, 2) { (h, w) } else { (kh + c.rng.below(4), kw + c.rng.below(4)) };
            gen_input::<P>(&mut c.rng, InDim::M(ch, h, w), Reg::Int)
        };
        let want = s.ref_with_params(&kv, &b).fwd(&x);
        let out = run_layer(c, &l, &x, &want);
        for (i, wv) in want.flat().iter().enumerate() {
            c.check(out[i].dist(*wv) == 0.0, || format!("{} conv {ch}->{f} {kh}x{kw} on {:?} {act:?}: entry {i} = {:?}, exactly {wv:?}", P::NAME, shape_ref(&x), out[i]));
        }
        c.count("exact forward passes", 1);
    }
    if kh != kw { c.count("kernels that are not square", 1); }
    if h != w { c.count("images that are not square", 1); }
    if ch > 1 && f > 1 && ch != f { c.count("several channels and filters, different numbers", 1); }
    c.sig(&[P::IS32 as u64, ch as u64, f as u64, h as u64, w as u64, kh as u64, kw as u64]);
    c.sample(|| format!("{} conv {ch} channels {f} filters {kh}x{kw} on {h}x{w} {act:?}, integers, exact", P::NAME));
}

fn seeded<P: Prec>(c: &mut Ctx) {
    let (ch, f, h, w, kh, kw) = sizes(c);
    let act = ACTS[c.idx as usize / 2 % ACTS.len()];
    let specs = [Spec::Conv { c: ch, f, kh, kw, act, init: gen_init(&mut c.rng, ch * kh * kw) }];
    let seed = gen_seed(&mut c.rng);
    let fresh = c.rng.chance(1, 3);
    let adj = if fresh { vec![] } else { gen_adj::<P>(&mut c.rng, &specs, Reg::Disc) };
    let mut l = build_layers::<P>(&specs, seed, &adj).pop().unwrap();
    declared(c, &l, ch, f, kh, kw);
    let mut rl = reference::<P>(&specs, seed, &adj);
    let g = reg(&mut c.rng);
    let x = gen_input::<P>(&mut c.rng, InDim::M(ch, h, w), g);
    judge::<P>(c, &l, &rl[0], &x, act);
    if c.rng.chance(1, 3) {
        let more = gen_adj::<P>(&mut c.rng, &specs, Reg::Disc);
        c.ok("neg_conj_adjustment", || l.neg_conj_adjustment(lib_vec(&more[0].0), lib_vec(&more[0].1)));
        adjust_ref::<P>(&mut rl[0], &more[0]);
        judge::<P>(c, &l, &rl[0], &x, act);
    }
    if !fresh { c.count("layers with non-zero biases", 1); }
    c.sig(&[7, P::IS32 as u64, ch as u64, f as u64, h as u64, w as u64, kh as u64, kw as u64, act_id(act)]);
}
fn judge<P: Prec>(c: &mut Ctx, l: &CLayer<P>, rl: &RLayer, x: &Feat, act: A) {
    let q = rl.q(x);
    // z/|z| is not defined at zero
    if act_id(act) == act_id(A::ModZ) && q.flat().iter().any(|v| v.abs() < 1e-30) { c.count("zero argument of z/|z|, skipped", 1); return; }
    let out = run_layer(c, l, x, &q);
    let (mag, n) = rl.qmag(x);
    for (i, q) in q.flat().iter().enumerate() {
        let dq = 2.0 * P::EPS * mag[i] * (n as f64 + 4.0) + P::TINY;
        match act_tol(act, *q, dq, P::EPS, P::IS32) {
            Some(tol) => {
                let want = monitors::refm::act(act, *q);
                c.within("convolutional output", out[i].dist(want), tol, || format!("{} conv {:?} -> {:?} {act:?}: entry {i} = {:?}, expected {want:?}", P::NAME, shape_ref(x), l.params_len(), out[i]));
                c.count("outputs compared", 1);
            }
            None => c.count("outputs at a jump, not compared", 1),
        }
    }
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { exact::<Cf32>(c) } else { exact::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { seeded::<Cf32>(c) } else { seeded::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "exact", quick: 100_000, thorough: 800_000, f: f1 },
    Stage { name: "seeded", quick: 100_000, thorough: 600_000, f: f2 },
    Stage { name: "large-exact", quick: 2_000, thorough: 16_000, f: f1 },
    Stage { name: "large-seeded", quick: 2_000, thorough: 16_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C12",
        rule: "distinct (precision, channels, filters, image size, kernel size, activation) whose outputs were compared",
        assumptions: &["1 to 70 channels and filters, images up to 70x70, kernels up to the image size", "kernels of seeded layers are read through an identity-activation twin of the same seed"],
        stages: STAGES,
        must_observe: &["exact forward passes", "outputs compared", "layers with non-zero biases", "adjusted between forward passes", "kernels that are not square", "images that are not square", "several channels and filters, different numbers"],
    });
}
