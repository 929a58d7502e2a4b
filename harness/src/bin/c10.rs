//! C10: block reduction and upsampling.
use monitors::driver::{main as run, Plan};
use monitors::elem::Elem;
use monitors::refm::Tab;
use monitors::work::*;
use monitors::{Ctx, Stage};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use std::cell::RefCell;

fn reduce<E: Elem>(c: &mut Ctx) {
    let lim = if c.small { 2 } else { c.rng.pick(&[3usize, 4, 8]) };
    let [bh, bw, nr, nc] = if c.big { large_sizes(&mut c.rng, [70, 70, 70, 70], 20_000, |s| s.iter().product()) } else { [0; 4].map(|_| c.rng.range(1, lim)) };
    let (r, w) = (nr * bh, nc * bw);
    let g = reg(&mut c.rng);
    let a: Vec<E> = E::gen(&mut c.rng, g, r * w);
    let m = Matrix::from_body(a.clone(), [r, w]);
    // the function records what it is given and answers with a fresh marker
    let calls: RefCell<Vec<Vec<(u64, u64)>>> = RefCell::new(Vec::new());
    let answers: Vec<E> = (0..nr * nc).map(|i| E::of(monitors::num::z(i as f64 + 1.0, -(i as f64)))).collect();
    let out = c.ok("block_reduce", || m.block_reduce(&[bh, bw], |b: &[E]| {
        let mut k = calls.borrow_mut();
        k.push(b.iter().map(|x| x.bits()).collect());
        answers.get(k.len() - 1).copied().unwrap_or_default()
    }));
    let calls = calls.into_inner();
    c.check(calls.len() == nr * nc, || format!("{}: {} calls for {} blocks ({r}x{w} in {bh}x{bw})", E::NAME, calls.len(), nr * nc));
    for bi in 0..nr { for bj in 0..nc {
        let mut want = Vec::new();
        for i in 0..bh { for j in 0..bw { want.push(a[(bi * bh + i) * w + bj * bw + j].bits()); } }
        let k = bi * nc + bj;
        c.check(calls[k] == want, || format!("{}: call {k} of {r}x{w} in {bh}x{bw} got other elements than block ({bi},{bj})", E::NAME));
        c.count("blocks seen", 1);
    } }
    c.check(out.get_shape() == [nr, nc], || format!("{}: {r}x{w} in {bh}x{bw} has shape {:?}", E::NAME, out.get_shape()));
    c.check(out.get_body().len() == nr * nc && out.get_body().iter().zip(&answers).all(|(x, y)| x.bits() == y.bits()), || format!("{}: results of {r}x{w} in {bh}x{bw} are misplaced", E::NAME));
    if bh != bw { c.count("blocks that are not square", 1); }

    // sizes that do not divide
    let (xh, xw) = (c.rng.range(1, 2 * r), c.rng.range(1, 2 * w));
    if r % xh != 0 || w % xw != 0 {
        c.err(&format!("{} block_reduce of {r}x{w} by {xh}x{xw}", E::NAME), || m.block_reduce(&[xh, xw], |b: &[E]| b[0]));
        c.count("indivisible sizes refused", 1);
    }
    c.sig(&[E::ID, bh as u64, bw as u64, nr as u64, nc as u64]);
    c.sample(|| format!("{} {r}x{w} in blocks of {bh}x{bw}: call trace and placement", E::NAME));
}

fn upsample<E: Elem>(c: &mut Ctx) {
    let lim = if c.small { 3 } else { c.rng.pick(&[3usize, 5, 7]) };
    let [bh, bw, r, w] = if c.big { large_sizes(&mut c.rng, [40, 40, 70, 70], 8_000, |s| s.iter().product()) } else { [0; 4].map(|_| c.rng.range(1, lim)) };
    let kmax = if c.big { 9 } else { 4 };
    let (kh, kw) = (2 * c.rng.below(kmax) + 1, 2 * c.rng.below(kmax) + 1);
    let g = reg(&mut c.rng);
    let a: Vec<E> = E::gen(&mut c.rng, g, r * w);
    let k: Vec<E> = E::gen(&mut c.rng, g, kh * kw);
    let m = Matrix::from_body(a.clone(), [r, w]);
    let out = c.ok("fractional_upsampling", || m.fractional_upsampling(&[bh, bw], &Matrix::from_body(k.clone(), [kh, kw])));
    c.check(out.get_shape() == [r * bh, w * bw], || format!("{}: {r}x{w} upsampled by {bh}x{bw} with kernel {kh}x{kw} has shape {:?}", E::NAME, out.get_shape()));
    let ta = Tab { r, c: w, v: a.iter().map(|x| x.z()).collect() };
    let tk = Tab { r: kh, c: kw, v: k.iter().map(|x| x.z()).collect() };
    let want = ta.upsample(bh, bw, &tk);
    let mag = ta.abs().upsample(bh, bw, &tk.abs());
    c.check(out.get_body().len() == want.v.len(), || "number of entries".into());
    for i in 0..want.v.len() {
        let tol = if g == Reg::Int { 0.0 } else { 4.0 * E::EPS * (kh * kw + 3) as f64 * mag.v[i].re };
        c.within("upsampling", out.get_body()[i].z().dist(want.v[i]), tol, || format!("{}: {r}x{w} upsampled by {bh}x{bw} with kernel {kh}x{kw}: entry {i} = {:?}, expected {:?}", E::NAME, out.get_body()[i].z(), want.v[i]));
    }
    c.count("upsamplings", 1);
    let (eh, ew) = match c.rng.below(3) { 0 => (kh + 1, kw), 1 => (kh, kw + 1), _ => (kh + 1, kw + 1) };
    c.err(&format!("{} upsampling with a {eh}x{ew} kernel", E::NAME), || m.fractional_upsampling(&[bh, bw], &Matrix::from_body(vec![E::default(); eh * ew], [eh, ew])));
    c.count("even kernels refused", 1);
    c.sig(&[77, E::ID, bh as u64, bw as u64, r as u64, w as u64, kh as u64, kw as u64]);
}

fn f1(c: &mut Ctx) { match c.idx % 4 { 0 => reduce::<f32>(c), 1 => reduce::<f64>(c), 2 => reduce::<Cf32>(c), _ => reduce::<Cf64>(c) } }
fn f2(c: &mut Ctx) { match c.idx % 4 { 0 => upsample::<f32>(c), 1 => upsample::<f64>(c), 2 => upsample::<Cf32>(c), _ => upsample::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "block-reduce", quick: 200_000, thorough: 1_600_000, f: f1 },
    Stage { name: "upsampling", quick: 150_000, thorough: 1_200_000, f: f2 },
    Stage { name: "large-block-reduce", quick: 5_000, thorough: 40_000, f: f1 },
    Stage { name: "large-upsampling", quick: 3_000, thorough: 24_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C10",
        rule: "distinct (element type, block size, number of blocks) whose call trace was compared, plus distinct upsampling configurations",
        assumptions: &["block sizes 1 to 70, odd kernels 1 to 17"],
        stages: STAGES,
        must_observe: &["blocks seen", "blocks that are not square", "indivisible sizes refused", "upsamplings", "even kernels refused"],
    });
}
