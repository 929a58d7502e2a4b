//! C18: pooling back-propagation.
use monitors::driver::{main as run, Plan};
use monitors::grads::*;
use monitors::nets::*;
use monitors::refm::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::math::cfloat::{Cf32, Cf64};

fn upsampled<P: Prec>(c: &mut Ctx) {
    let n = if c.small { c.rng.range(1, 2) } else { c.rng.range(1, 5) };
    let lim = if c.small { 2 } else { 4 };
    let [n, bh, bw, nr, nc] = if c.big { large_sizes(&mut c.rng, [70, 20, 20, 40, 40], 6_000, |s| s.iter().product()) } else { [n, c.rng.range(1, lim), c.rng.range(1, lim), c.rng.range(1, lim), c.rng.range(1, lim)] };
    let (h, w) = (bh * nr, bw * nc);
    let kmax = if c.big { 8 } else { 4 };
    let (kh, kw) = (2 * c.rng.below(kmax) + 1, 2 * c.rng.below(kmax) + 1);
    let exact = c.rng.chance(1, 2);
    let kernel = if exact { Tab { r: kh, c: kw, v: (0..kh * kw).map(|_| monitors::num::z(c.rng.below(7) as f64 - 3.0, 0.0)).collect() } } else { real_kernel::<P>(&mut c.rng, kh, kw) };
    let kind = c.rng.pick(&POOLS);
    let sp = Spec::Pool { n, bh, bw, kind, kernel };
    let l = sp.lib::<P>(&mut 1);
    let g = if exact { Reg::Int } else { reg(&mut c.rng) };
    let x = gen_input::<P>(&mut c.rng, InDim::M(n, h, w), Reg::Gauss);
    let gr = vals::<P>(&mut c.rng, g, n * nr * nc);
    let d = derivs(c, &l, &x, &gr, 0, 0);
    compare::<P>(c, &sp.ref_with_params(&[], &[]), &x, &gr, &d, exact, 0.0, &format!("{n} maps {h}x{w} in {bh}x{bw}, kernel {kh}x{kw}"));
    if n > 1 { c.count("several maps", 1); }
    if bh % 2 == 0 || bw % 2 == 0 { c.count("even blocks", 1); }
    if bh != bw { c.count("blocks that are not square", 1); }
    if kh > bh || kw > bw { c.count("kernels larger than the block", 1); }
    c.sig(&[P::IS32 as u64, n as u64, bh as u64, bw as u64, nr as u64, nc as u64, kh as u64, kw as u64]);
    c.sample(|| format!("{} {n} maps {h}x{w} in {bh}x{bw}, kernel {kh}x{kw}", P::NAME));
}

/// Average pooling whose kernel spreads the gradient evenly: the true gradient, by two independent routes.
fn average<P: Prec>(c: &mut Ctx) {
    let n = if c.small { 2 } else { c.rng.range(1, 4) };
    let (bh, bw, k) = exact_pool(&mut c.rng);
    let (nr, nc) = (c.rng.range(1, 4), c.rng.range(1, 4));
    let (h, w) = (bh * nr, bw * nc);
    let sp = Spec::Pool { n, bh, bw, kind: PoolKind::Mean, kernel: k.map(P::rnd) };
    let l = sp.lib::<P>(&mut 1);
    let x = gen_input::<P>(&mut c.rng, InDim::M(n, h, w), Reg::Disc);
    let g = vals::<P>(&mut c.rng, Reg::Disc, n * nr * nc);
    let d = derivs(c, &l, &x, &g, 0, 0);
    for m in 0..n { for i in 0..h { for j in 0..w {
        let want = g[m * nr * nc + (i / bh) * nc + j / bw].s(1.0 / (bh * bw) as f64);
        let k = m * h * w + i * w + j;
        c.within("gradient of the average", d.x[k].dist(want), 40.0 * P::EPS * want.abs(), || format!("{} {n} maps {h}x{w} averaged in {bh}x{bw}: gradient at ({i},{j}) of map {m} = {:?}, expected {want:?}", P::NAME, d.x[k]));
        c.check(d.xc[k].conj().dist(d.x[k]) == 0.0, || "conjugate gradient".into());
    } } }
    if !P::IS32 { differences(c, &sp, &[], &[], &x, &g, &d, 4, &format!("average pooling {bh}x{bw}")); }
    c.count("average pooling gradients", 1);
    c.sig(&[4, P::IS32 as u64, n as u64, bh as u64, bw as u64, nr as u64, nc as u64]);
}
fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { upsampled::<Cf32>(c) } else { upsampled::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { average::<Cf32>(c) } else { average::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "upsampled", quick: 150_000, thorough: 1_200_000, f: f1 },
    Stage { name: "average", quick: 50_000, thorough: 400_000, f: f2 },
    Stage { name: "large-upsampled", quick: 5_000, thorough: 40_000, f: f1 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C18",
        rule: "distinct (precision, number of maps, block size, number of blocks, kernel size) whose passed-on gradient was compared entry by entry",
        assumptions: &["kernels are real and of odd size", "blocks 1x1 to 20x20"],
        stages: STAGES,
        must_observe: &["gradients compared", "several maps", "even blocks", "blocks that are not square", "kernels larger than the block", "average pooling gradients", "difference quotients (inputs)"],
    });
}
