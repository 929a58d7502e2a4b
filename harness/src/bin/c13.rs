//! C13: pooling and flatten layers, forward.
use monitors::driver::{main as run, Plan};
use monitors::nets::*;
use monitors::refm::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::cvnn::layer::{flatten::Flatten, reduce::Reduce, CLayer};
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use std::sync::{Arc, Mutex};

fn pool<P: Prec>(c: &mut Ctx) {
    let n = if c.small { c.rng.range(1, 3) } else { c.rng.range(1, 6) };
    let lim = if c.small { 2 } else { 5 };
    let [n, bh, bw, nr, nc] = if c.big { large_sizes(&mut c.rng, [130, 30, 30, 40, 40], 6_000, |s| s.iter().product()) } else { [n, c.rng.range(1, lim), c.rng.range(1, lim), c.rng.range(1, lim), c.rng.range(1, lim)] };
    let (h, w) = (bh * nr, bw * nc);
    let g = reg(&mut c.rng);
    let x = gen_input::<P>(&mut c.rng, InDim::M(n, h, w), g);
    let lx = lib_feat::<P>(&x);
    let before = bits_of(&lx);
    let (kh, kw) = (c.rng.pick(&[1, 3, 5]), c.rng.pick(&[1, 3, 5]));
    let kernel = real_kernel::<P>(&mut c.rng, kh, kw);
    let kind = POOLS[c.idx as usize % POOLS.len()];
    let layer = Spec::Pool { n, bh, bw, kind, kernel: kernel.clone() }.lib::<P>(&mut 1);
    let out = c.ok("pooling", || layer.foward(&lx));
    c.check(bits_of(&lx) == before, || "pooling changed its input".into());
    let rl = RLayer::Pool { bh, bw, kind, kernel: kernel.clone() };
    let want = rl.fwd(&x);
    c.check(shape_of(&out) == shape_ref(&want), || format!("{n} maps {h}x{w} in {bh}x{bw}: output shape {:?}", shape_of(&out)));
    let o = ref_feat(&out).flat();
    let mx = x.flat().iter().map(|v| v.abs()).fold(0.0, f64::max);
    let nb = (bh * bw) as f64;
    for (i, wv) in want.flat().iter().enumerate() {
        let tol = match kind { PoolKind::First | PoolKind::Last | PoolKind::MaxMod => 0.0, PoolKind::Mean => 8.0 * nb * P::EPS * mx, _ => 8.0 * nb * nb * nb * P::EPS * mx };
        // modulus ties resolve by rounding of the squared modulus, so compare moduli there
        let d = if kind == PoolKind::MaxMod { (o[i].abs() - wv.abs()).abs() } else { o[i].dist(*wv) };
        let tol = if kind == PoolKind::MaxMod { 4.0 * P::EPS * wv.abs() } else { tol };
        c.within("pooled value", d, tol, || format!("{} {kind:?} {n} maps {h}x{w} in {bh}x{bw}: entry {i} = {:?}, expected {wv:?}", P::NAME, o[i]));
    }
    // the user's function sees every block of every map once, row-major, and its answers are placed in order
    let seen: Arc<Mutex<Vec<(Vec<(u64, u64)>, (u64, u64))>>> = Arc::new(Mutex::new(Vec::new()));
    let s2 = seen.clone();
    let layer = Reduce::<P>::init(n, [bh, bw], Box::new(move |b: &[P]| {
        let mut s = s2.lock().unwrap();
        let id = P::of(monitors::num::z(s.len() as f64 + 1.0, -0.5));
        s.push((b.iter().map(|v| v.bits()).collect(), id.bits()));
        id
    }), lib_mat::<P>(&kernel));
    let out = c.ok("pooling", || layer.foward(&lx));
    let seen = seen.lock().unwrap().clone();
    c.check(seen.len() == n * nr * nc, || format!("{} calls of the user's function for {} blocks", seen.len(), n * nr * nc));
    let maps = match &out { IOType::Matrix(m) => m, _ => c.fail("pooling returned a vector".into()) };
    c.check(maps.len() == n && maps.iter().all(|m| m.get_shape() == [nr, nc] && m.get_body().len() == nr * nc), || "shape of pooled maps".into());
    for (m, t) in x.maps().iter().enumerate() { for bi in 0..nr { for bj in 0..nc {
        let mut want = Vec::new();
        for a in 0..bh { for b in 0..bw { want.push(P::of(t.at(bi * bh + a, bj * bw + b)).bits()); } }
        let ans = maps[m].get_body()[bi * nc + bj].bits();
        // the block that produced the value found here must be this block
        let src = seen.iter().find(|(_, id)| *id == ans);
        c.check(src.map(|(b, _)| *b == want).unwrap_or(false), || format!("entry ({bi},{bj}) of map {m} ({n} maps {h}x{w} in {bh}x{bw}) was not computed from its own block in row-major order"));
        c.count("blocks traced", 1);
    } } }
    let got = (layer.get_input_shape(), layer.get_output_shape(), layer.params_len(), layer.is_empty());
    c.check(got == (IOShape::Matrix(n), IOShape::Matrix(n), (0, 0), false), || format!("pooling of {n} maps declares {got:?}"));
    let l: CLayer<P> = layer.wrap();
    let got = (l.get_input_shape(), l.get_output_shape(), l.params_len(), l.is_empty());
    c.check(got == (IOShape::Matrix(n), IOShape::Matrix(n), (0, 0), false), || format!("wrapped pooling of {n} maps declares {got:?}"));
    if n > 1 { c.count("several maps", 1); }
    c.sig(&[P::IS32 as u64, n as u64, bh as u64, bw as u64, nr as u64, nc as u64, kind as u64]);
    c.sample(|| format!("{} pooling of {n} maps {h}x{w} in {bh}x{bw}: values of {kind:?} and full call trace", P::NAME));
}

fn flat<P: Prec>(c: &mut Ctx) {
    let n = if c.small { c.rng.range(1, 3) } else { c.rng.range(1, 8) };
    let [n, h, w] = if c.big { large_sizes(&mut c.rng, [300, 130, 130], 20_000, |s| s.iter().product()) } else { [n, dim(&mut c.rng, c.small, 20), dim(&mut c.rng, c.small, 20)] };
    let g = reg(&mut c.rng);
    let x = gen_input::<P>(&mut c.rng, InDim::M(n, h, w), g);
    let lx = lib_feat::<P>(&x);
    let f = Flatten::init([h, w], n);
    let got = (f.get_input_shape(), f.get_output_shape(), f.is_empty());
    c.check(got == (IOShape::Matrix(n), IOShape::Scalar(n * h * w), false), || format!("flatten of {n} maps {h}x{w} declares {got:?}"));
    let want: Vec<(u64, u64)> = x.flat().iter().map(|v| P::of(*v).bits()).collect();
    let direct = c.ok("flatten", || f.foward(&lx));
    let l: CLayer<P> = f.wrap();
    let out = c.ok("flatten", || l.foward(&lx));
    let pl = l.params_len();
    c.check(pl == (0, 0), || format!("flatten declares {pl:?} parameters"));
    let got = (l.get_input_shape(), l.get_output_shape(), l.is_empty());
    c.check(got == (IOShape::Matrix(n), IOShape::Scalar(n * h * w), false), || format!("wrapped flatten of {n} maps {h}x{w} declares {got:?}"));
    for o in [direct, out] {
        match o {
            IOType::Scalar(v) => c.check(v.iter().map(|e| e.bits()).collect::<Vec<_>>() == want, || format!("{} flatten of {n} maps {h}x{w} changed the entries or their order", P::NAME)),
            _ => c.fail("flatten returned maps".into()),
        }
    }
    c.count("flattened inputs", 1);
    if h != w && n > 1 { c.count("several maps that are not square", 1); }
    c.sig(&[9, P::IS32 as u64, n as u64, h as u64, w as u64]);
}

fn f1(c: &mut Ctx) { if c.idx % 4 < 2 { pool::<Cf32>(c) } else { pool::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { flat::<Cf32>(c) } else { flat::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "pooling", quick: 100_000, thorough: 800_000, f: f1 },
    Stage { name: "flatten", quick: 100_000, thorough: 800_000, f: f2 },
    Stage { name: "large-pooling", quick: 5_000, thorough: 40_000, f: f1 },
    Stage { name: "large-flatten", quick: 5_000, thorough: 40_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C13",
        rule: "distinct (precision, number of maps, block size, blocks, pooling function or map size)",
        assumptions: &["1 to 130 maps (flatten: 300), blocks 1x1 to 30x30"],
        stages: STAGES,
        must_observe: &["blocks traced", "several maps", "flattened inputs", "several maps that are not square"],
    });
}
