//! C34: repeated use does not accumulate memory, open files or threads.
use monitors::driver::{main as run, Plan};
use monitors::nets::*;
use monitors::num::z;
use monitors::refm::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::{Matrix, SliceOps, SliceToMatrix};
use renplex::opt::ComplexLossFunc as L;
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

struct Counting;
static BYTES: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if !p.is_null() { BYTES.fetch_add(l.size() as i64, Ordering::Relaxed); BLOCKS.fetch_add(1, Ordering::Relaxed); CALLS.fetch_add(1, Ordering::Relaxed); } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l); BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed); BLOCKS.fetch_sub(1, Ordering::Relaxed); }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { let q = System.realloc(p, l, n); if !q.is_null() { BYTES.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed); } q }
}
#[global_allocator]
static ALLOC: Counting = Counting;

fn entries(dir: &str) -> i64 { std::fs::read_dir(dir).map(|d| d.count() as i64).unwrap_or(0) }
const SPANS: usize = 6;

/// Runs the same round over and over. What is held may rise for a while (caches, pools), but if it rises
/// each of several times that the number of rounds is doubled, it is never given back. (Doubling, because
/// a list that only grows gets its memory in doubling steps.)
fn steady(c: &mut Ctx, name: &'static str, what: &str, mut f: impl FnMut()) {
    let mut rounds = 4;
    for _ in 0..rounds { f(); }
    let mut held = [[0i64; 4]; SPANS + 1];
    let calls = CALLS.load(Ordering::Relaxed);
    for s in 0..=SPANS {
        if s > 0 { for _ in 0..rounds { f(); } rounds *= 2; }
        held[s] = [BYTES.load(Ordering::SeqCst), BLOCKS.load(Ordering::SeqCst), entries("/proc/self/fd"), entries("/proc/self/task")];
    }
    let calls = CALLS.load(Ordering::Relaxed) - calls;
    for (k, unit) in ["bytes", "blocks of memory", "open files", "threads"].iter().enumerate() {
        let grows = (0..SPANS).all(|s| held[s + 1][k] > held[s][k]);
        c.check(!grows, || format!("{what}: {unit} held after 4, 8, 16, ... rounds: {:?}", held.iter().map(|h| h[k]).collect::<Vec<_>>()));
    }
    c.count(name, 1);
    c.count("rounds observed", rounds as u64);
    c.count("allocations observed", calls);
}

fn net<P: Prec>(c: &mut Ctx, min: usize) -> (InDim, Vec<Spec>, u128, Adj) {
    let o = NetOpts { acts: &ACTS, exact_pool: false, allow_maps: true, flat_end: c.rng.chance(2, 3), min_layers: min, max_layers: 4, max_ch: 3, max_dim: 6 };
    let (d, specs) = gen_net::<P>(&mut c.rng, &o);
    let seed = gen_seed(&mut c.rng);
    let adj = gen_adj::<P>(&mut c.rng, &specs, Reg::Disc);
    (d, specs, seed, adj)
}
fn batch<P: Prec>(net: &CNetwork<P>, xs: &[IOType<P>]) -> Option<Dataset<P, P>> {
    let mut ds = Dataset::new();
    for x in xs { let y = catch_unwind(AssertUnwindSafe(|| net.forward(x))).ok()?.ok()?; ds.add_point((x.clone(), y)); }
    Some(ds)
}

fn one<P: Prec>(c: &mut Ctx) {
    let kind = c.idx / 2 % 9;
    let mut sig = vec![kind, P::IS32 as u64];
    match kind {
        // a network answers, is trained, refuses
        0 | 1 | 2 => {
            let (d, specs, seed, adj) = net::<P>(c, 2);
            let mut n = build::<P>(&specs, seed, &adj);
            let points = if c.rng.chance(1, 4) { c.rng.range(8, 40) } else { c.rng.range(1, 5) };
            let xs: Vec<IOType<P>> = (0..points).map(|_| lib_feat::<P>(&gen_input::<P>(&mut c.rng, d, Reg::Gauss))).collect();
            let ds = match batch(&n, &xs) { Some(d) => d, None => return };
            let vector = matches!(ds.get_point(0).1, IOType::Scalar(_));
            let what = format!("{} {specs:?}", P::NAME);
            let wrong: IOType<P> = match &xs[0] { IOType::Scalar(v) => IOType::Scalar(v[1..].to_vec()), IOType::Matrix(m) => IOType::Matrix(m[1..].to_vec()) };
            let mut bad = ds.clone();
            bad.add_point((wrong.clone(), ds.get_point(0).1.clone()));
            let lr = P::of(z(1e-4, 0.0));
            match kind {
                0 => steady(c, "predictions", &format!("predictions of {what}"), || {
                    for x in &xs { let _ = n.forward(x); let _ = n.collect_acts(x.clone()); for k in 0..specs.len() { let _ = n.intercept(x.clone(), k).is_ok(); } }
                    for lf in [L::MeanSquare, L::NormCrossEntropy] { let _ = n.loss(&ds, &lf); }
                    if vector { n.max_pred_test(&ds); }
                    let _ = format!("{n:?}");
                }),
                1 => steady(c, "training", &format!("training of {what}"), || {
                    for lf in [L::MeanSquare, L::NormCrossEntropy] { let _ = catch_unwind(AssertUnwindSafe(|| n.gradient_opt(ds.clone(), &lf, lr))); }
                }),
                _ => steady(c, "refusals", &format!("refusals of {what}"), || {
                    let _ = catch_unwind(AssertUnwindSafe(|| n.forward(&wrong)));
                    let _ = catch_unwind(AssertUnwindSafe(|| n.loss(&bad, &L::MeanSquare)));
                    let _ = catch_unwind(AssertUnwindSafe(|| n.gradient_opt(bad.clone(), &L::MeanSquare, lr)));
                    let _ = catch_unwind(AssertUnwindSafe(|| n.gradient_opt(Dataset::new(), &L::MeanSquare, lr)));
                    let _ = n.intercept(xs[0].clone(), 99).is_ok();
                    let mut s = seed; let _ = n.add_input(specs[0].lib::<P>(&mut s));
                }),
            }
            sig.extend(words(&specs));
        }
        // networks come and go
        3 => {
            let (d, specs, seed, adj) = net::<P>(c, 2);
            let x = lib_feat::<P>(&gen_input::<P>(&mut c.rng, d, Reg::Gauss));
            steady(c, "networks built and dropped", &format!("building {} {specs:?}", P::NAME), || {
                let mut n = build::<P>(&specs, seed, &adj);
                if let Some(ds) = batch(&n, std::slice::from_ref(&x)) { let _ = catch_unwind(AssertUnwindSafe(|| n.gradient_opt(ds, &L::MeanSquare, P::of(z(1e-3, 0.0))))); }
            });
            sig.extend(words(&specs));
        }
        // a matrix grows and shrinks, and is calculated with
        4 => {
            let (h, w) = (c.rng.range(2, 12), c.rng.range(2, 12));
            let body = lib_vec::<P>(&vals::<P>(&mut c.rng, Reg::Gauss, h * w));
            let k = Matrix::from_body(lib_vec::<P>(&vals::<P>(&mut c.rng, Reg::Gauss, 9)), [3, 3]);
            let mut m = Matrix::from_body(body.clone(), [h, w]);
            steady(c, "matrices", &format!("{} matrix {h}x{w}", P::NAME), || {
                let r = m.del_row(0).expect("LIB: del_row");
                let mut n = Matrix::with_capacity([h, w + 1]);
                for r in m.rows_as_iter() { n.add_row(r.to_vec()).expect("LIB: add_row"); }
                n.add_row(r.clone()).expect("LIB: add_row");
                let mut col = vec![P::of(z(1.0, 0.0)); h];
                n.add_col(&mut col).expect("LIB: add_col");
                let _ = n.add_row(vec![P::default(); 1]);
                n.dealloc();
                let _ = n.mul_slice(&n.row(0).expect("LIB: row").to_vec());
                let _ = n.flip();
                let _ = n.convolution(&k);
                let _ = n.fractional_upsampling(&[2, 3], &k);
                let _ = n.block_reduce(&[1, w + 1], |b| b[0]);
                let _ = n.clone().pad((2, 1)).export_body();
                let _ = body.as_slice().add_slice(&body).and_then(|b| b.as_slice().to_matrix([h, w]));
                // refused
                let (big, v) = (Matrix::from_body(vec![P::default(); (h + 1) * (w + 2)], [h + 1, w + 2]), vec![P::default(); w + 2]);
                let _ = n.block_reduce(&[h + 1, 1], |b| b[0]);
                let _ = n.block_reduce(&[1, w + 2], |b| b[0]);
                let _ = n.convolution(&big);
                let _ = n.fractional_upsampling(&[1, 1], &Matrix::from_body(vec![P::default(); 4], [2, 2]));
                let _ = n.mul_slice(&v).is_ok();
                let _ = n.mul_vec(v.clone()).is_ok();
                let _ = n.add_mut(&big);
                let _ = n.add_col(&mut v.clone());
                let _ = n.row(h).is_ok();
                let _ = n.copy_col_into_vec(w + 1).is_ok();
                let _ = n.elm(h, 0).is_ok();
                let _ = n.del_row(h).is_ok();
                let _ = body.as_slice().add_slice(&v[..1]);
                let _ = body.as_slice().to_matrix([h, w + 1]);
                let _ = format!("{}", n.get_shape()[0]);
                m = Matrix::from_body(body.clone(), [h, w]);
            });
            sig.extend([h as u64, w as u64]);
        }
        // one matrix edited in place for a long time
        5 => {
            let (h, w) = (c.rng.range(2, 12), c.rng.range(1, 12));
            let body = lib_vec::<P>(&vals::<P>(&mut c.rng, Reg::Gauss, h * w));
            let mut m = Matrix::from_body(body.clone(), [h, w]);
            let v = body[..w].to_vec();
            let k = Matrix::from_body(vec![P::of(z(0.5, 0.0)); h * w], [h, w]);
            steady(c, "matrices edited in place", &format!("{} matrix {h}x{w}", P::NAME), || {
                let _ = m.add_row(v.clone());
                let _ = m.add_mut(&k);
                let _ = m.mul_mut_scalar(P::of(z(0.5, 0.1)));
                let _ = m.elm(h, w).is_ok();
                let mut row = v.clone(); let _ = m.add_mut_row(&mut row);
                for x in m.get_body_as_mut() { *x = P::default(); }
                m.dealloc();
            });
            sig.extend([h as u64, w as u64, 1]);
        }
        // data
        6 => {
            let n = c.rng.range(1, 20);
            let pts: Vec<(IOType<P>, IOType<P>)> = (0..n).map(|_| (lib_feat::<P>(&Feat::M(vec![tab::<P>(&mut c.rng, Reg::Gauss, 3, 3)])), lib_feat::<P>(&Feat::V(vals::<P>(&mut c.rng, Reg::Gauss, 4))))).collect();
            let (samples, many) = (c.rng.range(1, 40), c.rng.range(1, 5));
            let (s1, s2) = (gen_seed(&mut c.rng), gen_seed(&mut c.rng));
            steady(c, "datasets", &format!("{} dataset of {n}", P::NAME), || {
                let mut ds = Dataset::new();
                for p in &pts { ds.add_point(p.clone()); }
                let (i, t) = ds.clone().points_into_iter();
                let _ = i.zip(t).count();
                let (i, t) = ds.points_into_iter();
                let _ = i.take(1).zip(t).count();
                let (mut a, mut b) = (s1, s2);
                let _ = Dataset::<Cf32, Cf32>::signal_reconstruction(samples, many, 0.1, &mut a, &mut b);
                for (_, t) in &pts { let _ = P::loss(t, t, &L::MeanSquare); let _ = P::d_loss(t, t, &L::NormCrossEntropy); }
                let _ = P::gen_pred(n, n / 2, &renplex::init::PredictModel::Sparse);
            });
            sig.push(n as u64);
        }
        // files
        7 => {
            let dir = Scratch::new();
            let (h, w) = (c.rng.range(1, 6), c.rng.range(1, 6));
            let m = Matrix::from_body(vec![0.25f64; h * w], [h, w]);
            let mut ds = Dataset::<f64, f64>::new();
            for _ in 0..h { ds.add_point((IOType::Scalar(vec![1.0; w]), IOType::Scalar(vec![2.0]))); }
            let imgs = c.rng.range(1, 4);
            std::fs::write(dir.path("i"), vec![7u8; 16 + 784 * imgs]).unwrap();
            std::fs::write(dir.path("l"), vec![3u8; 8 + imgs]).unwrap();
            let (a, b, lost) = (dir.path("m.csv"), dir.path("d.csv"), dir.path("no/x.csv"));
            let (pi, pl) = (dir.path("i"), dir.path("l"));
            steady(c, "files", &format!("exports of {h}x{w} and {imgs} images"), || {
                m.to_csv(a.clone()).expect("LIB: to_csv");
                ds.to_csv(b.clone()).expect("LIB: to_csv");
                let _ = m.to_csv(lost.clone());
                let _ = ds.to_csv(lost.clone());
                let (mut f, mut g) = (std::fs::File::open(&pi).unwrap(), std::fs::File::open(&pl).unwrap());
                let mut t = 0;
                if P::IS32 { while Dataset::<f32, f32>::minist_as_batch(&mut f, &mut g, 2, &mut t).get_n_points() > 0 {} }
                else { while Dataset::<P, P>::minist_as_complex_batch(&mut f, &mut g, 2, &mut t).get_n_points() > 0 {} }
            });
            sig.extend([h as u64, w as u64, imgs as u64]);
        }
        // a layer by itself
        _ => {
            let s = if c.rng.chance(1, 2) { Spec::Dense { ni: c.rng.range(1, 12), no: c.rng.range(1, 12), act: c.rng.pick(&ACTS), init: Init::XaGU(3) } } else { Spec::Conv { c: c.rng.range(1, 3), f: c.rng.range(1, 3), kh: c.rng.range(1, 3), kw: c.rng.range(1, 3), act: c.rng.pick(&ACTS), init: Init::He(3) } };
            let mut seed = gen_seed(&mut c.rng);
            let mut l = s.lib::<P>(&mut seed);
            let d = match &s { Spec::Dense { ni, .. } => InDim::V(*ni), Spec::Conv { c: n, .. } => InDim::M(*n, 5, 5), _ => unreachable!() };
            let x = lib_feat::<P>(&gen_input::<P>(&mut c.rng, d, Reg::Gauss));
            let n = match l.foward(&x).expect("LIB: foward") { IOType::Scalar(v) => v.len(), IOType::Matrix(m) => m.iter().map(|t| t.get_body().len()).sum() };
            let (g, gc) = (vec![P::of(z(0.1, 0.2)); n], vec![P::of(z(0.1, -0.2)); n]);
            let (pw, pb) = l.params_len();
            steady(c, "layers", &format!("{} {s:?}", P::NAME), || {
                let _ = l.foward(&x);
                let _ = catch_unwind(AssertUnwindSafe(|| l.compute_derivatives(&x, g.clone(), gc.clone()).map(|_| ())));
                let _ = l.neg_conj_adjustment(vec![P::default(); pw], vec![P::default(); pb]);
                let _ = l.neg_conj_adjustment(vec![P::default(); pw + 1], vec![P::default(); pb]);
            });
            sig.extend(s.words());
        }
    }
    c.sig(&sig);
}
fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { one::<Cf32>(c) } else { one::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[Stage { name: "rounds", quick: 2_700, thorough: 36_000, f: f1 }];

fn main() {
    // what the process holds is counted for all threads together
    std::env::set_var("VERIF_WORKERS", "1");
    run(Plan {
        prop: "C34",
        rule: "distinct (activity, precision, shapes) repeated",
        assumptions: &["growth each of six times that the number of rounds is doubled is accumulation; growth that ends is not"],
        stages: STAGES,
        must_observe: &["predictions", "training", "refusals", "networks built and dropped", "matrices", "matrices edited in place", "datasets", "files", "layers", "allocations observed"],
    });
}
