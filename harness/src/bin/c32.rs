//! C32: refused calls report the cause.
use monitors::driver::{main as run, Outcome, Plan};
use monitors::elem::Elem;
use monitors::nets::*;
use monitors::refm::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::act::ComplexActFunc as A;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::CLayer;
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::init::{InitMethod, PredictModel};
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::{Matrix, SliceOps, SliceToMatrix};
use renplex::math::{BasicOperations, Real};
use renplex::opt::ComplexLossFunc as L;

/// The call has to return an error of the stated cause.
fn cause<R, E: std::fmt::Debug>(c: &mut Ctx, name: &'static str, what: &str, want: &str, f: impl FnOnce() -> Result<R, E>) {
    match c.attempt(f) {
        Outcome::Ret(Err(e)) => c.check(format!("{e:?}") == want, || format!("{what}: reported {e:?} instead of {want}, the cause is: {name}")),
        Outcome::Ret(Ok(_)) => { c.check(false, || format!("{what}: accepted, should be refused: {name}")) }
        Outcome::Panic(p) => { c.check(false, || format!("{what}: panicked instead of reporting {name}: {}", p.msg)) }
    }
    c.count(name, 1);
}

fn filled<E: Elem>(c: &mut Ctx, n: usize) -> Vec<E> { (0..n).map(|_| E::of(num(&mut c.rng, Reg::Int))).collect() }
/// Anything but `n`.
fn other(c: &mut Ctx, n: usize) -> usize { match c.rng.below(4) { 0 => n + 1, 1 if n > 0 => n - 1, 2 => n * 2 + 1, _ => n + c.rng.range(1, 9) } }
/// Another positive number.
fn another(c: &mut Ctx, n: usize) -> usize { match other(c, n) { 0 => n + 1, k => k } }
/// At or past the end.
fn past(c: &mut Ctx, n: usize) -> usize { match c.rng.below(4) { 0 | 1 => n, 2 => n + c.rng.range(1, 100), _ => c.rng.pick(&[usize::MAX, usize::MAX / 2 + 1, 1 << 32]) } }

fn matrices<E: Elem + BasicOperations<E>>(c: &mut Ctx) {
    let (h, w) = (size(c, 9, 60), size(c, 9, 60));
    let body = filled::<E>(c, h * w);
    let spare = [h + c.rng.range(1, 4), w + c.rng.range(1, 4)];
    // rows were added to a matrix with room, or the matrix is full
    let roomy = |body: &[E]| { let mut m = Matrix::<E>::with_capacity(spare); for r in body.chunks(w) { m.add_row(r.to_vec()).expect("LIB: add_row"); } m };
    let mut m = roomy(&body);
    let mut full = Matrix::from_body(body.clone(), [h, w]);
    let (i, j) = (past(c, h), past(c, w));
    let (gi, gj) = (c.rng.below(h), c.rng.below(w));
    let at = format!("{} matrix {h}x{w}", E::NAME);
    for (a, b) in [(i, gj), (gi, j), (i, j)] {
        cause(c, "element outside", &format!("{at}: elm({a}, {b})"), "OutOfBounds", || m.elm(a, b).map(|_| ()));
        cause(c, "element outside", &format!("{at}: elm_mut({a}, {b})"), "OutOfBounds", || m.elm_mut(a, b).map(|_| ()));
    }
    cause(c, "row outside", &format!("{at}: row({i})"), "OutOfBounds", || m.row(i).map(|_| ()));
    cause(c, "row outside", &format!("{at}: row_as_mut({i})"), "OutOfBounds", || m.row_as_mut(i).map(|_| ()));
    cause(c, "deleted row outside", &format!("{at}: del_row({i})"), "OutOfBounds", || m.del_row(i));
    let bad = other(c, w); let mut long = filled::<E>(c, bad);
    cause(c, "row of the wrong length", &format!("{at} with room: add_row of {bad}"), "InconsistentLength", || m.add_row(long.clone()));
    cause(c, "row of the wrong length", &format!("{at} with room: add_mut_row of {bad}"), "InconsistentLength", || m.add_mut_row(&mut long));
    let mut fits = filled::<E>(c, w);
    cause(c, "no room for a row", &format!("{at} full: add_row"), "Overflow", || full.add_row(fits.clone()));
    cause(c, "no room for a row", &format!("{at} full: add_mut_row"), "Overflow", || full.add_mut_row(&mut fits));
    let bad = other(c, h); let mut long = filled::<E>(c, bad);
    cause(c, "column of the wrong length", &format!("{at} with room: add_col of {bad}"), "InconsistentLength", || m.add_col(&mut long));
    let mut fits = filled::<E>(c, h);
    cause(c, "no room for a column", &format!("{at} full: add_col"), "Overflow", || full.add_col(&mut fits));
    let (bw, bh) = (other(c, w), other(c, h));
    let mut buf = filled::<E>(c, w.max(h).max(bw).max(bh));
    cause(c, "copied row or column outside", &format!("{at}: row_into_slice({i})"), "OutOfBounds", || m.row_into_slice(i, &mut buf[..w]));
    cause(c, "copied row or column outside", &format!("{at}: col_into_slice({j})"), "OutOfBounds", || m.col_into_slice(j, &mut buf[..h]));
    cause(c, "copied row or column outside", &format!("{at}: copy_col_into_vec({j})"), "OutOfBounds", || m.copy_col_into_vec(j));
    cause(c, "buffer of the wrong length", &format!("{at}: row_into_slice into {bw}"), "InconsistentShape", || m.row_into_slice(gi, &mut buf[..bw]));
    cause(c, "buffer of the wrong length", &format!("{at}: col_into_slice into {bh}"), "InconsistentShape", || m.col_into_slice(gj, &mut buf[..bh]));
    // arithmetic
    let (ah, aw) = if c.rng.chance(1, 2) { (h, w + c.rng.range(1, 3)) } else { (h + c.rng.range(1, 3), w) };
    let add = Matrix::from_body(filled::<E>(c, ah * aw), [ah, aw]);
    cause(c, "sum of different shapes", &format!("{at} + {ah}x{aw}"), "InconsistentShape", || m.add_mut(&add));
    let bad = other(c, w); let v = filled::<E>(c, bad);
    cause(c, "vector of the wrong length", &format!("{at} times vector of {bad}"), "InvalidRHS", || m.mul_vec(v.clone()));
    cause(c, "vector of the wrong length", &format!("{at} times slice of {bad}"), "InvalidRHS", || m.mul_slice(&v));
    let (kh, kw) = match c.rng.below(3) { 0 => (h + 1, c.rng.range(1, w)), 1 => (c.rng.range(1, h), w + 1), _ => (h + 1, w + c.rng.range(1, 3)) };
    let k = Matrix::from_body(filled::<E>(c, kh * kw), [kh, kw]);
    cause(c, "kernel larger than the matrix", &format!("{at} convolved with {kh}x{kw}"), "InvalidRHS", || m.convolution(&k));
    let (bh, bw) = match c.rng.below(3) { 0 => (h + 1, 1), 1 => (1, w + 1), _ => (h * 2, w * 2) };
    cause(c, "block that does not divide", &format!("{at} reduced by {bh}x{bw}"), "InconsistentShape", || m.block_reduce(&[bh, bw], |b| b[0]));
    let (eh, ew) = match c.rng.below(3) { 0 => (2, 1), 1 => (3, 4), _ => (2, 2) };
    let k = Matrix::from_body(filled::<E>(c, eh * ew), [eh, ew]);
    let (ub, uw) = (c.rng.range(1, 3), c.rng.range(1, 3));
    cause(c, "smoothing kernel of even size", &format!("{at} upsampled with {eh}x{ew}"), "InvalidRHS", || m.fractional_upsampling(&[ub, uw], &k));
    let (zh, zw) = match c.rng.below(3) { 0 => (0, uw), 1 => (ub, 0), _ => (0, 0) };
    let k = Matrix::from_body(filled::<E>(c, 1), [1, 1]);
    cause(c, "empty block", &format!("{at} upsampled by {zh}x{zw}"), "InconsistentShape", || m.fractional_upsampling(&[zh, zw], &k));
    // slices
    let n = h + 1; let bad = other(c, n).max(1);
    let (mut a, b) = (filled::<E>(c, n), filled::<E>(c, bad));
    let at = format!("{} slices of {n} and {bad}", E::NAME);
    cause(c, "slices of different length", &format!("{at}: add_slice"), "InconsistentShape", || a.as_slice().add_slice(&b));
    cause(c, "slices of different length", &format!("{at}: add_slice_mut"), "InconsistentShape", || a.as_mut_slice().add_slice_mut(&b));
    cause(c, "slices of different length", &format!("{at}: mul_slice"), "InconsistentShape", || SliceOps::mul_slice(a.as_slice(), &b));
    cause(c, "slices of different length", &format!("{at}: mul_slice_mut"), "InconsistentShape", || a.as_mut_slice().mul_slice_mut(&b));
    let (sh, sw) = (c.rng.range(1, 6), c.rng.range(1, 6));
    let bad = other(c, sh * sw); let a = filled::<E>(c, bad);
    cause(c, "wrong number of entries for the shape", &format!("{bad} entries as {sh}x{sw}"), "InconsistentShape", || a.to_matrix([sh, sw]));
    c.sig(&[E::ID, h as u64, w as u64]);
}

fn init<P: Prec>(c: &mut Ctx) -> InitMethod { match c.rng.below(5) { 0 => InitMethod::Uniform(1), 1 => InitMethod::XavierGlorotU(4), 2 => InitMethod::XavierGlorotN(4), 3 => InitMethod::Xavier(3), _ => InitMethod::HeInit(3) } }
/// A layer nobody has initialised: no units.
fn hollow<P: Prec>(c: &mut Ctx) -> CLayer<P> {
    let mut s = gen_seed(&mut c.rng);
    let n = c.rng.range(1, 4);
    let m = init::<P>(c);
    if c.rng.chance(1, 2) { DenseCLayer::init(IOShape::Scalar(0), 0, A::None, m, &mut s).expect("LIB: init").wrap() }
    else { let _ = n; ConvCLayer::init(IOShape::Matrix(0), 0, [1, 1], A::None, m, &mut s).expect("LIB: init").wrap() }
}

fn networks<P: Prec>(c: &mut Ctx) {
    let o = NetOpts { acts: &[A::None, A::RITSigmoid], exact_pool: false, allow_maps: true, flat_end: c.rng.chance(1, 2), min_layers: 1, max_layers: if c.small { 3 } else { 5 }, max_ch: 3, max_dim: if c.small { 3 } else { 6 } };
    let (d, specs) = gen_net_for::<P>(c, &o, 300_000);
    let seed = gen_seed(&mut c.rng);
    let mut net = build::<P>(&specs, seed, &vec![]);
    let n = specs.len();
    let at = format!("{} {specs:?}", P::NAME);
    let x = lib_feat::<P>(&gen_input::<P>(&mut c.rng, d, Reg::Gauss));
    let mut empty = CNetwork::<P>::new();
    let lf = if c.rng.chance(1, 2) { L::MeanSquare } else { L::NormCrossEntropy };
    cause(c, "network without layers", "forward", "MissingLayers", || empty.forward(&x));
    cause(c, "network without layers", "collect_acts", "MissingLayers", || empty.collect_acts(x.clone()));
    let k = c.rng.below(4);
    cause(c, "network without layers", "intercept", "MissingLayers", || empty.intercept(x.clone(), k).map(|_| ()));
    cause(c, "network without layers", "gradient_opt", "MissingLayers", || empty.gradient_opt(Dataset::new(), &lf, P::of(monitors::num::z(0.1, 0.0))));
    cause(c, "shape of a network without layers", "get_input_shape", "MissingInput", || empty.get_input_shape());
    cause(c, "shape of a network without layers", "get_output_shape", "MissingInput", || empty.get_output_shape());
    let mut s = seed;
    cause(c, "further layer before the first", "add", "MissingInput", || empty.add(specs[0].lib::<P>(&mut s)));
    let h = hollow::<P>(c);
    cause(c, "uninitialised layer", "add_input", "MissingInitialization", || empty.add_input(h));
    let h = hollow::<P>(c);
    cause(c, "uninitialised layer", "add", "MissingInitialization", || net.add(h));
    cause(c, "second first layer", &at, "ExistentInput", || net.add_input(specs[0].lib::<P>(&mut s)));
    let out = c.ok("get_output_shape", || net.get_output_shape());
    // a layer that takes another number or another kind of features
    let kind = c.rng.chance(1, 2);
    let (f, maps) = match out { IOShape::Scalar(f) => (f, kind), IOShape::Matrix(f) => (f, !kind) };
    let f = if kind { f } else { other(c, f).max(1) };
    let m = init::<P>(c);
    let wrong: CLayer<P> = if maps { ConvCLayer::init(IOShape::Matrix(f), c.rng.range(1, 3), [1, 1], A::None, m, &mut s).expect("LIB: init").wrap() } else { DenseCLayer::init(IOShape::Scalar(f), c.rng.range(1, 3), A::None, m, &mut s).expect("LIB: init").wrap() };
    if Some(wrong.get_input_shape()) != net.get_output_shape().ok() { cause(c, "layer that does not fit", &at, "IncompatibleIO", || net.add(wrong)); }
    let k = past(c, n);
    cause(c, "layer index outside", &format!("intercept({k}): {at}"), "InvalidLayerIndex", || net.intercept(x.clone(), k).map(|_| ()));
    if n == 1 {
        let mut ds = Dataset::new();
        let y = c.attempt(|| net.forward(&x));
        if let Outcome::Ret(Ok(y)) = y { ds.add_point((x.clone(), y)); cause(c, "training a single layer", &at, "MissingLayers", || net.gradient_opt(ds, &lf, P::of(monitors::num::z(0.1, 0.0)))); }
    }
    c.sig(&words(&specs));
}

fn layers<P: Prec>(c: &mut Ctx) {
    let mut s = gen_seed(&mut c.rng);
    let (n, m) = (size(c, 6, 60), c.rng.range(1, 5));
    let (kh, kw) = (c.rng.range(1, 3), c.rng.range(1, 3));
    let act = c.rng.pick(&ACTS);
    let i1 = init::<P>(c); let i2 = init::<P>(c); let i3 = init::<P>(c);
    cause(c, "dense layer over maps", "dense init", "InvalidInputShape", || DenseCLayer::<P>::init(IOShape::Matrix(n), m, act, i1, &mut s));
    cause(c, "convolutional layer over a vector", "conv init", "InvalidInputShape", || ConvCLayer::<P>::init(IOShape::Scalar(n), m, [kh, kw], act, i2, &mut s));
    let zero = c.rng.pick(&[[0, 1], [1, 0], [0, 0]]);
    cause(c, "kernel of size zero", "conv init", "InvalidInputShape", || ConvCLayer::<P>::init(IOShape::Matrix(m), 2, zero, act, i3, &mut s));
    let vec = lib_feat::<P>(&Feat::V(vals::<P>(&mut c.rng, Reg::Gauss, n)));
    let maps = |c: &mut Ctx, k: usize| -> IOType<P> { lib_feat::<P>(&Feat::M((0..k).map(|_| tab::<P>(&mut c.rng, Reg::Gauss, 4, 4)).collect())) };
    let dense = Spec::Dense { ni: n, no: m, act, init: Init::XaGU(3) };
    let conv = Spec::Conv { c: m, f: size(c, 9, 24), kh, kw, act, init: Init::XaGU(3) };
    let pool = Spec::Pool { n: m, bh: 2, bw: 2, kind: c.rng.pick(&POOLS), kernel: Tab::new(3, 3) };
    let flat = Spec::Flat { h: 4, w: 4, n: m };
    for sp in [&dense, &conv, &pool, &flat] {
        let l: CLayer<P> = sp.lib::<P>(&mut s);
        let at = format!("{} {sp:?}", P::NAME);
        let bad = if matches!(sp, Spec::Dense { .. }) { maps(c, n.min(5)) } else { vec.clone() };
        cause(c, "features of the wrong kind", &at, "InvalidInput", || l.foward(&bad));
        if !matches!(sp, Spec::Dense { .. }) {
            let k = another(c, m);
            let bad = maps(c, k);
            cause(c, "wrong number of maps", &format!("{at} fed with {k}"), "InvalidInput", || l.foward(&bad));
        }
    }
    // adjustments and gradients of the wrong size
    for sp in [&dense, &conv] {
        let mut l: CLayer<P> = sp.lib::<P>(&mut s);
        let (pw, pb) = l.params_len();
        let (bw, bb) = match c.rng.below(3) { 0 => (other(c, pw), pb), 1 => (pw, other(c, pb)), _ => (other(c, pw), other(c, pb)) };
        let (dw, db) = (lib_vec::<P>(&vals::<P>(&mut c.rng, Reg::Disc, bw)), lib_vec::<P>(&vals::<P>(&mut c.rng, Reg::Disc, bb)));
        cause(c, "adjustment of the wrong size", &format!("{} {sp:?} by {bw} and {bb}", P::NAME), "InconsistentShape", || l.neg_conj_adjustment(dw, db));
    }
    let l: CLayer<P> = dense.lib::<P>(&mut s);
    let k = other(c, m);
    for (ka, kc) in [(k, m), (m, k), (k, k)] {
        let (g, gc) = (lib_vec::<P>(&vals::<P>(&mut c.rng, Reg::Disc, ka)), lib_vec::<P>(&vals::<P>(&mut c.rng, Reg::Disc, kc)));
        cause(c, "incoming gradient of the wrong size", &format!("{} {dense:?} with {ka} and {kc}", P::NAME), "InconsistentShape", || l.compute_derivatives(&vec, g.clone(), gc.clone()).map(|_| ()));
    }
    // losses
    let k = another(c, n);
    let (a, b) = (vec.clone(), lib_feat::<P>(&Feat::V(vals::<P>(&mut c.rng, Reg::Disc, k))));
    let (p, q) = (maps(c, m), maps(c, m + 1));
    for lf in [L::MeanSquare, L::NormCrossEntropy] {
        for (t, y) in [(&a, &b), (&b, &a), (&a, &p), (&p, &a), (&p, &q), (&q, &p)] {
            cause(c, "target and prediction that do not match", "loss", "InconsistentIO", || P::loss(t, y, &lf));
            cause(c, "target and prediction that do not match", "d_loss", "InconsistentIO", || P::d_loss(t, y, &lf));
        }
    }
    // one-hot targets and features
    let k = past(c, n);
    cause(c, "class outside", &format!("class {k} of {n}"), "CriticalIndexOverflow", || P::gen_pred(n, k, &PredictModel::Sparse));
    cause(c, "class outside", &format!("real class {k} of {n}"), "CriticalIndexOverflow", || if P::IS32 { f32::gen_pred(n, k, &PredictModel::Sparse).map(|_| ()) } else { f64::gen_pred(n, k, &PredictModel::Sparse).map(|_| ()) });
    cause(c, "features released as the wrong kind", "release_maps", "InvalidType", || a.release_maps());
    cause(c, "features released as the wrong kind", "release_vec", "InvalidType", || p.release_vec());
    c.sig(&[n as u64, m as u64, kh as u64, kw as u64, act as u64]);
}

fn f1(c: &mut Ctx) { match c.idx % 4 { 0 => matrices::<f32>(c), 1 => matrices::<f64>(c), 2 => matrices::<Cf32>(c), _ => matrices::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { networks::<Cf32>(c) } else { networks::<Cf64>(c) } }
fn f3(c: &mut Ctx) { if c.idx % 2 == 0 { layers::<Cf32>(c) } else { layers::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "matrices", quick: 40_000, thorough: 400_000, f: f1 },
    Stage { name: "large-matrices", quick: 2_000, thorough: 20_000, f: f1 },
    Stage { name: "networks", quick: 30_000, thorough: 300_000, f: f2 },
    Stage { name: "large-networks", quick: 1_000, thorough: 10_000, f: f2 },
    Stage { name: "layers", quick: 20_000, thorough: 200_000, f: f3 },
    Stage { name: "large-layers", quick: 2_000, thorough: 20_000, f: f3 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C32",
        rule: "distinct (element type, shape), network or layer whose refusals were read",
        assumptions: &["each call has exactly one thing wrong with it"],
        stages: STAGES,
        must_observe: &["element outside", "row outside", "deleted row outside", "row of the wrong length", "no room for a row", "column of the wrong length", "no room for a column", "copied row or column outside", "buffer of the wrong length", "sum of different shapes", "vector of the wrong length", "kernel larger than the matrix", "block that does not divide", "smoothing kernel of even size", "empty block", "slices of different length", "wrong number of entries for the shape", "network without layers", "further layer before the first", "uninitialised layer", "second first layer", "layer that does not fit", "layer index outside", "training a single layer", "dense layer over maps", "convolutional layer over a vector", "kernel of size zero", "features of the wrong kind", "wrong number of maps", "adjustment of the wrong size", "incoming gradient of the wrong size", "target and prediction that do not match", "class outside", "features released as the wrong kind"],
    });
}
