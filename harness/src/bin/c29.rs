//! C29: arbitrary use of the safe interface. Every call must return or panic; the sanitizers watch the rest.
use monitors::driver::{main as run, Outcome, Plan};
use monitors::nets::*;
use monitors::num::z;
use monitors::refm::ACTS;
use monitors::rng::Rng;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::cvnn::layer::{conv::ConvCLayer, dense::DenseCLayer, flatten::Flatten, reduce::Reduce, CLayer};
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::init::{InitMethod, PredictModel};
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::{Matrix, SliceOps, SliceToMatrix};
use renplex::math::{Complex, Real};
use renplex::opt::ComplexLossFunc as L;
use std::fs::File;
use std::io::Write;

/// Decides something by every value, so that a value nobody wrote is noticed.
trait Touch { fn touch(&self) -> usize; }
impl<P: Prec> Touch for [P] { fn touch(&self) -> usize { self.iter().filter(|v| { let (a, b) = v.bits(); std::hint::black_box(a ^ b.rotate_left(7)) > 99 }).count() } }
fn touch_io<P: Prec>(x: &IOType<P>) -> usize { match x { IOType::Scalar(v) => v.touch(), IOType::Matrix(m) => m.iter().map(|t| t.get_body().touch()).sum() } }

/// One call: may return anything or panic.
fn any<R>(c: &mut Ctx, f: impl FnOnce() -> R) -> Option<R> {
    c.tally.evals += 1;
    match c.attempt(f) { Outcome::Ret(r) => { c.count("calls that returned", 1); Some(r) } Outcome::Panic(_) => { c.count("calls that panicked", 1); None } }
}

/// Mostly near the boundaries of 0..n, sometimes far away.
fn index(r: &mut Rng, n: usize) -> usize {
    match r.below(12) { 0 => n, 1 => n + 1, 2 => usize::MAX, 3 => usize::MAX / 2 + 1, 4 => n.wrapping_sub(1), 5 => r.below(2 * n + 3), _ => r.below(n.max(1)) }
}
fn tiny(r: &mut Rng, small: bool) -> usize { match r.below(6) { 0 => 0, 1 => 1, _ => r.range(1, if small { 3 } else { 7 }) } }
/// Any bit pattern: NaN, infinities, subnormals, huge, ordinary.
fn wild<P: Prec>(r: &mut Rng) -> P {
    let f = |r: &mut Rng| match r.below(10) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, 3 => 1e300, 4 => -1e-310, 5 => 0.0, 6 => -0.0, _ => r.gauss() };
    let (a, b) = (f(r), f(r));
    P::of(z(a, b))
}
fn wilds<P: Prec>(r: &mut Rng, n: usize) -> Vec<P> { let tame = r.chance(2, 3); (0..n).map(|_| if tame { P::of(z(r.gauss(), r.gauss())) } else { wild::<P>(r) }).collect() }
/// A matrix whose body and shape usually agree.
fn mat<P: Prec>(r: &mut Rng, small: bool) -> Matrix<P> {
    let (h, w) = (tiny(r, small), tiny(r, small));
    let n = if r.chance(1, 6) { r.below(h * w + 4) } else { h * w };
    Matrix::from_body(wilds::<P>(r, n), [h, w])
}
fn feat<P: Prec>(r: &mut Rng, small: bool) -> IOType<P> {
    if r.chance(1, 2) { let n = tiny(r, small); IOType::Scalar(wilds::<P>(r, n)) }
    else {
        let n = tiny(r, small).min(4);
        if r.chance(1, 3) { IOType::Matrix((0..n).map(|_| mat::<P>(r, small)).collect()) }
        else { let (h, w) = (tiny(r, small), tiny(r, small)); IOType::Matrix((0..n).map(|_| Matrix::from_body(wilds::<P>(r, h * w), [h, w])).collect()) }
    }
}

/// Edits on matrices of owned values: a value dropped twice or read after release shows.
fn owned(c: &mut Ctx) {
    let small = c.small;
    let cap = [tiny(&mut c.rng, small), tiny(&mut c.rng, small)];
    let mut m: Matrix<String> = if c.rng.chance(1, 3) {
        let (h, w) = (tiny(&mut c.rng, small), tiny(&mut c.rng, small));
        let n = if c.rng.chance(1, 4) { c.rng.below(h * w + 4) } else { h * w };
        Matrix::from_body((0..n).map(|i| format!("body {i} of a matrix")).collect(), [h, w])
    } else if c.rng.chance(1, 8) { Matrix::new() } else { Matrix::with_capacity(cap) };
    let mut offered: Vec<String> = Vec::new();
    let ops = if small { 12 } else { 60 };
    for k in 0..ops {
        let (h, w) = (m.get_shape()[0], m.get_shape()[1]);
        let (i, j) = (index(&mut c.rng, h), index(&mut c.rng, w));
        let len = if c.rng.chance(2, 3) { w.max(if h == 0 { c.rng.below(cap[1] + 2) } else { 0 }) } else { c.rng.below(9) };
        let row = |n: usize, tag: &str| (0..n).map(|x| format!("{tag} {k} {x} long enough to own memory")).collect::<Vec<_>>();
        match c.rng.below(16) {
            0 | 1 => { let r = row(len, "row"); any(c, || m.add_row(r).is_ok()); }
            2 | 3 => { if c.rng.chance(2, 3) { offered = row(len, "moved row"); } any(c, || m.add_mut_row(&mut offered).is_ok()); }
            4 | 5 => { let n = if c.rng.chance(2, 3) { h } else { c.rng.below(9) }; if c.rng.chance(2, 3) { offered = row(n, "column"); } any(c, || m.add_col(&mut offered).is_ok()); }
            6 => { any(c, || m.del_row(i).map(|r| r.iter().map(|s| s.len()).sum::<usize>()).unwrap_or(0)); }
            7 => { any(c, || m.dealloc()); }
            8 => { any(c, || m.elm(i, j).map(|s| s.len()).unwrap_or(0)); }
            9 => { any(c, || if let Ok(s) = m.elm_mut(i, j) { *s = format!("written at {i} {j} in step {k}"); }); }
            10 => { any(c, || m.row(i).map(|r| r.iter().map(|s| s.len()).sum::<usize>()).unwrap_or(0)); }
            11 => { any(c, || if let Ok(r) = m.row_as_mut(i) { for s in r.iter_mut() { s.push('x'); } }); }
            12 => { let n = index(&mut c.rng, 3); any(c, || m.get_slider(i, n).map(|r| r.len()).sum::<usize>()); }
            13 => { any(c, || { for r in m.rows_as_iter_mut() { for s in r { s.truncate(30); } } m.rows_as_iter().map(|r| r.len()).sum::<usize>() }); }
            14 => { let d = m.clone(); any(c, || format!("{d} {d:?}").len()); any(c, || d.body_into_iter().skip(1).map(|s| s.len()).sum::<usize>()); }
            _ => { let n = m.get_body().len(); any(c, || m.get_body_as_mut().iter_mut().rev().take(n).for_each(|s| *s = s.to_uppercase())); }
        }
    }
    let total: usize = m.export_body().iter().map(|s| s.len()).sum();
    c.sample(|| format!("{ops} edits of a matrix of strings of capacity {cap:?} ended with {total} bytes"));
    c.sig(&[1, cap[0] as u64, cap[1] as u64, total as u64]);
    c.count("edit histories of owned values", 1);
}

fn numeric<P: Prec>(c: &mut Ctx) {
    let small = c.small;
    let (mut a, b) = (mat::<P>(&mut c.rng, small), mat::<P>(&mut c.rng, small));
    let par = !small || c.idx % 4 == 0;
    for _ in 0..if small { 6 } else { 24 } {
        let (h, w) = (a.get_shape()[0], a.get_shape()[1]);
        let (i, j) = (index(&mut c.rng, h), index(&mut c.rng, w));
        let s = wild::<P>(&mut c.rng);
        let n = if c.rng.chance(1, 2) { w } else { c.rng.below(9) };
        let v = wilds::<P>(&mut c.rng, n);
        let nb = if c.rng.chance(1, 2) { h } else { n };
        let mut buf = wilds::<P>(&mut c.rng, nb);
        match c.rng.below(22) {
            0 => { any(c, || a.convolution(&b).map(|m| m.export_body().touch()).unwrap_or(0)); }
            1 => { any(c, || a.cconvolution(&b).map(|m| m.export_body().touch()).unwrap_or(0)); }
            2 => { any(c, || a.flip().map(|m| m.export_body().touch()).unwrap_or(0)); }
            3 => { let p = (c.rng.below(4), c.rng.below(4)); let d = a.clone(); if let Some(m) = any(c, || d.pad(p)) { a = m; } }
            4 => { any(c, || a.add_mut(&b).is_ok()); }
            5 => { any(c, || a.add_mut_scalar(s).is_ok()); }
            6 => { any(c, || a.mul_mut_scalar(s).is_ok()); }
            7 => { any(c, || a.div_mut_scalar(s).is_ok()); }
            8 => { any(c, || a.mul_vec(v).map(|x| x.touch()).unwrap_or(0)); }
            9 => { any(c, || a.mul_slice(&v).map(|x| x.touch()).unwrap_or(0)); }
            10 => { any(c, || a.row_into_slice(i, &mut buf).is_ok()); }
            11 => { any(c, || a.col_into_slice(j, &mut buf).is_ok()); }
            12 => { any(c, || a.copy_col_into_vec(j).map(|x| x.touch()).unwrap_or(0)); }
            13 => { let bs = [tiny(&mut c.rng, true), tiny(&mut c.rng, true)]; any(c, || a.block_reduce(&bs, |x| x[x.len() - 1]).map(|m| m.export_body().touch()).unwrap_or(0)); }
            14 => { let bs = vec![1; c.rng.below(3)]; any(c, || a.block_reduce(&bs, |x| x[0]).is_ok()); any(c, || a.fractional_upsampling(&bs, &b).is_ok()); }
            15 => { let bs = [tiny(&mut c.rng, true), tiny(&mut c.rng, true)]; any(c, || a.fractional_upsampling(&bs, &b).map(|m| m.export_body().touch()).unwrap_or(0)); }
            16 => { let sh = [tiny(&mut c.rng, small), tiny(&mut c.rng, small)]; any(c, || v.to_matrix(sh).map(|m| m.export_body().touch()).unwrap_or(0)); }
            17 => { any(c, || (v.add_slice(&buf).map(|x| x.touch()).unwrap_or(0), SliceOps::mul_slice(&v[..], &buf).map(|x| x.touch()).unwrap_or(0), v.scalar_prod(&buf))); }
            18 => { let mut v = v; any(c, || (v.add_slice_mut(&buf).is_ok(), v.mul_slice_mut(&buf).is_ok())); any(c, || (v.mul_mut_scalar(s).is_ok(), v.div_mut_scalar(s).is_ok())); }
            19 => { let mut offered = v; any(c, || a.add_col(&mut offered).is_ok()); any(c, || a.add_mut_row(&mut offered).is_ok()); }
            20 => { let r = v; any(c, || a.add_row(r).is_ok()); any(c, || a.del_row(i).is_ok()); }
            _ => if par { use rayon::prelude::*; any(c, || a.rows_as_par_chunks().map(|r| r.len()).sum::<usize>()); } else { any(c, || a.elm(i, j).is_ok()); }
        }
    }
    c.sample(|| format!("arithmetic with matrices of shapes {:?} and {:?}", a.get_shape(), b.get_shape()));
    c.sig(&[2, P::IS32 as u64, a.get_shape()[0] as u64, a.get_shape()[1] as u64, b.get_shape()[0] as u64, b.get_shape()[1] as u64]);
    c.count("numeric matrices abused", 1);
}

fn shape(r: &mut Rng, small: bool) -> IOShape { if r.chance(1, 2) { IOShape::Scalar(tiny(r, small)) } else { IOShape::Matrix(tiny(r, small).min(4)) } }
fn layer<P: Prec>(c: &mut Ctx) -> Option<CLayer<P>> {
    let small = c.small;
    let mut seed = gen_seed(&mut c.rng);
    let act = c.rng.pick(&ACTS);
    let units = tiny(&mut c.rng, small);
    let im = match c.rng.below(5) { 0 => InitMethod::Uniform(units), 1 => InitMethod::XavierGlorotU(units), 2 => InitMethod::XavierGlorotN(units), 3 => InitMethod::Xavier(units), _ => InitMethod::HeInit(units) };
    let sh = shape(&mut c.rng, small);
    match c.rng.below(4) {
        0 => { let sh = if c.rng.chance(3, 4) { IOShape::Scalar(tiny(&mut c.rng, small)) } else { sh }; any(c, || DenseCLayer::<P>::init(sh, units, act, im, &mut seed).ok())?.map(|l| l.wrap()) }
        1 => { let sh = if c.rng.chance(3, 4) { IOShape::Matrix(tiny(&mut c.rng, small).min(3)) } else { sh }; let k = [tiny(&mut c.rng, true), tiny(&mut c.rng, true)]; any(c, || ConvCLayer::<P>::init(sh, units.min(3), k, act, im, &mut seed).ok())?.map(|l| l.wrap()) }
        2 => { let k = mat::<P>(&mut c.rng, true); let bs = [tiny(&mut c.rng, true), tiny(&mut c.rng, true)]; Some(Reduce::<P>::init(tiny(&mut c.rng, small).min(4), bs, Box::new(|b: &[P]| if b.is_empty() { P::default() } else { b[b.len() / 2] }), k).wrap()) }
        _ => { let s = [tiny(&mut c.rng, small), tiny(&mut c.rng, small)]; Some(Flatten::init(s, tiny(&mut c.rng, small).min(4)).wrap()) }
    }
}

/// Features of the declared kind and number.
fn fitting<P: Prec>(r: &mut Rng, s: IOShape, small: bool) -> IOType<P> {
    match s {
        IOShape::Scalar(n) => IOType::Scalar(wilds::<P>(r, n)),
        IOShape::Matrix(n) => { let (h, w) = (r.range(1, if small { 4 } else { 8 }), r.range(1, if small { 4 } else { 8 })); IOType::Matrix((0..n).map(|_| Matrix::from_body(wilds::<P>(r, h * w), [h, w])).collect()) }
    }
}

fn layers<P: Prec>(c: &mut Ctx) {
    let small = c.small;
    let Some(mut l) = layer::<P>(c) else { return };
    any(c, || (l.is_empty(), l.propagates(), l.params_len(), format!("{:?}{:?}", l.get_input_shape(), l.get_output_shape()).len()));
    for _ in 0..if small { 3 } else { 10 } {
        let x = if c.rng.chance(2, 3) { fitting::<P>(&mut c.rng, l.get_input_shape(), small) } else { feat::<P>(&mut c.rng, small) };
        let y = any(c, || l.foward(&x).ok()).flatten();
        if let Some(y) = &y { std::hint::black_box(touch_io(y)); }
        let n = match (&y, c.rng.chance(1, 2)) { (Some(IOType::Scalar(v)), true) => v.len(), (Some(IOType::Matrix(m)), true) => m.iter().map(|t| t.get_body().len()).sum(), _ => c.rng.below(30) };
        let n2 = if c.rng.chance(3, 4) { n } else { c.rng.below(30) };
        let (g, gc) = (wilds::<P>(&mut c.rng, n), wilds::<P>(&mut c.rng, n2));
        let d = any(c, || l.compute_derivatives(&x, g, gc).ok()).flatten();
        let (dw, db) = match d { Some(d) if c.rng.chance(1, 2) => { std::hint::black_box(d.2.touch() + d.3.touch() + d.0.touch() + d.1.touch()); c.count("gradients computed from arbitrary arguments", 1); (d.0, d.1) }, _ => { let p = l.params_len(); let off = c.rng.chance(1, 2); let (a, b) = if off { (c.rng.below(40), c.rng.below(9)) } else { p }; (wilds::<P>(&mut c.rng, a), wilds::<P>(&mut c.rng, b)) } };
        any(c, || l.neg_conj_adjustment(dw, db).is_ok());
    }
    any(c, || format!("{l:?}").len());
    c.sig(&[3, c.idx]);
    c.count("layers abused", 1);
}

fn dataset<P: Prec>(c: &mut Ctx, net: &CNetwork<P>) -> Dataset<P, P> {
    let small = c.small;
    let mut d = Dataset::new();
    for _ in 0..c.rng.below(4) {
        let x = match net.get_input_shape() { Ok(s) if c.rng.chance(2, 3) => fitting::<P>(&mut c.rng, s, small), _ => feat::<P>(&mut c.rng, small) };
        // a target that fits, or not
        let t = match any(c, || net.forward(&x).ok()).flatten() { Some(y) if c.rng.chance(3, 4) => y, _ => feat::<P>(&mut c.rng, small) };
        d.add_point((x, t));
    }
    d
}

fn networks<P: Prec>(c: &mut Ctx) {
    let small = c.small;
    let mut net: CNetwork<P> = CNetwork::new();
    if c.rng.chance(1, 2) {
        for k in 0..c.rng.below(5) { if let Some(l) = layer::<P>(c) { any(c, || if k == 0 { net.add_input(l).is_ok() } else { net.add(l).is_ok() }); } }
    } else {
        // a network that works, given inputs that may not
        let o = NetOpts { acts: &ACTS, exact_pool: false, allow_maps: true, flat_end: false, min_layers: 1, max_layers: 4, max_ch: 3, max_dim: if small { 3 } else { 6 } };
        let (_, specs) = gen_net::<P>(&mut c.rng, &o);
        net = build::<P>(&specs, gen_seed(&mut c.rng), &vec![]);
    }
    any(c, || (net.params_len(), net.get_input_shape().is_ok(), net.get_output_shape().is_ok()));
    for _ in 0..if small { 2 } else { 6 } {
        let x = match net.get_input_shape() { Ok(s) if c.rng.chance(2, 3) => fitting::<P>(&mut c.rng, s, small), _ => feat::<P>(&mut c.rng, small) };
        any(c, || net.forward(&x).is_ok());
        let k = index(&mut c.rng, 4);
        any(c, || net.intercept(x.clone(), k).map(|(f, l)| (touch_io(&f), l.params_len())).is_ok());
        any(c, || net.collect_acts(x).map(|v| v.iter().map(touch_io).sum()).unwrap_or(0));
        let d = dataset::<P>(c, &net);
        let lf = if c.rng.chance(1, 2) { L::MeanSquare } else { L::NormCrossEntropy };
        any(c, || net.loss(&d, &lf).is_ok());
        any(c, || net.max_pred_test(&d));
        let lr = wild::<P>(&mut c.rng);
        if any(c, || net.gradient_opt(d, &lf, lr).is_ok()) == Some(true) { c.count("networks trained on arbitrary data", 1); }
    }
    any(c, || format!("{net:?}").len());
    c.sig(&[4, c.idx]);
    c.count("networks abused", 1);
}

fn values<P: Prec>(c: &mut Ctx) where P::Precision: std::fmt::Debug {
    for _ in 0..if c.small { 4 } else { 12 } {
        let (a, b) = (wild::<P>(&mut c.rng), wild::<P>(&mut c.rng));
        any(c, || (a + b, a - b, a * b));
        any(c, || a / b);
        any(c, || { let mut x = a; x += b; x -= b; x *= b; x /= b; x });
        any(c, || (a.norm(), a.norm_sq(), a.phase(), a.conj(), a < b, a >= b, a.partial_cmp(&b), format!("{a} {a:?}").len()));
        let act = c.rng.pick(&ACTS);
        any(c, || (a.activate(&act), a.d_activate(&act), a.d_conj_activate(&act)));
        let mut v = wilds::<P>(&mut c.rng, 5);
        any(c, || { P::activate_mut(&mut v, &act); P::d_activate_mut(&mut v, &act); P::d_conj_activate_mut(&mut v[1..3], &act); P::activate_mut(&mut [], &act) });
        let lf = if c.rng.chance(1, 2) { L::MeanSquare } else { L::NormCrossEntropy };
        let small = c.small;
        let (t, p) = (feat::<P>(&mut c.rng, small), feat::<P>(&mut c.rng, small));
        any(c, || P::loss(&t, &p, &lf).is_ok());
        any(c, || P::d_loss(&t, &p, &lf).is_ok());
        let mut seed = if c.rng.chance(1, 3) { c.rng.u128() } else { gen_seed(&mut c.rng) };
        let n = c.rng.pick(&[0, 1, 2, 7, 1000, usize::MAX, usize::MAX / 2]);
        any(c, || (P::gen(&mut seed, n), P::gen_he(&mut seed, n), P::gen_xa(&mut seed, n), P::gen_xagu(&mut seed, n), P::gen_xagn(&mut seed, n), f32::gen(&mut seed, n), f64::gen(&mut seed, n)));
        let lim = c.rng.pick(&[0, 1, 2, 10, u128::MAX, 1 << 63, 1 << 97, 1 << 100]);
        any(c, || renplex::math::random::lcgi(&mut seed, lim));
        let (size, k) = (c.rng.below(9), index(&mut c.rng, 8));
        any(c, || (<P as Complex>::gen_pred(size, k, &PredictModel::Sparse).is_ok(), <f32 as Real>::gen_pred(size, k, &PredictModel::Sparse).is_ok()));
        let mut f = feat::<P>(&mut c.rng, small);
        any(c, || f.as_slice().touch());
        any(c, || { let s = f.as_mut(); if let Some(x) = s.last_mut() { *x = a; } });
        any(c, || f.to_vec().touch());
        if c.rng.chance(1, 2) { any(c, || f.release_vec().is_ok()); } else { any(c, || f.release_maps().is_ok()); }
    }
    c.sig(&[5, c.idx]);
    c.count("values abused", 1);
}

fn files<P: Prec>(c: &mut Ctx) {
    let s = Scratch::new();
    let small = c.small;
    let (pi, pl) = (s.path("images"), s.path("labels"));
    // any number of bytes: headers cut short, images cut short, labels outside 0..9
    let n = if small { c.rng.below(3) } else { c.rng.below(6) };
    let cut = if c.rng.chance(1, 2) { c.rng.below(784) } else { 0 };
    let bytes = (16 + n * 784).saturating_sub(cut);
    let img: Vec<u8> = (0..bytes).map(|i| (i * 31) as u8).collect();
    let nl = if c.rng.chance(1, 2) { 8 + n } else { c.rng.below(12) };
    let wild_label = c.rng.chance(1, 4);
    let lab: Vec<u8> = (0..nl).map(|i| if wild_label { (i * 57) as u8 } else { (i % 10) as u8 }).collect();
    File::create(&pi).unwrap().write_all(&img).unwrap();
    File::create(&pl).unwrap().write_all(&lab).unwrap();
    let mut tracker = c.rng.pick(&[0usize, 0, 0, 8, 9, 60007, 60008, usize::MAX]);
    for _ in 0..3 {
        let bs = c.rng.pick(&[0usize, 1, 2, 5]);
        let (mut fi, mut fl) = (File::open(&pi).unwrap(), File::open(&pl).unwrap());
        any(c, || Dataset::<P, P>::minist_as_complex_batch(&mut fi, &mut fl, bs, &mut tracker).points_into_iter().0.map(|x| touch_io(&x)).sum::<usize>());
        any(c, || Dataset::<f32, f32>::minist_as_batch(&mut fi, &mut fl, bs, &mut tracker).get_n_points());
    }
    let (ns, nb) = (c.rng.pick(&[0usize, 1, 2, 3, 16, 33]), c.rng.below(3));
    let noise = c.rng.pick(&[0.0f32, 0.1, -1.0, f32::NAN, f32::INFINITY]);
    let (mut a, mut b) = (gen_seed(&mut c.rng), c.rng.u128());
    if let Some((d, e)) = any(c, || Dataset::<Cf32, Cf32>::signal_reconstruction(ns, nb, noise, &mut a, &mut b)) {
        any(c, || d.to_csv(s.path("d.csv")).is_ok());
        let k = index(&mut c.rng, nb);
        any(c, || e.get_point(k).0.as_slice().touch());
        any(c, || { let (x, y) = e.points_into_iter(); x.zip(y).map(|(x, y)| touch_io(&x) + touch_io(&y)).sum::<usize>() });
    }
    let m = mat::<P>(&mut c.rng, small);
    any(c, || m.to_csv(s.path("m.csv")).is_ok());
    any(c, || m.to_csv(s.path("missing/m.csv")).is_ok());
    let mut d = Dataset::new();
    for _ in 0..c.rng.below(3) { d.add_point((feat::<P>(&mut c.rng, small), feat::<P>(&mut c.rng, small))); }
    any(c, || d.to_csv(s.path("e.csv")).is_ok());
    c.sig(&[6, bytes as u64, nl as u64]);
    c.count("files abused", 1);
}

fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { numeric::<Cf32>(c) } else { numeric::<Cf64>(c) } }
fn f3(c: &mut Ctx) { if c.idx % 2 == 0 { layers::<Cf32>(c) } else { layers::<Cf64>(c) } }
fn f4(c: &mut Ctx) { if c.idx % 2 == 0 { networks::<Cf32>(c) } else { networks::<Cf64>(c) } }
fn f5(c: &mut Ctx) { if c.idx % 2 == 0 { values::<Cf32>(c) } else { values::<Cf64>(c) } }
fn f6(c: &mut Ctx) { if c.idx % 2 == 0 { files::<Cf32>(c) } else { files::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "owned", quick: 60_000, thorough: 1_000_000, f: owned },
    Stage { name: "numeric", quick: 60_000, thorough: 1_000_000, f: f2 },
    Stage { name: "layers", quick: 60_000, thorough: 1_000_000, f: f3 },
    Stage { name: "networks", quick: 40_000, thorough: 600_000, f: f4 },
    Stage { name: "values", quick: 40_000, thorough: 600_000, f: f5 },
    Stage { name: "files", quick: 3_000, thorough: 30_000, f: f6 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C29",
        rule: "distinct (kind of object, shapes or case)",
        assumptions: &["sizes up to 7 per axis, indices up to the largest integer", "allocations the machine can serve"],
        stages: STAGES,
        must_observe: &["calls that returned", "calls that panicked", "edit histories of owned values", "numeric matrices abused", "layers abused", "networks abused", "values abused", "files abused", "gradients computed from arbitrary arguments", "networks trained on arbitrary data"],
    });
}
