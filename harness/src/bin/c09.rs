//! C09: convolution, padding, flipping.
use monitors::driver::{main as run, Plan};
use monitors::elem::Elem;
use monitors::num::Z;
use monitors::refm::Tab;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;

fn tabz<E: Elem>(v: &[E], r: usize, c: usize) -> Tab { Tab { r, c, v: v.iter().map(|x| x.z()).collect() } }

fn conv<E: Elem>(c: &mut Ctx) {
    let (r, w) = (size(c, 28, 130), size(c, 28, 130));
    let g = reg(&mut c.rng);
    let (kr, kw) = match c.rng.below(8) { 0 => (r, w), 1 => (1, w), 2 => (r, 1), 3 => (1, 1), _ if c.big => { let [a, b] = large_sizes(&mut c.rng, [r, w], 400, |s| s[0] * s[1]); (a, b) } _ => (c.rng.range(1, r.min(7)), c.rng.range(1, w.min(7))) };
    let a: Vec<E> = E::gen(&mut c.rng, g, r * w);
    let k: Vec<E> = E::gen(&mut c.rng, g, kr * kw);
    let (m, km) = (Matrix::from_body(a.clone(), [r, w]), Matrix::from_body(k.clone(), [kr, kw]));
    let got = c.ok("convolution", || m.convolution(&km));
    let (ta, tk) = (tabz(&a, r, w), tabz(&k, kr, kw));
    let want = ta.xcorr(&tk);
    let mag = ta.abs().xcorr(&tk.abs());
    c.check(got.get_shape() == [r - kr + 1, w - kw + 1], || format!("{}: {r}x{w} with kernel {kr}x{kw} has shape {:?}", E::NAME, got.get_shape()));
    c.check(got.get_body().len() == want.v.len(), || "number of entries".into());
    for i in 0..want.v.len() {
        let tol = if g == Reg::Int { 0.0 } else { 4.0 * E::EPS * (kr * kw + 3) as f64 * mag.v[i].re };
        c.within("convolution", got.get_body()[i].z().dist(want.v[i]), tol, || format!("{}: {r}x{w} with kernel {kr}x{kw}, entry {i} = {:?}, expected {:?}", E::NAME, got.get_body()[i].z(), want.v[i]));
    }
    if g == Reg::Int { c.count("exact convolutions", 1); }
    if kr != kw { c.count("kernels that are not square", 1); }
    c.count("convolutions", 1);

    // a kernel that does not fit on one axis or both
    let (br, bw) = match c.rng.below(3) { 0 => (r + c.rng.range(1, 2), kw), 1 => (kr, w + c.rng.range(1, 2)), _ => (r + 1, w + 1) };
    let big = Matrix::from_body(E::gen(&mut c.rng, g, br * bw), [br, bw]);
    c.err(&format!("{} convolution of {r}x{w} with a {br}x{bw} kernel", E::NAME), || m.convolution(&big));
    c.count("oversized kernels refused", 1);
    c.sig(&[E::ID, r as u64, w as u64, kr as u64, kw as u64]);
    c.sample(|| format!("{} convolution {r}x{w} * {kr}x{kw}, {g:?}", E::NAME));
}

/// The variant that conjugates the kernel.
fn cconv<P: Prec>(c: &mut Ctx) {
    let (r, w) = (size(c, 14, 90), size(c, 14, 90));
    let g = reg(&mut c.rng);
    let (kr, kw) = match c.rng.below(6) { 0 => (r, w), 1 => (1, w), 2 => (r, 1), _ if c.big => { let [a, b] = large_sizes(&mut c.rng, [r, w], 300, |s| s[0] * s[1]); (a, b) } _ => (c.rng.range(1, r.min(6)), c.rng.range(1, w.min(6))) };
    let (a, k) = (tab::<P>(&mut c.rng, g, r, w), tab::<P>(&mut c.rng, g, kr, kw));
    let (m, km) = (lib_mat::<P>(&a), lib_mat::<P>(&k));
    let got = c.ok("cconvolution", || m.cconvolution(&km));
    let want = a.xcorr(&Tab { r: kr, c: kw, v: k.v.iter().map(|v| v.conj()).collect() });
    let mag = a.abs().xcorr(&k.abs());
    c.check(got.get_shape() == [r - kr + 1, w - kw + 1] && got.get_body().len() == want.v.len(), || format!("{}: conjugating convolution of {r}x{w} with kernel {kr}x{kw} has shape {:?} and {} entries", P::NAME, got.get_shape(), got.get_body().len()));
    for i in 0..want.v.len() {
        let tol = if g == Reg::Int { 0.0 } else { 4.0 * P::EPS * (kr * kw + 3) as f64 * mag.v[i].re + P::TINY };
        let v = Prec::z(got.get_body()[i]);
        c.within("conjugating convolution", v.dist(want.v[i]), tol, || format!("{}: conjugating convolution of {r}x{w} with kernel {kr}x{kw}, entry {i} = {v:?}, expected {:?}", P::NAME, want.v[i]));
    }
    c.count("conjugating convolutions", 1);
    c.sig(&[70, P::IS32 as u64, r as u64, w as u64, kr as u64, kw as u64]);
}

fn padflip<E: Elem>(c: &mut Ctx) {
    let (r, w) = (size(c, 30, 130), size(c, 30, 130));
    let g = reg(&mut c.rng);
    let a: Vec<E> = E::gen(&mut c.rng, g, r * w);
    let (pr, pw) = if c.big { (c.rng.below(70), c.rng.below(70)) } else { (c.rng.below(6), c.rng.below(6)) };
    let p = c.call("pad", || Matrix::from_body(a.clone(), [r, w]).pad((pr, pw)));
    c.check(p.get_shape() == [r + 2 * pr, w + 2 * pw], || format!("{}: {r}x{w} padded by ({pr},{pw}) has shape {:?}", E::NAME, p.get_shape()));
    let pww = w + 2 * pw;
    c.check(p.get_body().len() == (r + 2 * pr) * pww, || "number of entries after padding".into());
    for i in 0..r + 2 * pr { for j in 0..pww {
        let v = p.get_body()[i * pww + j];
        let inside = i >= pr && i < pr + r && j >= pw && j < pw + w;
        if inside {
            let o = a[(i - pr) * w + j - pw];
            c.check(v.bits() == o.bits(), || format!("{}: entry ({i},{j}) after padding {r}x{w} by ({pr},{pw}) is {:?}, was {:?}", E::NAME, v.z(), o.z()));
        } else {
            c.check(v.z() == Z::ZERO, || format!("{}: padding entry ({i},{j}) of {r}x{w} padded by ({pr},{pw}) is {:?}", E::NAME, v.z()));
        }
    } }
    c.count("paddings", 1);
    let m = Matrix::from_body(a.clone(), [r, w]);
    let f = c.ok("flip", || m.flip());
    c.check(f.get_shape() == [r, w], || format!("{}: flipped {r}x{w} has shape {:?}", E::NAME, f.get_shape()));
    for i in 0..r { for j in 0..w {
        let ok = f.get_body()[i * w + j].bits() == a[(r - 1 - i) * w + w - 1 - j].bits();
        c.check(ok, || format!("{}: entry ({i},{j}) of flipped {r}x{w}", E::NAME));
    } }
    let b = c.ok("flip", || f.flip());
    c.check(b.get_body().iter().zip(&a).all(|(x, y)| x.bits() == y.bits()), || "flipping twice".into());
    c.count("flips", 1);
    c.sig(&[50, E::ID, r as u64, w as u64, pr as u64, pw as u64]);
}

fn f1(c: &mut Ctx) { match c.idx % 4 { 0 => conv::<f32>(c), 1 => conv::<f64>(c), 2 => conv::<Cf32>(c), _ => conv::<Cf64>(c) } }
fn f3(c: &mut Ctx) { if c.idx % 2 == 0 { cconv::<Cf32>(c) } else { cconv::<Cf64>(c) } }
fn f2(c: &mut Ctx) { match c.idx % 4 { 0 => padflip::<f32>(c), 1 => padflip::<f64>(c), 2 => padflip::<Cf32>(c), _ => padflip::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "convolution", quick: 200_000, thorough: 1_600_000, f: f1 },
    Stage { name: "pad-flip", quick: 150_000, thorough: 1_200_000, f: f2 },
    Stage { name: "conjugating", quick: 60_000, thorough: 480_000, f: f3 },
    Stage { name: "large-conjugating", quick: 1_500, thorough: 12_000, f: f3 },
    Stage { name: "large-convolution", quick: 3_000, thorough: 24_000, f: f1 },
    Stage { name: "large-pad-flip", quick: 3_000, thorough: 24_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C09",
        rule: "distinct (element type, matrix size, kernel size or pad widths)",
        assumptions: &["sizes from 1 to 130 per axis"],
        stages: STAGES,
        must_observe: &["convolutions", "exact convolutions", "kernels that are not square", "oversized kernels refused", "conjugating convolutions", "paddings", "flips"],
    });
}
