//! C24: reading image batches.
use monitors::driver::{main as run, Plan};
use monitors::elem::Elem;
use monitors::work::{large, Scratch};
use monitors::{Ctx, Stage};
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::OwnedFd;
use std::os::unix::net::UnixStream;

const SIZE: usize = 784;

trait Reader: Elem { const COMPLEX: bool; fn batch(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<Self, Self>; }
impl Reader for f32 { const COMPLEX: bool = false; fn batch(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<f32, f32> { Dataset::<f32, f32>::minist_as_batch(d, l, n, t) } }
impl Reader for f64 { const COMPLEX: bool = false; fn batch(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<f64, f64> { Dataset::<f64, f64>::minist_as_batch(d, l, n, t) } }
impl Reader for Cf32 { const COMPLEX: bool = true; fn batch(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<Cf32, Cf32> { Dataset::<Cf32, Cf32>::minist_as_complex_batch(d, l, n, t) } }
impl Reader for Cf64 { const COMPLEX: bool = true; fn batch(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<Cf64, Cf64> { Dataset::<Cf64, Cf64>::minist_as_complex_batch(d, l, n, t) } }

struct Stored { images: Vec<u8>, labels: Vec<u8> }
/// Files with complete headers; possibly fewer images than labels, more, or an incomplete last image.
fn stored(c: &mut Ctx, n: usize) -> (Stored, Vec<u8>, Vec<u8>) {
    let mut data = vec![0, 0, 8, 3, 0, 0, 0, n as u8, 0, 0, 0, 28, 0, 0, 0, 28];
    let mut lab = vec![0, 0, 8, 1, 0, 0, 0, n as u8];
    if c.rng.chance(1, 2) { for b in data.iter_mut().chain(lab.iter_mut()) { *b = c.rng.below(256) as u8; } }
    let mut images = vec![0u8; n * SIZE];
    for (i, b) in images.iter_mut().enumerate() { *b = match c.rng.below(8) { 0 => 0, 1 => 255, _ => c.rng.below(256) as u8 }; if i % SIZE == 0 { *b = (i / SIZE) as u8; } }
    let labels: Vec<u8> = (0..n).map(|_| c.rng.below(10) as u8).collect();
    data.extend(&images);
    lab.extend(&labels);
    let (ni, nl) = match c.rng.below(6) {
        0 if n > 0 => { let cut = c.rng.range(1, SIZE.min(data.len() - 16)); data.truncate(data.len() - cut); c.count("files with an incomplete last image", 1); (n - 1, n) }
        1 if n > 0 => { let k = c.rng.below(n); lab.truncate(8 + k); c.count("files with fewer labels than images", 1); (n, k) }
        2 if n > 0 => { let k = c.rng.below(n); data.truncate(16 + k * SIZE); c.count("files with fewer images than labels", 1); (k, n) }
        _ => (n, n),
    };
    let m = ni.min(nl);
    (Stored { images: images[..m * SIZE].to_vec(), labels: labels[..m].to_vec() }, data, lab)
}

/// Reads batches until past the end and compares point by point.
fn drain<T: Reader>(c: &mut Ctx, s: &Stored, d: &mut File, l: &mut File, sizes: &[usize], past: usize, how: &str) {
    let mut tracker = 0;
    let mut at = 0;
    let n = s.labels.len();
    let mut empty = 0;
    let mut i = 0;
    while empty < past {
        let b = if i < sizes.len() { sizes[i] } else { sizes[sizes.len() - 1].max(1) };
        i += 1;
        let ds = c.call("reading a batch", || T::batch(d, l, b, &mut tracker));
        let want = b.min(n - at);
        c.check(ds.get_n_points() == want, || format!("{} {how}: batch {i} of size {b} at image {at} of {n} has {} points", T::NAME, ds.get_n_points()));
        for k in 0..want {
            let (x, t) = ds.get_point(k);
            let m = match x { IOType::Matrix(m) if m.len() == 1 => &m[0], _ => { c.fail(format!("{} {how}: image {} is not one map", T::NAME, at + k)) } };
            c.check(*m.get_shape() == [28, 28] && m.get_body().len() == SIZE, || format!("{} {how}: image {} has shape {:?}", T::NAME, at + k, m.get_shape()));
            let src = &s.images[(at + k) * SIZE..(at + k + 1) * SIZE];
            let bad = m.get_body().iter().zip(src).position(|(a, b)| { let v = Elem::z(*a); (v.re - *b as f64 / 255.0).abs() > 2.0 * T::EPS || v.im != 0.0 });
            c.check(bad.is_none(), || { let p = bad.unwrap(); format!("{} {how}: image {} of {n}: pixel {p} is {:?}, stored {}/255", T::NAME, at + k, Elem::z(m.get_body()[p]), src[p]) });
            let t = match t { IOType::Scalar(v) => v, _ => { c.fail(format!("{} {how}: target {} is not a vector", T::NAME, at + k)) } };
            let lab = s.labels[at + k] as usize;
            c.check(t.len() == 10 && t.iter().enumerate().all(|(i, v)| { let v = Elem::z(*v); v.re == (i == lab) as u8 as f64 && v.im == 0.0 }), || format!("{} {how}: target of image {} is {:?}, its label is {lab}", T::NAME, at + k, t.iter().map(|v| Elem::z(*v)).collect::<Vec<_>>()));
            c.count("images compared", 1);
        }
        at += want;
        if want < b { c.count("short batches", 1); }
        if want == 0 && b > 0 { empty += 1; c.count("empty batches", 1); }
    }
    c.check(at == n, || format!("{} {how}: {at} of {n} images delivered", T::NAME));
    c.count(if T::COMPLEX { "files read as complex" } else { "files read as real" }, 1);
}

fn sizes(c: &mut Ctx, n: usize) -> Vec<usize> {
    match c.rng.below(4) { 0 => vec![1], 1 => vec![n.max(1)], 2 => vec![c.rng.range(1, n + 3)], _ => (0..8).map(|_| c.rng.below(n / 2 + 3)).collect() }
}

fn files<T: Reader>(c: &mut Ctx) {
    let n = if c.big { large(&mut c.rng, 1500) } else if c.small { 2 } else { c.rng.pick(&[0usize, 1, 2, 3, 7, 20, 40]) };
    let (s, data, lab) = stored(c, n);
    let dir = Scratch::new();
    std::fs::write(dir.path("images"), &data).unwrap();
    std::fs::write(dir.path("labels"), &lab).unwrap();
    let sz = sizes(c, n);
    let (mut d, mut l) = (File::open(dir.path("images")).unwrap(), File::open(dir.path("labels")).unwrap());
    drain::<T>(c, &s, &mut d, &mut l, &sz, 2, "from files");
    c.sig(&[T::ID, n as u64, s.labels.len() as u64, sz[0] as u64, sz.len() as u64]);
    c.sample(|| format!("{} {n} images stored, {} complete pairs, batch sizes {sz:?}", T::NAME, s.labels.len()));
}

/// Feeds the bytes in pieces, pausing so that a reader finds only part of what it asks for.
fn feed(mut s: UnixStream, bytes: Vec<u8>, cuts: Vec<usize>) -> std::thread::JoinHandle<()> {
    std::thread::spawn(move || {
        let mut at = 0;
        for k in cuts { if at >= bytes.len() { break; } let end = (at + k).min(bytes.len()); if s.write_all(&bytes[at..end]).is_err() { return; } at = end; std::thread::sleep(std::time::Duration::from_micros(60)); }
        let _ = s.write_all(&bytes[at..]);
    })
}
fn cuts(c: &mut Ctx, n: usize) -> Vec<usize> { (0..n).map(|_| match c.rng.below(4) { 0 => c.rng.range(1, 20), 1 => 784, _ => c.rng.range(1, 783) }).collect() }

fn streams<T: Reader>(c: &mut Ctx) {
    if c.small { return; }
    let n = c.rng.range(1, 8);
    let (s, data, lab) = stored(c, n);
    let ((d, dw), (l, lw)) = (UnixStream::pair().unwrap(), UnixStream::pair().unwrap());
    let (k1, k2) = (cuts(c, 3 * n + 4), (0..n + 6).map(|_| c.rng.range(1, 3)).collect());
    let sz = sizes(c, n);
    // what any reader of this stream gets to see
    {
        let (mut p, pw) = UnixStream::pair().unwrap();
        let h = feed(pw, data.clone(), k1.clone());
        let mut buf = [0u8; SIZE];
        let mut short = 0;
        loop { match p.read(&mut buf).unwrap() { 0 => break, k if k < SIZE => short += 1, _ => {} } }
        h.join().unwrap();
        c.count("short reads seen by a plain reader", short);
    }
    let (h1, h2) = (feed(dw, data, k1), feed(lw, lab, k2));
    let (mut df, mut lf) = (File::from(OwnedFd::from(d)), File::from(OwnedFd::from(l)));
    drain::<T>(c, &s, &mut df, &mut lf, &sz, 2, "from streams");
    drop((df, lf));
    h1.join().unwrap();
    h2.join().unwrap();
    c.count("streams read", 1);
    c.sig(&[7, T::ID, n as u64, s.labels.len() as u64, sz[0] as u64]);
}

/// A training set of full size.
fn full(c: &mut Ctx) {
    if c.small { return; }
    let n = 60_000;
    let mut images = vec![0u8; n * SIZE];
    for (i, ch) in images.chunks_mut(8).enumerate() { ch.copy_from_slice(&(i as u64).wrapping_mul(0x9E3779B97F4A7C15).to_be_bytes()); }
    let labels: Vec<u8> = (0..n).map(|_| c.rng.below(10) as u8).collect();
    let dir = Scratch::new();
    let (mut d, mut l) = (vec![0u8; 16], vec![0u8; 8]);
    d.extend(&images); l.extend(&labels);
    std::fs::write(dir.path("images"), &d).unwrap();
    std::fs::write(dir.path("labels"), &l).unwrap();
    drop((d, l));
    let s = Stored { images, labels };
    let b = c.rng.range(3_000, 9_000);
    let (mut d, mut l) = (File::open(dir.path("images")).unwrap(), File::open(dir.path("labels")).unwrap());
    if c.idx % 2 == 0 { drain::<Cf32>(c, &s, &mut d, &mut l, &[b], 1, "from full-size files"); } else { drain::<f32>(c, &s, &mut d, &mut l, &[b], 1, "from full-size files"); }
    c.count("full-size files", 1);
    c.sig(&[9, c.idx as u64, b as u64]);
}

fn f1(c: &mut Ctx) { match c.idx % 4 { 0 => files::<f32>(c), 1 => files::<f64>(c), 2 => files::<Cf32>(c), _ => files::<Cf64>(c) } }
fn f2(c: &mut Ctx) { match c.idx % 4 { 0 => streams::<f32>(c), 1 => streams::<f64>(c), 2 => streams::<Cf32>(c), _ => streams::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "files", quick: 7_500, thorough: 40_000, f: f1 },
    Stage { name: "large-files", quick: 600, thorough: 4_000, f: f1 },
    Stage { name: "streams", quick: 4_000, thorough: 20_000, f: f2 },
    Stage { name: "full", quick: 2, thorough: 8, f: full },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C24",
        rule: "distinct (element type, images stored, complete pairs, batch sizes)",
        assumptions: &["headers are complete, images are 28x28, labels are 0 to 9, at most 60000 images"],
        stages: STAGES,
        must_observe: &["images compared", "short batches", "empty batches", "files with an incomplete last image", "files with fewer labels than images", "files with fewer images than labels", "files read as real", "files read as complex", "streams read", "short reads seen by a plain reader", "full-size files"],
    });
}
