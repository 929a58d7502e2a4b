//! C39: image and label files that cannot be read.
use monitors::driver::{main as run, Outcome, Plan};
use monitors::elem::Elem;
use monitors::work::Scratch;
use monitors::{Ctx, Stage};
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use std::fs::{File, OpenOptions};

const SIZE: usize = 784;

trait Reader: Elem { fn batch(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<Self, Self>; }
impl Reader for f32 { fn batch(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<f32, f32> { Dataset::<f32, f32>::minist_as_batch(d, l, n, t) } }
impl Reader for f64 { fn batch(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<f64, f64> { Dataset::<f64, f64>::minist_as_batch(d, l, n, t) } }
impl Reader for Cf32 { fn batch(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<Cf32, Cf32> { Dataset::<Cf32, Cf32>::minist_as_complex_batch(d, l, n, t) } }
impl Reader for Cf64 { fn batch(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<Cf64, Cf64> { Dataset::<Cf64, Cf64>::minist_as_complex_batch(d, l, n, t) } }

const FAULTS: [&str; 7] = ["image file is a directory", "label file is a directory", "image file only open for writing", "label file only open for writing", "image header cut short", "label header cut short", "label that is no class"];

fn faulty<T: Reader>(c: &mut Ctx) {
    if c.small { return; }
    let n = if c.big { c.rng.range(20, 120) } else { c.rng.range(1, 6) };
    let dir = Scratch::new();
    let images: Vec<u8> = (0..n * SIZE).map(|_| c.rng.below(256) as u8).collect();
    let mut labels: Vec<u8> = (0..n).map(|_| c.rng.below(10) as u8).collect();
    let fault = c.rng.below(7);
    let bad = c.rng.below(n);
    if fault == 6 { labels[bad] = match c.rng.below(3) { 0 => 10, 1 => 255, _ => c.rng.range(10, 255) as u8 }; }
    let (mut d, mut l) = (vec![7u8; 16], vec![9u8; 8]);
    d.extend(&images);
    l.extend(&labels);
    if fault == 4 { d.truncate(c.rng.below(16)); }
    if fault == 5 { l.truncate(c.rng.below(8)); }
    std::fs::write(dir.path("i"), &d).unwrap();
    std::fs::write(dir.path("l"), &l).unwrap();
    std::fs::create_dir(dir.path("sub")).unwrap();
    // a broken handle may take the place of a good one after some batches were read
    let late = fault < 4 && n > 1 && c.rng.chance(1, 2);
    let (mut fi, mut fl) = (File::open(dir.path("i")).unwrap(), File::open(dir.path("l")).unwrap());
    let mut t = 0;
    let mut at = 0;
    if late { let k = c.rng.range(1, n - 1); let ds = c.call("reading a batch", || T::batch(&mut fi, &mut fl, k, &mut t)); c.check(ds.get_n_points() == k, || format!("{}: {} of {k} points", T::NAME, ds.get_n_points())); at = k; }
    match fault {
        0 => fi = File::open(dir.path("sub")).unwrap(),
        1 => fl = File::open(dir.path("sub")).unwrap(),
        2 => fi = OpenOptions::new().write(true).open(dir.path("i")).unwrap(),
        3 => fl = OpenOptions::new().write(true).open(dir.path("l")).unwrap(),
        _ => {}
    }
    let b = c.rng.range(1, n + 2);
    // batches up to the fault are good; the one that meets it fails
    let mut failed = false;
    for _ in 0..n + 2 {
        match c.attempt(|| T::batch(&mut fi, &mut fl, b, &mut t)) {
            Outcome::Panic(_) => { failed = true; break; }
            Outcome::Ret(ds) => {
                let k = ds.get_n_points();
                c.check(fault == 6 && at + k <= bad && k > 0, || format!("{} reader: {}: a batch of {k} points at image {at} of {n} was returned", T::NAME, FAULTS[fault]));
                for i in 0..k {
                    let (x, y) = ds.get_point(i);
                    let ok = match (x, y) {
                        (IOType::Matrix(m), IOType::Scalar(y)) => m.len() == 1 && m[0].get_body().iter().zip(&images[(at + i) * SIZE..]).all(|(a, b)| (a.z().re - *b as f64 / 255.0).abs() < 1e-6) && y.iter().position(|v| v.z().re == 1.0) == Some(labels[at + i] as usize),
                        _ => false,
                    };
                    c.check(ok, || format!("{} reader: image {} before the fault was read wrongly", T::NAME, at + i));
                }
                c.count("images before the fault", k as u64);
                at += k;
            }
        }
    }
    c.check(failed, || format!("{} reader: {}: never reported", T::NAME, FAULTS[fault]));
    c.count(FAULTS[fault], 1);
    if late { c.count("faults after good batches", 1); }
    c.sig(&[T::ID, fault as u64, n as u64, b as u64, bad as u64, late as u64]);
    c.sample(|| format!("{} reader, {n} images, batches of {b}: {}", T::NAME, FAULTS[fault]));
}

fn f1(c: &mut Ctx) { match c.idx % 4 { 0 => faulty::<f32>(c), 1 => faulty::<f64>(c), 2 => faulty::<Cf32>(c), _ => faulty::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "faults", quick: 20_000, thorough: 100_000, f: f1 },
    Stage { name: "large-faults", quick: 400, thorough: 2_000, f: f1 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C39",
        rule: "distinct (reader, fault, images stored, batch size, position)",
        assumptions: &["an incomplete last image is the end of the file, not a fault"],
        stages: STAGES,
        must_observe: &["image file is a directory", "label file is a directory", "image file only open for writing", "label file only open for writing", "image header cut short", "label header cut short", "label that is no class", "images before the fault", "faults after good batches"],
    });
}
