//! C26: CSV exports.
use monitors::driver::{main as run, Outcome, Plan};
use monitors::elem::Elem;
use monitors::num::z;
use monitors::work::{large, large_sizes, num, reg, Scratch};
use monitors::{Ctx, Stage, Z};
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use std::fmt::Display;

trait Cell: Elem + Display { fn parse(s: &str) -> Option<Self>; }
fn two<T: std::str::FromStr>(s: &str) -> Option<(T, T)> {
    let s = s.strip_prefix('[')?.strip_suffix(']')?;
    let mut i = s.split_whitespace();
    let r = (i.next()?.parse().ok()?, i.next()?.parse().ok()?);
    if i.next().is_some() { return None; }
    Some(r)
}
impl Cell for f32 { fn parse(s: &str) -> Option<f32> { s.parse().ok() } }
impl Cell for f64 { fn parse(s: &str) -> Option<f64> { s.parse().ok() } }
impl Cell for Cf32 { fn parse(s: &str) -> Option<Cf32> { two::<f32>(s).map(|(x, y)| Cf32 { x, y }) } }
impl Cell for Cf64 { fn parse(s: &str) -> Option<Cf64> { two::<f64>(s).map(|(x, y)| Cf64 { x, y }) } }

fn part(c: &mut Ctx) -> f64 {
    match c.rng.below(10) {
        0 => c.rng.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1.0 / 3.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, 5e-324, f32::MAX as f64, f32::MIN_POSITIVE as f64, 1e-45]),
        1 => f64::from_bits(c.rng.u64()),
        2 => f32::from_bits(c.rng.u64() as u32) as f64,
        3 => 10f64.powf(c.rng.sf() * 30.0),
        4 => c.rng.below(100_000) as f64 * 1e3,
        _ => { let g = reg(&mut c.rng); num(&mut c.rng, g).re }
    }
}
fn value<E: Cell>(c: &mut Ctx) -> E { let v: Z = z(part(c), part(c)); E::of(v) }
fn same<E: Cell>(a: E, b: E) -> bool {
    let (x, y) = (a.z(), b.z());
    let eq = |p: f64, q: f64, pb: u64, qb: u64| (p.is_nan() && q.is_nan()) || pb == qb;
    eq(x.re, y.re, a.bits().0, b.bits().0) && eq(x.im, y.im, a.bits().1, b.bits().1)
}

/// Reads a file back: rows of cells. A single empty field at the end of a line is a trailing comma.
fn read_back<E: Cell>(c: &mut Ctx, path: &str, what: &str) -> Vec<Vec<E>> {
    let text = match std::fs::read_to_string(path) { Ok(t) => t, Err(e) => { c.fail(format!("{what}: the exported file cannot be read: {e}")) } };
    c.check(text.is_empty() || text.ends_with('\n'), || format!("{what}: last line is not complete"));
    let mut out = Vec::new();
    for (k, line) in text.lines().enumerate() {
        let mut fields: Vec<&str> = line.split(',').map(|f| f.trim()).collect();
        if fields.last() == Some(&"") { fields.pop(); }
        let mut row = Vec::new();
        for f in fields { match E::parse(f) { Some(v) => row.push(v), None => { c.fail(format!("{what}: line {k}: field {f:?} is not a number")); } } }
        out.push(row);
    }
    out
}
fn compare<E: Cell>(c: &mut Ctx, got: &[Vec<E>], want: &[Vec<E>], what: &str) {
    c.check(got.len() == want.len(), || format!("{what}: {} lines for {} rows", got.len(), want.len()));
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        c.check(g.len() == w.len(), || format!("{what}: {} values in line {k}, {} expected", g.len(), w.len()));
        let bad = g.iter().zip(w).position(|(a, b)| !same(*a, *b));
        c.check(bad.is_none(), || { let i = bad.unwrap(); format!("{what}: value {i} of line {k} reads back as {:?}, exported {:?}", g[i].z(), w[i].z()) });
        c.count("values read back", g.len() as u64);
    }
}

fn table<E: Cell>(c: &mut Ctx) -> Vec<Vec<E>> {
    let (r, w) = if c.big { let [r, w] = large_sizes(&mut c.rng, [1200, 1200], 5_000, |s| s[0] * s[1]); (r, w) } else if c.small { (c.rng.range(1, 3), c.rng.range(1, 3)) } else { match c.rng.below(6) { 0 => (1, c.rng.range(1, 40)), 1 => (c.rng.range(1, 40), 1), _ => (c.rng.range(1, 12), c.rng.range(1, 12)) } };
    (0..r).map(|_| (0..w).map(|_| value::<E>(c)).collect()).collect()
}
fn matrix_of<E: Cell>(t: &[Vec<E>]) -> Matrix<E> { Matrix::from_body(t.concat(), [t.len(), t[0].len()]) }
fn dataset<E: Cell>(c: &mut Ctx) -> (Dataset<E, E>, Vec<Vec<E>>) {
    let mut ds = Dataset::new();
    let mut rows = Vec::new();
    let n = if c.big { large(&mut c.rng, 1200) } else if c.small { 2 } else { c.rng.below(12) };
    for _ in 0..n {
        let (a, b) = if c.big && c.rng.chance(1, 20) { (large(&mut c.rng, 1000), large(&mut c.rng, 1000)) } else { (c.rng.below(6), c.rng.below(5)) };
        let (x, t): (Vec<E>, Vec<E>) = ((0..a).map(|_| value(c)).collect(), (0..b).map(|_| value(c)).collect());
        rows.push([x.clone(), t.clone()].concat());
        ds.add_point((IOType::Scalar(x), IOType::Scalar(t)));
    }
    (ds, rows)
}
/// Something already there, longer or shorter than what will be written.
fn previous(c: &mut Ctx, path: &str) {
    match c.rng.below(3) {
        0 => {}
        1 => { std::fs::write(path, "9,9,9\n".repeat(c.rng.range(1, 400))).unwrap(); c.count("existing files replaced", 1); }
        _ => { std::fs::write(path, "x").unwrap(); c.count("existing files replaced", 1); }
    }
}

fn export<E: Cell>(c: &mut Ctx) {
    let dir = Scratch::new();
    let path = dir.path(c.rng.pick(&["out.csv", "a b.csv", "data", "über.csv"]));
    previous(c, &path);
    let (rows, what) = if c.rng.chance(1, 2) {
        let t = table::<E>(c);
        let m = matrix_of(&t);
        c.ok("Matrix::to_csv", || m.to_csv(path.clone()));
        c.count("matrices exported", 1);
        (t, format!("{} matrix", E::NAME))
    } else {
        let (ds, rows) = dataset::<E>(c);
        c.ok("Dataset::to_csv", || ds.to_csv(path.clone()));
        c.count("datasets exported", 1);
        (rows, format!("{} dataset", E::NAME))
    };
    let got = read_back::<E>(c, &path, &what);
    compare(c, &got, &rows, &what);
    // a second export replaces the first
    if c.rng.chance(1, 3) {
        let t = table::<E>(c);
        c.ok("Matrix::to_csv", || matrix_of(&t).to_csv(path.clone()));
        let got = read_back::<E>(c, &path, "second export");
        compare(c, &got, &t, "second export");
        c.count("second exports", 1);
    }
    // nothing else was written
    let others = std::fs::read_dir(&dir.0).unwrap().count();
    c.check(others == 1, || format!("{what}: {others} files after exporting one"));
    c.sig(&[E::ID, rows.len() as u64, rows.iter().map(|r| r.len()).max().unwrap_or(0) as u64, c.idx as u64 % 64]);
    c.sample(|| format!("{what} with {} lines", rows.len()));
}

/// Files that cannot be written.
fn unwritable<E: Cell>(c: &mut Ctx) {
    let dir = Scratch::new();
    let kind = c.rng.below(4);
    let big = kind == 3;
    let n = if big { 60_000 } else { c.rng.range(1, 20) };
    let (path, name) = match kind {
        0 => (dir.path("missing/out.csv"), "missing directory"),
        1 => { std::fs::create_dir(dir.path("sub")).unwrap(); (dir.path("sub"), "path of a directory") }
        2 => {
            use std::os::unix::fs::FileTypeExt;
            if c.small || !std::fs::metadata("/dev/full").map(|m| m.file_type().is_char_device()).unwrap_or(false) { return; }
            // reached through a link in the scratch directory, so that nothing can happen to the device itself
            std::os::unix::fs::symlink("/dev/full", dir.path("full.csv")).unwrap();
            (dir.path("full.csv"), "full device")
        }
        _ => { if c.small { return; } (String::new(), "pipe whose reader goes away") }
    };
    let row: Vec<E> = (0..n).map(|_| E::of(z(1.5, -0.25))).collect();
    let as_matrix = c.rng.chance(1, 2);
    let go = |path: String| -> Result<(), String> {
        if as_matrix { matrix_of(&[row.clone()]).to_csv(path).map_err(|e| e.to_string()) }
        else { let mut ds = Dataset::new(); ds.add_point((IOType::Scalar(row.clone()), IOType::Scalar(vec![row[0]]))); ds.to_csv(path).map_err(|e| e.to_string()) }
    };
    let out = if big {
        use std::io::Read;
        use std::os::fd::AsRawFd;
        let (mut r, w) = std::io::pipe().expect("pipe");
        let path = format!("/proc/self/fd/{}", w.as_raw_fd());
        let h = std::thread::spawn(move || { let mut b = [0u8; 16]; let _ = r.read(&mut b); });
        let o = c.attempt(|| go(path));
        drop(w);
        h.join().unwrap();
        o
    } else { c.attempt(|| go(path.clone())) };
    match out {
        Outcome::Ret(Err(_)) => {}
        Outcome::Panic(p) => c.fail(format!("{} export to a {name} panics: {p:?}", E::NAME)),
        Outcome::Ret(Ok(())) => {
            // replacing the link by a file of its own would be a success
            let fine = kind == 2 && std::fs::symlink_metadata(&path).map(|m| m.is_file()).unwrap_or(false);
            c.check(fine, || format!("{} export of {n} values to a {name} reports success", E::NAME));
        }
    }
    c.count(name, 1);
    c.sig(&[E::ID, kind as u64, as_matrix as u64, n as u64]);
}

fn f1(c: &mut Ctx) { match c.idx % 4 { 0 => export::<f32>(c), 1 => export::<f64>(c), 2 => export::<Cf32>(c), _ => export::<Cf64>(c) } }
fn f2(c: &mut Ctx) { match c.idx % 4 { 0 => unwritable::<f32>(c), 1 => unwritable::<f64>(c), 2 => unwritable::<Cf32>(c), _ => unwritable::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "export", quick: 60_000, thorough: 300_000, f: f1 },
    Stage { name: "large-export", quick: 1_500, thorough: 10_000, f: f1 },
    Stage { name: "unwritable", quick: 5_000, thorough: 25_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C26",
        rule: "distinct (element type, lines, values per line, value mix) and distinct unwritable targets",
        assumptions: &["values are separated by commas, with or without one at the end of the line", "a complex value is printed as its two parts in brackets", "matrices have at least one row and column"],
        stages: STAGES,
        must_observe: &["values read back", "matrices exported", "datasets exported", "existing files replaced", "second exports", "missing directory", "path of a directory", "pipe whose reader goes away"],
    });
}
