//! C23: datasets and one-hot targets.
use monitors::driver::{main as run, Outcome, Plan};
use monitors::elem::Elem;
use monitors::work::*;
use monitors::{Ctx, Stage};
use renplex::dataset::Dataset;
use renplex::init::PredictModel;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::math::{Complex, Real};

/// A point as plain data: kind, then for each matrix its shape and entries.
#[derive(Clone, Debug, PartialEq)]
struct Plain { kind: u8, parts: Vec<([usize; 2], Vec<(u64, u64)>)> }

fn make<E: Elem>(c: &mut Ctx) -> (IOType<E>, Plain) {
    let g = reg(&mut c.rng);
    if c.rng.chance(1, 2) {
        let n = if c.rng.chance(1, 60) { large(&mut c.rng, if c.small { 8 } else { 500 }) } else { c.rng.below(7) };
        let v = E::gen(&mut c.rng, g, n);
        let p = Plain { kind: 0, parts: vec![([n, 1], v.iter().map(|x| x.bits()).collect())] };
        (IOType::Scalar(v), p)
    } else {
        let k = if c.rng.chance(1, 60) { c.rng.below(if c.small { 5 } else { 40 }) } else { c.rng.below(4) };
        let mut ms = Vec::new();
        let mut parts = Vec::new();
        for _ in 0..k {
            let (r, w) = if c.rng.chance(1, 60) && !c.small { (large(&mut c.rng, 40), large(&mut c.rng, 40)) } else { (c.rng.range(1, 4), c.rng.range(1, 4)) };
            let v = E::gen(&mut c.rng, g, r * w);
            parts.push(([r, w], v.iter().map(|x| x.bits()).collect()));
            ms.push(Matrix::from_body(v, [r, w]));
        }
        (IOType::Matrix(ms), Plain { kind: 1, parts })
    }
}
fn read<E: Elem>(x: &IOType<E>) -> Plain {
    match x {
        IOType::Scalar(v) => Plain { kind: 0, parts: vec![([v.len(), 1], v.iter().map(|x| x.bits()).collect())] },
        IOType::Matrix(m) => Plain { kind: 1, parts: m.iter().map(|t| ([t.get_shape()[0], t.get_shape()[1]], t.get_body().iter().map(|x| x.bits()).collect())).collect() },
    }
}

fn container<B: Elem, T: Elem>(c: &mut Ctx) where B: std::fmt::Debug, T: std::fmt::Debug {
    let mut ds: Dataset<B, T> = Dataset::new();
    let mut list: Vec<(Plain, Plain)> = Vec::new();
    let n = if c.big { large(&mut c.rng, 4000) } else if c.small { 6 } else { c.rng.pick(&[0usize, 1, 2, 3, 10, 40, 200]) };
    let who = format!("Dataset<{},{}>", B::NAME, T::NAME);
    c.sample(|| format!("{who}: {n} points added and read back"));
    for step in 0..n {
        let ((x, px), (t, pt)) = (make::<B>(c), make::<T>(c));
        c.call("add_point", || ds.add_point((x, t)));
        list.push((px, pt));
        c.check(ds.get_n_points() == list.len(), || format!("{who}: {} points after adding {}", ds.get_n_points(), list.len()));
        if c.rng.chance(1, 4) || step + 1 == n {
            let i = c.rng.below(list.len());
            let (x, t) = c.call("get_point", || ds.get_point(i));
            c.check(read(x) == list[i].0 && read(t) == list[i].1, || format!("{who}: point {i} of {} is {:?} {:?}, added {:?}", list.len(), read(x), read(t), list[i]));
            c.count("points read by index", 1);
        }
    }
    c.check(ds.get_n_points() == n, || format!("{who}: {} points after adding {n}", ds.get_n_points()));
    // out of range is never a point
    match c.attempt(|| { ds.get_point(n); }) { Outcome::Panic(_) => c.count("index past the end refused", 1), Outcome::Ret(_) => c.fail(format!("{who}: point {n} of {n} returned")) }
    let borrowed = |c: &mut Ctx, ds: &Dataset<B, T>| {
        let (a, b) = ds.points_as_iter();
        let got: Vec<(Plain, Plain)> = { let xs: Vec<Plain> = a.map(read).collect(); let ts: Vec<Plain> = b.map(read).collect(); c.check(xs.len() == n && ts.len() == n, || format!("{who}: iterators over {} inputs and {} targets of {n}", xs.len(), ts.len())); xs.into_iter().zip(ts).collect() };
        c.check(got == list, || format!("{who}: borrowed iteration gives {got:?}, added {list:?}"));
    };
    borrowed(c, &ds);
    let copy = ds.clone();
    borrowed(c, &copy);
    // iterating does not consume
    borrowed(c, &ds);
    let (a, b) = c.call("points_into_iter", || ds.points_into_iter());
    let (xs, ts): (Vec<IOType<B>>, Vec<IOType<T>>) = (a.collect(), b.collect());
    c.check(xs.len() == n && ts.len() == n, || format!("{who}: consuming iterators over {} inputs and {} targets of {n}", xs.len(), ts.len()));
    let got: Vec<(Plain, Plain)> = xs.iter().map(read).zip(ts.iter().map(read)).collect();
    c.check(got == list, || format!("{who}: consuming iteration gives {got:?}, added {list:?}"));
    c.count("datasets iterated", 1);
    // a copy is independent of the original
    let mut copy = copy;
    let (x, t) = (make::<B>(c).0, make::<T>(c).0);
    copy.add_point((x, t));
    c.check(copy.get_n_points() == n + 1, || format!("{who}: copy has {} points", copy.get_n_points()));
    c.sig(&[B::ID, T::ID, n as u64, list.iter().map(|p| p.0.kind as u64 * 2 + p.1.kind as u64).fold(7, |h, x| h.wrapping_mul(31).wrapping_add(x))]);
}

/// Accessors of single inputs.
fn access<E: Elem + std::fmt::Debug>(c: &mut Ctx) {
    let (mut x, p) = make::<E>(c);
    let who = E::NAME;
    if p.kind == 0 {
        let v = p.parts[0].1.clone();
        let b = |s: &[E]| s.iter().map(|x| x.bits()).collect::<Vec<_>>();
        let (s, m) = (b(x.as_slice()), b(x.as_mut()));
        c.check(s == v && m == v, || format!("{who}: as_slice {s:?}, as_mut {m:?}, stored {v:?}"));
        let t = b(&c.call("to_vec", || x.clone().to_vec()));
        let r = c.ok("release_vec", || x.clone().release_vec());
        c.check(t == v && b(&r) == v, || format!("{who}: to_vec {t:?}, release_vec {:?}, stored {v:?}", b(&r)));
        c.refused("release_maps of a vector", || x.release_maps());
        c.count("vectors accessed", 1);
    } else {
        let m = c.ok("release_maps", || x.clone().release_maps());
        c.check(read(&IOType::Matrix(m)) == p, || format!("{who}: release_maps differs from the stored maps"));
        c.refused("release_vec of maps", || x.release_vec());
        c.count("maps accessed", 1);
    }
    c.sig(&[E::ID, p.kind as u64, p.parts.len() as u64]);
}

fn one_hot(c: &mut Ctx) {
    let n = match c.rng.below(4) { 0 => c.rng.below(4), 1 => c.rng.range(1, 12), 2 => 10, _ => c.rng.range(1, 300) };
    let k = match c.rng.below(6) { 0 => n, 1 => n + 1, 2 => n + c.rng.below(1000), 3 => c.rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, 255, 10]), _ => c.rng.below(n.max(1)) };
    let p = PredictModel::Sparse;
    let kind = c.rng.below(4);
    let got = c.call(&format!("gen_pred({n}, {k})"), || match kind {
        0 => <f32 as Real>::gen_pred(n, k, &p).ok().map(|v| v.iter().map(|x| (*x as f64, 0.0)).collect::<Vec<_>>()),
        1 => <f64 as Real>::gen_pred(n, k, &p).ok().map(|v| v.iter().map(|x| (*x, 0.0)).collect()),
        2 => <Cf32 as Complex>::gen_pred(n, k, &p).ok().map(|v| v.iter().map(|z| (z.x as f64, z.y as f64)).collect()),
        _ => <Cf64 as Complex>::gen_pred(n, k, &p).ok().map(|v| v.iter().map(|z| (z.x, z.y)).collect()),
    });
    let name = ["f32", "f64", "Cf32", "Cf64"][kind];
    if k < n {
        match got {
            None => c.fail(format!("{name}: one-hot target of size {n} for class {k} refused")),
            Some(v) => { c.check(v.len() == n && v.iter().enumerate().all(|(i, x)| *x == (if i == k { 1.0 } else { 0.0 }, 0.0)), || format!("{name}: one-hot target of size {n} for class {k} is {v:?}")); }
        }
        c.count("one-hot targets", 1);
        if k + 1 == n { c.count("last class", 1); }
    } else {
        c.check(got.is_none(), || format!("{name}: one-hot target of size {n} for class {k} accepted"));
        c.count("classes refused", 1);
        if k == n { c.count("class equal to the size", 1); }
    }
    c.sig(&[kind as u64, n as u64, k as u64]);
}

fn f1(c: &mut Ctx) {
    match c.idx % 6 { 0 => container::<Cf32, Cf32>(c), 1 => container::<Cf64, Cf64>(c), 2 => container::<f32, f32>(c), 3 => container::<f64, f64>(c), 4 => container::<f32, Cf64>(c), _ => container::<Cf32, f64>(c) }
}
fn f2(c: &mut Ctx) { match c.idx % 4 { 0 => access::<f32>(c), 1 => access::<f64>(c), 2 => access::<Cf32>(c), _ => access::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "container", quick: 60_000, thorough: 400_000, f: f1 },
    Stage { name: "large-container", quick: 1_500, thorough: 10_000, f: f1 },
    Stage { name: "access", quick: 40_000, thorough: 200_000, f: f2 },
    Stage { name: "one-hot", quick: 500_000, thorough: 2_500_000, f: one_hot },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C23",
        rule: "distinct (element types, number and kinds of points) and distinct (element type, size, class)",
        assumptions: &[],
        stages: STAGES,
        must_observe: &["points read by index", "datasets iterated", "vectors accessed", "maps accessed", "one-hot targets", "last class", "classes refused", "class equal to the size", "index past the end refused"],
    });
}
