//! C38: copies of matrices, features and datasets.
use monitors::driver::{main as run, Plan};
use monitors::elem::Elem;
use monitors::num::z;
use monitors::work::*;
use monitors::{Ctx, Stage};
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;

/// Everything that can be seen of a matrix.
type Seen = (Vec<(u64, u64)>, Vec<usize>, Vec<usize>);
fn seen<E: Elem>(m: &Matrix<E>) -> Seen { (m.get_body().iter().map(|x| x.bits()).collect(), m.get_shape().to_vec(), m.get_capacity().to_vec()) }

fn part(c: &mut Ctx) -> f64 { if c.rng.chance(1, 12) { c.rng.pick(&[0.0, -0.0, f64::INFINITY, f64::MAX, 5e-324, 1.0]) } else { let g = reg(&mut c.rng); num(&mut c.rng, g).re } }
fn some<E: Elem>(c: &mut Ctx, n: usize) -> Vec<E> { (0..n).map(|_| E::of(z(part(c), part(c)))).collect() }

/// One edit, drawn once and applied to one or both.
enum Edit<E> { Row(Vec<E>), MutRow(Vec<E>), Col(Vec<E>), Del(usize), Set(usize, usize, E), Whole(E), Scale(E), Add(E), Plus(Matrix<E>), Dealloc }
fn edit<E: Elem>(c: &mut Ctx, m: &Matrix<E>) -> Edit<E> {
    let (h, w) = (m.get_shape()[0], m.get_shape()[1]);
    // the first row decides the width
    let w = if h == 0 && w == 0 { c.rng.below(m.get_capacity()[1].min(40) + 2) } else { w };
    match c.rng.below(10) {
        0 => { let k = if c.rng.chance(1, 6) { w + 1 } else { w }; Edit::Row(some(c, k)) }
        1 => { let k = if c.rng.chance(1, 6) { w + 1 } else { w }; Edit::MutRow(some(c, k)) }
        2 => { let k = if c.rng.chance(1, 6) { h + 1 } else { h }; Edit::Col(some(c, k)) }
        3 => Edit::Del(c.rng.below(h + 1)),
        4 => Edit::Set(c.rng.below(h + 1), c.rng.below(w + 1), some(c, 1)[0]),
        5 => Edit::Whole(some(c, 1)[0]),
        6 => Edit::Scale(E::of(z(c.rng.sf(), c.rng.sf()))),
        7 => Edit::Add(E::of(z(c.rng.sf(), c.rng.sf()))),
        8 if h > 0 => { let b = some(c, h * w); Edit::Plus(Matrix::from_body(b, [h, w])) }
        _ => Edit::Dealloc,
    }
}
fn apply<E: Elem>(c: &mut Ctx, m: &mut Matrix<E>, e: &Edit<E>) -> bool {
    c.call("an edit", || match e {
        Edit::Row(r) => m.add_row(r.clone()).is_ok(),
        Edit::MutRow(r) => m.add_mut_row(&mut r.clone()).is_ok(),
        Edit::Col(r) => m.add_col(&mut r.clone()).is_ok(),
        Edit::Del(i) => m.del_row(*i).is_ok(),
        Edit::Set(i, j, v) => m.elm_mut(*i, *j).map(|x| *x = *v).is_ok(),
        Edit::Whole(v) => { for x in m.get_body_as_mut() { *x = *v; } true }
        Edit::Scale(v) => m.mul_mut_scalar(*v).is_ok(),
        Edit::Add(v) => m.add_mut_scalar(*v).is_ok(),
        Edit::Plus(o) => m.add_mut(o).is_ok(),
        Edit::Dealloc => { m.dealloc(); true }
    })
}

fn matrix<E: Elem>(c: &mut Ctx) {
    let (h, w) = (size(c, 7, 60), size(c, 7, 60));
    let h = if c.rng.chance(1, 6) { 0 } else { h };
    let body = some::<E>(c, h * w);
    if h == 0 { c.count("empty matrices copied", 1); }
    let mut a = if h > 0 && c.rng.chance(1, 3) { Matrix::from_body(body, [h, w]) } else {
        let mut m = Matrix::with_capacity([h + c.rng.below(5), w + c.rng.below(5)]);
        for r in body.chunks(w) { c.ok("add_row", || m.add_row(r.to_vec())); }
        m
    };
    let mut b = c.call("copying a matrix", || a.clone());
    c.check(seen(&a) == seen(&b), || format!("{} matrix {h}x{w}: the copy is {:?}, the original {:?}", E::NAME, b.get_shape(), a.get_shape()));
    let steps = if c.small { 4 } else { c.rng.range(1, 20) };
    for step in 0..steps {
        // one of them is edited, the other must stay
        let first = c.rng.chance(1, 2);
        let e = edit(c, &a);
        let (x, y) = if first { (&mut a, &mut b) } else { (&mut b, &mut a) };
        let before = seen(y);
        let ok = apply(c, x, &e);
        c.check(seen(y) == before, || format!("{} matrix {h}x{w}: an edit of the {} changed the other", E::NAME, if first { "original" } else { "copy" }));
        // and then follows with the same edit
        let ok2 = apply(c, y, &e);
        c.check(ok == ok2 && seen(x) == seen(y), || format!("{} matrix {h}x{w}: edit {step} gives {ok}, {:?} capacity {:?} on one and {ok2}, {:?} capacity {:?} on its copy", E::NAME, x.get_shape(), x.get_capacity(), y.get_shape(), y.get_capacity()));
        c.count(if ok { "edits" } else { "refused edits" }, 1);
        if c.rng.chance(1, 5) { b = c.call("copying a matrix", || a.clone()); c.check(seen(&a) == seen(&b), || format!("{} matrix {h}x{w}: the copy after {step} edits differs", E::NAME)); c.count("copies of edited matrices", 1); }
    }
    c.count("matrices copied", 1);
    c.sig(&[E::ID, h as u64, w as u64, steps as u64, c.idx % 16]);
    c.sample(|| format!("{} matrix {h}x{w} and its copy through {steps} edits", E::NAME));
}

fn feature<E: Elem>(c: &mut Ctx) -> IOType<E> {
    if c.rng.chance(1, 2) { let n = if c.big { large(&mut c.rng, 500) } else { c.rng.below(7) }; IOType::Scalar(some(c, n)) }
    else { let k = c.rng.below(4); IOType::Matrix((0..k).map(|_| { let (h, w) = (size(c, 4, 30), size(c, 4, 30)); let mut m = Matrix::with_capacity([h + c.rng.below(3), w]); for _ in 0..h { let r = some(c, w); m.add_row(r).expect("LIB: add_row"); } m }).collect()) }
}
fn look<E: Elem>(f: &IOType<E>) -> (bool, Vec<Seen>) {
    match f { IOType::Scalar(v) => (false, vec![(v.iter().map(|x| x.bits()).collect(), vec![v.len()], vec![])]), IOType::Matrix(m) => (true, m.iter().map(seen).collect()) }
}
fn touch<E: Elem>(c: &mut Ctx, f: &mut IOType<E>) {
    let v = some::<E>(c, 1)[0];
    match f { IOType::Scalar(_) => { for x in f.as_mut() { *x = v; } } IOType::Matrix(m) => { for t in m.iter_mut() { for x in t.get_body_as_mut() { *x = v; } } m.pop(); } }
}

fn data<E: Elem>(c: &mut Ctx) {
    // features
    let mut a = feature::<E>(c);
    let mut b = c.call("copying features", || a.clone());
    let was = look(&a);
    c.check(look(&b) == was, || format!("{} features: the copy differs", E::NAME));
    if c.rng.chance(1, 2) { touch(c, &mut a); c.check(look(&b) == was, || format!("{} features: editing the original changed the copy", E::NAME)); }
    else { touch(c, &mut b); c.check(look(&a) == was, || format!("{} features: editing the copy changed the original", E::NAME)); }
    c.count("features copied", 1);
    // datasets
    let n = if c.big { large(&mut c.rng, 1200) } else { c.rng.below(8) };
    let mut ds: Dataset<E, E> = Dataset::new();
    let mut list = Vec::new();
    for _ in 0..n { let (x, t) = (feature::<E>(c), feature::<E>(c)); list.push((look(&x), look(&t))); ds.add_point((x, t)); }
    let all = |d: &Dataset<E, E>| -> Vec<_> { (0..d.get_n_points()).map(|i| { let (x, t) = d.get_point(i); (look(x), look(t)) }).collect::<Vec<_>>() };
    let mut copy = c.call("copying a dataset", || ds.clone());
    let got = c.call("reading a copy", || all(&copy));
    c.check(got == list, || format!("{} dataset of {n}: the copy differs", E::NAME));
    let more = (feature::<E>(c), feature::<E>(c));
    match c.rng.below(3) {
        0 => { c.call("add_point", || ds.add_point(more)); let got = c.call("reading", || all(&copy)); c.check(got == list, || format!("{} dataset of {n}: adding to the original changed the copy", E::NAME)); }
        1 => { c.call("add_point", || copy.add_point(more)); let got = c.call("reading", || all(&ds)); c.check(got == list, || format!("{} dataset of {n}: adding to the copy changed the original", E::NAME)); }
        _ => { let (x, t) = c.call("points_into_iter", || copy.points_into_iter()); for (mut x, mut t) in x.zip(t) { touch(c, &mut x); touch(c, &mut t); } let got = c.call("reading", || all(&ds)); c.check(got == list, || format!("{} dataset of {n}: consuming the copy changed the original", E::NAME)); }
    }
    c.count("datasets copied", 1);
    c.sig(&[8, E::ID, n as u64, c.idx % 64]);
}

fn f1(c: &mut Ctx) { match c.idx % 4 { 0 => matrix::<f32>(c), 1 => matrix::<f64>(c), 2 => matrix::<Cf32>(c), _ => matrix::<Cf64>(c) } }
fn f2(c: &mut Ctx) { match c.idx % 4 { 0 => data::<f32>(c), 1 => data::<f64>(c), 2 => data::<Cf32>(c), _ => data::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "matrices", quick: 150_000, thorough: 1_500_000, f: f1 },
    Stage { name: "large-matrices", quick: 2_000, thorough: 20_000, f: f1 },
    Stage { name: "data", quick: 60_000, thorough: 600_000, f: f2 },
    Stage { name: "large-data", quick: 400, thorough: 4_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C38",
        rule: "distinct (element type, shape, number of edits) and distinct datasets copied",
        assumptions: &[],
        stages: STAGES,
        must_observe: &["empty matrices copied", "matrices copied", "edits", "refused edits", "copies of edited matrices", "features copied", "datasets copied"],
    });
}
