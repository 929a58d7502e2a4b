//! C40: who owns the values: containers of counted values.
use monitors::driver::{main as run, Outcome, Plan};
use monitors::work::large;
use monitors::{Ctx, Stage};
use renplex::cvnn::layer::flatten::Flatten;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::matrix::Matrix;
use std::cell::RefCell;

thread_local! { static LOG: RefCell<Vec<(usize, u32)>> = const { RefCell::new(Vec::new()) }; }
/// A value that notes its own end. A copy remembers what it is a copy of.
#[derive(Debug)]
struct Tok { id: usize }
fn enter(of: Option<usize>) -> Tok { LOG.with(|l| { let mut l = l.borrow_mut(); let id = l.len(); let root = of.map_or(id, |i| l[i].0); l.push((root, 0)); Tok { id } }) }
impl Clone for Tok { fn clone(&self) -> Tok { enter(Some(self.id)) } }
impl Drop for Tok { fn drop(&mut self) { LOG.with(|l| l.borrow_mut()[self.id].1 += 1) } }
fn reset() { LOG.with(|l| l.borrow_mut().clear()) }
fn toks(n: usize) -> Vec<Tok> { (0..n).map(|_| enter(None)).collect() }
fn ids<'a>(v: impl IntoIterator<Item = &'a Tok>) -> Vec<usize> { v.into_iter().map(|t| t.id).collect() }
fn origins<'a>(v: impl IntoIterator<Item = &'a Tok>) -> Vec<usize> { LOG.with(|l| { let l = l.borrow(); v.into_iter().map(|t| l[t.id].0).collect() }) }

/// Exactly the values in `held` are alive, and no value has ended twice.
fn settle(c: &mut Ctx, held: &[usize], after: &str) {
    let (mut gone, mut kept, mut twice) = (0, 0, 0);
    LOG.with(|l| {
        let l = l.borrow();
        let mut want = vec![false; l.len()];
        for i in held { want[*i] = true; }
        for (i, r) in l.iter().enumerate() {
            if r.1 > 1 { twice += 1; }
            if want[i] && r.1 > 0 { gone += 1; }
            if !want[i] && r.1 == 0 { kept += 1; }
        }
    });
    c.check(twice == 0, || format!("after {after}: {twice} values were released twice"));
    c.check(gone == 0, || format!("after {after}: {gone} values were released while still held"));
    c.check(kept == 0, || format!("after {after}: {kept} values are held by no one and not released"));
    c.count("owners settled", 1);
}

fn matrix(c: &mut Ctx) {
    reset();
    let (h, w) = if c.big { (large(&mut c.rng, 80), large(&mut c.rng, 40)) } else { (c.rng.below(6), c.rng.range(1, 6)) };
    let mut m: Matrix<Tok> = match c.rng.below(4) {
        0 => c.call("new", Matrix::new),
        1 => { let b = toks(h * w); c.call("from_body", || Matrix::from_body(b, [h, w])) }
        _ => {
            let cap = [h + c.rng.below(5), w + c.rng.below(4)];
            let mut m = c.call("with_capacity", || Matrix::with_capacity(cap));
            for _ in 0..h { let r = toks(w); c.ok("add_row", || m.add_row(r)); }
            m
        }
    };
    let mut model: Vec<Vec<usize>> = m.get_body().chunks(m.get_shape()[1].max(1)).map(ids).collect();
    // values the caller owns
    let mut own: Vec<Tok> = Vec::new();
    let steps = if c.small { 4 } else { c.rng.range(1, 16) };
    for _ in 0..steps {
        let (h, w) = (m.get_shape()[0], m.get_shape()[1]);
        let off = |c: &mut Ctx, n: usize| if c.rng.chance(1, 5) { n + 1 } else { n };
        let what = match c.rng.below(12) {
            0 | 1 => {
                let n = if h == 0 { c.rng.range(1, 5) } else { off(c, w) };
                let r = toks(n); let i = ids(&r);
                if c.call("add_row", || m.add_row(r).is_ok()) { model.push(i); "an added row" } else { c.count("refusals", 1); "a refused row" }
            }
            2 => {
                let n = if h == 0 { c.rng.range(1, 5) } else { off(c, w) };
                let mut r = toks(n); let i = ids(&r);
                let ok = c.call("add_mut_row", || m.add_mut_row(&mut r).is_ok());
                if ok { model.push(i); c.check(r.is_empty(), || "an added row is still in the buffer".into()); "a row moved in" }
                else { c.check(ids(&r) == i, || "a refused row was not left in the buffer".into()); own.append(&mut r); c.count("refusals", 1); "a row not moved in" }
            }
            3 | 4 => {
                let n = off(c, h);
                let mut r = toks(n); let i = ids(&r);
                let ok = c.call("add_col", || m.add_col(&mut r).is_ok());
                if ok { for (row, i) in model.iter_mut().zip(&i) { row.push(*i); } c.check(r.is_empty(), || "an added column is still in the buffer".into()); "an added column" }
                else { c.check(ids(&r) == i, || "a refused column was not left in the buffer".into()); own.append(&mut r); c.count("refusals", 1); "a refused column" }
            }
            5 | 6 => {
                let k = c.rng.below(h + 1);
                match c.call("del_row", || m.del_row(k).ok()) {
                    Some(r) => { c.check(k < h && ids(&r) == model[k], || format!("deleting row {k} of {h} returned other values")); model.remove(k); if c.rng.chance(1, 2) { own.extend(r); } "a deleted row" }
                    None => { c.count("refusals", 1); "a refused deletion" }
                }
            }
            7 => {
                let (i, j) = (c.rng.below(h + 1), c.rng.below(w + 1));
                let t = enter(None); let id = t.id;
                let done = c.call("elm_mut", || match m.elm_mut(i, j) { Ok(x) => { *x = t; true } Err(_) => { drop(t); false } });
                if done { c.check(i < h && j < w, || "an element outside was written".into()); model[i][j] = id; }
                "a written element"
            }
            8 if h > 0 && w > 0 => {
                let (i, j) = (c.rng.below(h), c.rng.below(w));
                let t = enter(None); let id = t.id;
                let way = c.rng.below(3);
                let old = c.call("exchanging a value", || std::mem::replace(match way { 0 => &mut m.row_as_mut(i).expect("LIB: row_as_mut")[j], 1 => &mut m.get_body_as_mut()[i * w + j], _ => &mut m.rows_as_iter_mut().nth(i).expect("LIB: rows_as_iter_mut")[j] }, t));
                c.check(old.id == model[i][j], || format!("element {i} {j} was another value"));
                model[i][j] = id; own.push(old);
                "an exchanged value"
            }
            9 => { c.call("dealloc", || m.dealloc()); "a dealloc" }
            10 => {
                let copy = c.call("copying", || m.clone());
                let (a, b) = (origins(copy.get_body()), origins(m.get_body()));
                c.check(a == b, || "a copy holds other values".into());
                let mut held: Vec<usize> = model.concat(); held.extend(ids(&own)); held.extend(ids(copy.get_body()));
                settle(c, &held, "copying a matrix");
                c.count("copies", 1);
                if c.rng.chance(1, 2) { m = copy; model = m.get_body().chunks(w.max(1)).map(ids).collect(); "a copy that took the place of the original" } else { "a copy that was given up" }
            }
            _ => {
                // reading, within and outside
                let (i, k) = (c.rng.below(h + 2), c.rng.below(h + 2));
                let _ = c.attempt(|| { let _ = m.row(i).map(|r| r.len()); let _ = m.elm(i, k).map(|t| t.id); m.get_slider(i, k).count() });
                "reading"
            }
        };
        let now = ids(m.get_body());
        c.check(now == model.concat(), || format!("after {what}: the matrix holds other values"));
        let mut held = now; held.extend(ids(&own));
        settle(c, &held, what);
        if c.rng.chance(1, 6) { own.clear(); }
    }
    let mut held = ids(&own);
    match c.rng.below(4) {
        0 => { c.call("dropping", || drop(m)); settle(c, &held, "the end of the matrix"); }
        1 => { let b = c.call("export_body", || m.export_body()); c.check(ids(&b) == model.concat(), || "export_body gives other values".into()); held.extend(ids(&b)); settle(c, &held, "export_body"); }
        2 => {
            let mut it = c.call("body_into_iter", || m.body_into_iter());
            let n = c.rng.below(model.concat().len() + 1);
            let part: Vec<Tok> = it.by_ref().take(n).collect();
            c.check(ids(&part) == model.concat()[..n], || "body_into_iter gives other values".into());
            c.call("dropping", || drop(it));
            held.extend(ids(&part));
            settle(c, &held, "a partly used iterator");
        }
        _ => { let b = c.call("body_into_iter", || m.body_into_iter().collect::<Vec<_>>()); held.extend(ids(&b)); c.check(ids(&b) == model.concat(), || "body_into_iter gives other values".into()); settle(c, &held, "body_into_iter"); }
    }
    drop(own);
    settle(c, &[], "the end");
    c.count("matrices", 1);
    c.sig(&[1, h as u64, w as u64, steps as u64, c.idx % 64]);
    c.sample(|| format!("matrix of {h}x{w} counted values through {steps} edits"));
}

fn feature(c: &mut Ctx) -> (IOType<Tok>, Vec<usize>) {
    if c.rng.chance(1, 2) { let n = if c.big { large(&mut c.rng, 300) } else { c.rng.below(7) }; let v = toks(n); let i = ids(&v); (IOType::Scalar(v), i) }
    else {
        let k = if c.big { c.rng.below(20) } else { c.rng.below(4) };
        let (h, w) = (c.rng.range(1, 4), c.rng.range(1, 4));
        let maps: Vec<Matrix<Tok>> = (0..k).map(|_| Matrix::from_body(toks(h * w), [h, w])).collect();
        let i = maps.iter().flat_map(|m| ids(m.get_body())).collect();
        (IOType::Matrix(maps), i)
    }
}
fn inside(f: &IOType<Tok>) -> Vec<&Tok> { match f { IOType::Scalar(v) => v.iter().collect(), IOType::Matrix(m) => m.iter().flat_map(|m| m.get_body()).collect() } }

fn features(c: &mut Ctx) {
    reset();
    let (mut f, mut is) = feature(c);
    let maps = matches!(f, IOType::Matrix(_));
    if c.rng.chance(1, 3) {
        let g = c.call("copying", || f.clone());
        c.check(origins(inside(&g)) == origins(inside(&f)), || "a copy holds other values".into());
        let mut held = is.clone(); held.extend(ids(inside(&g)));
        settle(c, &held, "copying features");
        if c.rng.chance(1, 2) { f = g; is = ids(inside(&f)); }
        c.count("copies", 1);
    }
    settle(c, &is, "copying features");
    // views, which may be refused
    let seen = match c.attempt(|| (ids(f.as_slice()), ids(f.as_mut().iter()))) { Outcome::Ret((a, b)) => { c.check(!maps && a == is && b == is, || "a view of features shows other values".into()); true } Outcome::Panic(_) => false };
    c.check(seen || maps, || "a vector has no view".into());
    settle(c, &is, "viewing features");
    let v = match c.attempt(|| f.to_vec_of()) { Outcome::Ret(v) => v, Outcome::Panic(p) => c.fail(format!("flattening panicked: {}", p.msg)) };
    if let Some(v) = v {
        c.check(origins(&v) == origins(inside(&f)), || "flattening gives other values".into());
        let mut held = is.clone(); held.extend(ids(&v));
        settle(c, &held, "flattening");
        c.count("features flattened", 1);
    }
    settle(c, &is, "the end of flattened features");
    match c.rng.below(3) {
        0 => { let r = c.call("release_vec", || f.release_vec().ok()); c.check(r.is_none() == maps, || "release_vec of the wrong kind".into()); match r { Some(v) => { c.check(ids(&v) == is, || "release_vec gives other values".into()); settle(c, &is, "release_vec"); } None => { settle(c, &[], "a refused release_vec"); c.count("refusals", 1); } } }
        1 => { let r = c.call("release_maps", || f.release_maps().ok()); c.check(r.is_some() == maps, || "release_maps of the wrong kind".into()); match r { Some(v) => { c.check(v.iter().flat_map(|m| ids(m.get_body())).collect::<Vec<_>>() == is, || "release_maps gives other values".into()); settle(c, &is, "release_maps"); } None => { settle(c, &[], "a refused release_maps"); c.count("refusals", 1); } } }
        _ => c.call("dropping", || drop(f)),
    }
    settle(c, &[], "the end");
    c.count("features", 1);
    c.sig(&[2, maps as u64, is.len() as u64]);
}
trait Flat { fn to_vec_of(&self) -> Option<Vec<Tok>>; }
impl Flat for IOType<Tok> {
    /// The values by way of a flatten layer, sometimes of another size (which refuses).
    fn to_vec_of(&self) -> Option<Vec<Tok>> {
        let (s, n) = match self { IOType::Matrix(m) if !m.is_empty() => ([m[0].get_shape()[0], m[0].get_shape()[1]], m.len()), _ => ([2, 2], 3) };
        let _ = Flatten::init([s[0] + 1, s[1]], n).foward(self);
        let _ = Flatten::init(s, n + 1).foward(self);
        Flatten::init(s, n).foward(self).ok().and_then(|f| f.release_vec().ok())
    }
}

fn datasets(c: &mut Ctx) {
    reset();
    let n = if c.big { large(&mut c.rng, 1200) } else { c.rng.below(7) };
    let mut d: Dataset<Tok, Tok> = Dataset::new();
    let mut model: Vec<(Vec<usize>, Vec<usize>)> = Vec::new();
    let held = |m: &[(Vec<usize>, Vec<usize>)]| -> Vec<usize> { m.iter().flat_map(|(a, b)| a.iter().chain(b).copied()).collect() };
    for _ in 0..n {
        let ((x, a), (t, b)) = (feature(c), feature(c));
        c.call("add_point", || d.add_point((x, t)));
        model.push((a, b));
        if !c.big { settle(c, &held(&model), "add_point"); }
    }
    settle(c, &held(&model), "adding points");
    let k = c.rng.below(n + 2);
    match c.attempt(|| { let (x, t) = d.get_point(k); (ids(inside(x)), ids(inside(t))) }) { Outcome::Ret(p) => c.check(k < n && p == model[k], || format!("point {k} of {n} holds other values")), Outcome::Panic(_) => c.check(k >= n, || format!("there is no point {k} of {n}")) }
    if c.rng.chance(1, 3) {
        let copy = c.call("copying", || d.clone());
        let all = |d: &Dataset<Tok, Tok>| { let (a, b) = d.points_as_iter(); (a.map(|f| origins(inside(f))).collect::<Vec<_>>(), b.map(|f| origins(inside(f))).collect::<Vec<_>>()) };
        c.check(all(&d) == all(&copy), || "a copy holds other values".into());
        let new: Vec<_> = (0..copy.get_n_points()).map(|i| { let (x, t) = copy.get_point(i); (ids(inside(x)), ids(inside(t))) }).collect();
        let mut both = held(&model); both.extend(held(&new));
        settle(c, &both, "copying a dataset");
        c.count("copies", 1);
        if c.rng.chance(1, 2) { d = copy; model = new; }
    }
    settle(c, &held(&model), "copying a dataset");
    if c.rng.chance(1, 3) { c.call("dropping", || drop(d)); }
    else {
        let (mut x, mut t) = c.call("points_into_iter", || d.points_into_iter());
        let (a, b) = (c.rng.below(n + 1), c.rng.below(n + 1));
        let (p, q): (Vec<_>, Vec<_>) = (x.by_ref().take(a).collect(), t.by_ref().take(b).collect());
        c.check(p.iter().map(|f| ids(inside(f))).eq(model[..a].iter().map(|m| m.0.clone())) && q.iter().map(|f| ids(inside(f))).eq(model[..b].iter().map(|m| m.1.clone())), || "points_into_iter gives other values".into());
        settle(c, &held(&model), "part of the points");
        drop(x);
        let now: Vec<usize> = model[..a].iter().flat_map(|m| m.0.clone()).chain(model.iter().flat_map(|m| m.1.clone())).collect();
        settle(c, &now, "the end of the inputs");
        drop(t);
        let now: Vec<usize> = model[..a].iter().flat_map(|m| m.0.clone()).chain(model[..b].iter().flat_map(|m| m.1.clone())).collect();
        settle(c, &now, "the end of the targets");
        c.count("datasets taken apart", 1);
    }
    settle(c, &[], "the end");
    c.count("datasets", 1);
    c.sig(&[3, n as u64, c.idx % 256]);
}

pub const STAGES: &[Stage] = &[
    Stage { name: "matrices", quick: 600_000, thorough: 6_000_000, f: matrix },
    Stage { name: "large-matrices", quick: 400, thorough: 4_000, f: matrix },
    Stage { name: "features", quick: 400_000, thorough: 4_000_000, f: features },
    Stage { name: "large-features", quick: 1_000, thorough: 10_000, f: features },
    Stage { name: "datasets", quick: 240_000, thorough: 2_400_000, f: datasets },
    Stage { name: "large-datasets", quick: 100, thorough: 1_000, f: datasets },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C40",
        rule: "distinct shapes and lengths of edit histories, features and datasets",
        assumptions: &[],
        stages: STAGES,
        must_observe: &["owners settled", "refusals", "copies", "matrices", "features", "features flattened", "datasets", "datasets taken apart"],
    });
}
