//! C07: edit histories of a matrix against a plain table.
use monitors::driver::{main as run, Plan};
use monitors::work::large;
use monitors::{Ctx, Stage};
use rayon::prelude::*;
use renplex::math::matrix::Matrix;

#[derive(Clone)]
struct Model { rows: Vec<Vec<u64>>, cap: [usize; 2] }
impl Model {
    fn shape(&self) -> [usize; 2] { if self.rows.is_empty() { [0, 0] } else { [self.rows.len(), self.rows[0].len()] } }
    fn body(&self) -> Vec<u64> { self.rows.concat() }
}

/// Every read access of the matrix, compared with the table.
fn inspect(c: &mut Ctx, m: &mut Matrix<u64>, t: &Model, after: &str) {
    let [r, w] = t.shape();
    let shape = m.get_shape().to_vec();
    c.check(shape == [r, w], || format!("after {after}: shape {shape:?}, table has {:?}", [r, w]));
    let body = m.get_body().to_vec();
    c.check(body.len() == r * w, || format!("after {after}: body of {} elements for shape {:?}", body.len(), [r, w]));
    c.check(body == t.body(), || format!("after {after}: body {body:?}, table has {:?}", t.body()));
    let cap = m.get_capacity().to_vec();
    c.check(cap.len() == 2 && cap[0] >= r && cap[1] >= w, || format!("after {after}: shape {shape:?} exceeds capacity {cap:?}"));
    c.check(cap == t.cap, || format!("after {after}: capacity {cap:?}, expected {:?}", t.cap));
}

fn reads(c: &mut Ctx, m: &mut Matrix<u64>, t: &Model) {
    let [r, w] = t.shape();
    let i = c.rng.below(r + 2);
    let j = c.rng.below(w + 2);
    let inside = i < r && j < w;
    let got = c.call("elm", || m.elm(i, j).map(|v| *v).ok());
    c.check(got == if inside { Some(t.rows[i][j]) } else { None }, || format!("elm({i},{j}) of {:?} = {got:?}", t.shape()));
    let got = c.call("elm_mut", || m.elm_mut(i, j).map(|v| *v).ok());
    c.check(got == if inside { Some(t.rows[i][j]) } else { None }, || format!("elm_mut({i},{j}) of {:?} = {got:?}", t.shape()));
    let got = c.call("row", || m.row(i).map(|v| v.to_vec()).ok());
    c.check(got == t.rows.get(i).cloned(), || format!("row({i}) of {:?} = {got:?}", t.shape()));
    let got = c.call("row_as_mut", || m.row_as_mut(i).map(|v| v.to_vec()).ok());
    c.check(got == t.rows.get(i).cloned(), || format!("row_as_mut({i}) of {:?} = {got:?}", t.shape()));
    let col: Option<Vec<u64>> = if j < w { Some(t.rows.iter().map(|x| x[j]).collect()) } else { None };
    let got = c.call("copy_col_into_vec", || m.copy_col_into_vec(j).ok());
    c.check(got == col, || format!("column {j} of {:?} = {got:?}", t.shape()));
    // into slices, of the right and of wrong lengths
    for d in [0isize, 1, -1] {
        let n = w as isize + d;
        if n >= 0 {
            let mut buf = vec![u64::MAX; n as usize];
            let ok = c.call("row_into_slice", || m.row_into_slice(i, &mut buf).is_ok());
            c.check(ok == (i < r && d == 0), || format!("row_into_slice({i}) of {:?} into {n} entries: accepted = {ok}", t.shape()));
            c.check(buf == if ok { t.rows[i].clone() } else { vec![u64::MAX; n as usize] }, || format!("row_into_slice({i}) wrote {buf:?}"));
        }
        let n = r as isize + d;
        if n >= 0 {
            let mut buf = vec![u64::MAX; n as usize];
            let ok = c.call("col_into_slice", || m.col_into_slice(j, &mut buf).is_ok());
            c.check(ok == (j < w && d == 0), || format!("col_into_slice({j}) of {:?} into {n} entries: accepted = {ok}", t.shape()));
            c.check(buf == if ok { col.clone().unwrap() } else { vec![u64::MAX; n as usize] }, || format!("col_into_slice({j}) wrote {buf:?}"));
        }
    }
    let got = c.call("rows_as_iter", || m.rows_as_iter().map(|x| x.to_vec()).collect::<Vec<_>>());
    c.check(got == t.rows, || format!("iterating the rows of {:?} gives {got:?}", t.shape()));
    let got = c.call("rows_as_iter_mut", || m.rows_as_iter_mut().map(|x| x.to_vec()).collect::<Vec<_>>());
    c.check(got == t.rows, || format!("iterating the rows of {:?} mutably gives {got:?}", t.shape()));
    if !c.small {
        let got = c.call("rows_as_par_chunks", || m.rows_as_par_chunks().map(|x| x.to_vec()).collect::<Vec<_>>());
        c.check(got == t.rows, || format!("iterating the rows of {:?} in parallel gives {got:?}", t.shape()));
    }
    if r > 0 && w > 0 {
        let i = c.rng.below(r); let n = c.rng.range(1, r - i);
        let got = c.call("get_slider", || m.get_slider(i, n).map(|x| x.to_vec()).collect::<Vec<_>>());
        c.check(got == t.rows[i..i + n], || format!("get_slider({i},{n}) of {:?} gives {got:?}", t.shape()));
    }
    let got = c.call("clone and export", || m.clone().export_body());
    c.check(got == t.body(), || format!("export_body gives {got:?}"));
    let got = c.call("clone and iterate", || m.clone().body_into_iter().collect::<Vec<_>>());
    c.check(got == t.body(), || format!("body_into_iter gives {got:?}"));
    let e = c.call("is_empty", || m.is_empty());
    c.check(e == (r == 0 && t.cap == [0, 0]), || format!("is_empty = {e} for shape {:?}, capacity {:?}", t.shape(), t.cap));
    let text = c.call("display", || format!("{m}"));
    for row in &t.rows { c.check(text.contains(&format!("{row:?}")), || format!("printed matrix lacks row {row:?}: {text}")); }
    let f = c.call("flip", || m.flip().map(|x| x.export_body()).ok());
    let mut want = t.body(); want.reverse();
    c.check(f == Some(want), || format!("flip of {:?} = {f:?}", t.shape()));
    c.count("full read-outs", 1);
}

fn history(c: &mut Ctx) {
    let mut id = 1u64;
    let mut fresh = |n: usize| -> Vec<u64> { (0..n).map(|_| { id += 1; id }).collect() };
    let big = if c.big { if c.idx % 2 == 0 { large(&mut c.rng, 300) } else { c.rng.range(3, 12) } } else if c.small { 4 } else { c.rng.pick(&[3usize, 5, 9, 14]) };
    let (mut m, mut t) = match c.rng.below(5) {
        0 => (Matrix::new(), Model { rows: vec![], cap: [0, 0] }),
        1 | 2 => {
            let cap = if c.rng.chance(1, 5) { [c.rng.below(big + 1), c.rng.below(big + 1)] } else { [c.rng.range(big, 4 * big), c.rng.range(big, 4 * big)] };
            (Matrix::with_capacity(cap), Model { rows: vec![], cap }) }
        _ => {
            let (r, w) = (c.rng.range(1, big), c.rng.range(1, big));
            let rows: Vec<Vec<u64>> = (0..r).map(|_| fresh(w)).collect();
            (Matrix::from_body(rows.concat(), [r, w]), Model { rows, cap: [r, w] })
        }
    };
    inspect(c, &mut m, &t, "creation");
    let steps = if c.big { if c.idx % 2 == 0 { c.rng.range(4, 30) } else { c.rng.range(100, 1500) } } else if c.small { 8 } else { c.rng.range(4, 60) };
    let mut words = vec![];
    for _ in 0..steps {
        let [r, w] = t.shape();
        // mostly growth, so that histories do not collapse to the empty matrix
        let shrink = if c.rng.chance(1, 2) { 5usize } else { 7 };
        let op = c.rng.pick(&[0, 0, 1, 1, 2, 3, 3, 3, 4, 4, 8, 9, 5, shrink]);
        let before = t.clone();
        let what;
        match op {
            0 | 1 | 2 => {
                // a row, by value or drained; length usually right, capacity often reached
                let n = if r == 0 { c.rng.range(1, big) } else if c.rng.chance(1, 6) { c.rng.range(1, big) } else { w };
                let row = fresh(n);
                let fits = (r == 0 || n == w) && r < t.cap[0] && n <= t.cap[1];
                let ok = if op == 0 {
                    what = "add_row";
                    c.call("add_row", || m.add_row(row.clone()).is_ok())
                } else {
                    what = "add_mut_row";
                    let mut off = row.clone();
                    let ok = c.call("add_mut_row", || m.add_mut_row(&mut off).is_ok());
                    c.check(off == if ok { vec![] } else { row.clone() }, || format!("add_mut_row left {off:?} of {row:?} (accepted = {ok})"));
                    ok
                };
                c.check(ok == fits, || format!("{what} of {n} entries to {:?} (capacity {:?}): accepted = {ok}", t.shape(), t.cap));
                if ok { t.rows.push(row); }
                c.count(if ok { "rows added" } else { "rows refused" }, 1);
            }
            3 | 4 => {
                what = "add_col";
                let n = if c.rng.chance(1, 6) { c.rng.range(1, big) } else { r };
                if n == 0 { continue; }
                let col = fresh(n);
                let mut off = col.clone();
                let fits = r > 0 && n == r && w < t.cap[1];
                let ok = c.call("add_col", || m.add_col(&mut off).is_ok());
                c.check(ok == fits, || format!("add_col of {n} entries to {:?} (capacity {:?}): accepted = {ok}", t.shape(), t.cap));
                c.check(off == if ok { vec![] } else { col.clone() }, || format!("add_col left {off:?} of {col:?} (accepted = {ok})"));
                if ok { for (row, v) in t.rows.iter_mut().zip(&col) { row.push(*v); } }
                c.count(if ok { "columns added" } else { "columns refused" }, 1);
            }
            5 => {
                what = "del_row";
                let i = c.rng.below(r + 2);
                let got = c.call("del_row", || m.del_row(i).ok());
                c.check(got == t.rows.get(i).cloned(), || format!("del_row({i}) of {:?} = {got:?}", t.shape()));
                if got.is_some() {
                    t.rows.remove(i);
                    // the reserved space after a deletion is the matrix's own choice
                    t.cap = [m.get_capacity()[0], m.get_capacity()[1]];
                    c.count("rows deleted", 1);
                } else { c.count("deletions refused", 1); }
            }
            7 => {
                what = "dealloc";
                c.call("dealloc", || m.dealloc());
                t.cap = t.shape();
                c.count("capacity released", 1);
            }
            8 => {
                what = "element write";
                if r == 0 { continue; }
                let (i, j) = (c.rng.below(r), c.rng.below(w));
                let v = fresh(1)[0];
                match c.rng.below(3) {
                    0 => *c.ok("elm_mut", || m.elm_mut(i, j)) = v,
                    1 => c.ok("row_as_mut", || m.row_as_mut(i))[j] = v,
                    _ => { let k = i * w + j; m.get_body_as_mut()[k] = v }
                }
                t.rows[i][j] = v;
                c.count("elements written", 1);
            }
            _ => {
                what = "row writes through the iterator";
                let vals = fresh(r);
                if w > 0 {
                    c.call("rows_as_iter_mut", || m.rows_as_iter_mut().zip(&vals).for_each(|(row, v)| row[0] = *v));
                    for (row, v) in t.rows.iter_mut().zip(&vals) { row[0] = *v; }
                }
            }
        }
        inspect(c, &mut m, &t, &format!("{what} on {:?} (capacity {:?})", before.shape(), before.cap));
        words.push(op as u64 * 64 + (t.shape() != before.shape()) as u64);
        if c.rng.chance(1, 4) { reads(c, &mut m, &t); inspect(c, &mut m, &t, "reading"); }
    }
    reads(c, &mut m, &t);
    inspect(c, &mut m, &t, "reading");
    c.sig(&words);
    c.sample(|| format!("history of {} steps ending with shape {:?}, capacity {:?}", words.len(), t.shape(), t.cap));
}

pub const STAGES: &[Stage] = &[
    Stage { name: "histories", quick: 200_000, thorough: 1_600_000, f: history },
    Stage { name: "large-histories", quick: 2_000, thorough: 16_000, f: history },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C07",
        rule: "distinct histories (sequence of operations and whether each changed the shape) followed step by step",
        assumptions: &["rows and columns have at least one entry", "the reserved space after deleting a row is taken from the matrix itself"],
        stages: STAGES,
        must_observe: &["rows added", "rows refused", "columns added", "columns refused", "rows deleted", "deletions refused", "capacity released", "elements written", "full read-outs"],
    });
}
