//! C36: printed text.
use monitors::driver::{main as run, Plan};
use monitors::elem::Elem;
use monitors::nets::*;
use monitors::num::z;
use monitors::refm::ACTS;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage, Z};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use std::fmt::{Debug, Display};

/// All numbers in a text, in order. Names such as Cf32 are not numbers.
fn numbers(t: &str) -> Vec<&str> {
    let mut out = Vec::new();
    for w in t.split(|ch: char| !(ch.is_ascii_alphanumeric() || "+-._".contains(ch))) {
        if w.is_empty() || !(w.parse::<f64>().is_ok()) { continue; }
        out.push(w);
    }
    out
}
/// Bits of a number read in the precision of the element.
fn read<E: Elem>(t: &str) -> Option<u64> { if E::ID % 2 == 0 { t.parse::<f32>().ok().map(|v| v.to_bits() as u64) } else { t.parse::<f64>().ok().map(|v| v.to_bits()) } }

fn part(c: &mut Ctx) -> f64 {
    match c.rng.below(10) {
        0 => c.rng.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1.0 / 3.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, f32::MAX as f64, f32::MIN_POSITIVE as f64, 1e-45]),
        1 => { let v = f64::from_bits(c.rng.u64()); if v.is_nan() { 2.5 } else { v } }
        2 => { let v = f32::from_bits(c.rng.u64() as u32) as f64; if v.is_nan() { 2.5 } else { v } }
        3 => 10f64.powf(c.rng.sf() * 30.0),
        4 => c.rng.below(100_000) as f64 * 1e3,
        _ => { let g = reg(&mut c.rng); num(&mut c.rng, g).re }
    }
}

fn number<E: Elem + Display>(c: &mut Ctx) {
    let v: Z = z(part(c), part(c));
    let x = E::of(v);
    let t = c.call("printing a number", || format!("{x}"));
    let ns = numbers(&t);
    c.check(ns.len() == 2, || format!("{} {:?} prints as {t:?}", E::NAME, x.z()));
    let b = x.bits();
    c.check(read::<E>(ns[0]) == Some(b.0) && read::<E>(ns[1]) == Some(b.1), || format!("{} {:?} prints as {t:?}, which reads back differently", E::NAME, x.z()));
    c.check(!t.contains('\n'), || format!("{} {:?} prints on several lines", E::NAME, x.z()));
    c.count("numbers printed", 1);
    c.sig(&[E::ID, b.0, b.1]);
}

fn matrix<E: Elem + Debug>(c: &mut Ctx) {
    let (h, w) = (size(c, 9, 60), size(c, 9, 60));
    let body: Vec<E> = (0..h * w).map(|_| E::of(z(part(c), part(c)))).collect();
    let mut m = if c.rng.chance(1, 2) { Matrix::from_body(body.clone(), [h, w]) } else { let mut m = Matrix::with_capacity([h + c.rng.below(3), w + c.rng.below(3)]); for r in body.chunks(w) { m.add_row(r.to_vec()).expect("LIB: add_row"); } m };
    let mut body = body;
    let mut rows = h;
    if h > 1 && c.rng.chance(1, 3) { let k = c.rng.below(h); c.ok("del_row", || m.del_row(k)); body.drain(k * w..(k + 1) * w); rows -= 1; }
    let t = c.call("printing a matrix", || format!("{m}"));
    let lines: Vec<&str> = t.lines().collect();
    c.check(lines.len() == rows + 1, || format!("{} matrix {rows}x{w} prints as {} lines", E::NAME, lines.len()));
    let per = if E::ID < 2 { 1 } else { 2 };
    for (k, (l, r)) in lines.iter().zip(body.chunks(w)).enumerate() {
        let ns = numbers(l);
        c.check(ns.len() == w * per, || format!("{} matrix {rows}x{w}: line {k} shows {} numbers: {l}", E::NAME, ns.len()));
        for (j, x) in r.iter().enumerate() {
            let b = x.bits();
            let ok = read::<E>(ns[j * per]) == Some(b.0) && (per == 1 || read::<E>(ns[j * per + 1]) == Some(b.1));
            c.check(ok, || format!("{} matrix {rows}x{w}: element ({k}, {j}) is {:?}, printed as {:?}", E::NAME, x.z(), &ns[j * per..j * per + per]));
        }
    }
    let ns: Vec<usize> = numbers(lines[rows]).iter().filter_map(|t| t.parse().ok()).collect();
    let want: Vec<usize> = m.get_shape().iter().chain(m.get_capacity()).copied().collect();
    c.check(ns == want, || format!("{} matrix: last line {:?}, shape and capacity are {want:?}", E::NAME, lines[rows]));
    c.check(m.get_shape() == [rows, w], || format!("printing changed the shape to {:?}", m.get_shape()));
    c.count("matrices printed", 1);
    c.sig(&[E::ID, rows as u64, w as u64]);
}

/// Empty matrices, networks and datasets print without failing, and printing changes nothing.
fn others<P: Prec + Debug>(c: &mut Ctx) {
    let e = Matrix::<P>::with_capacity([c.rng.below(4), c.rng.below(4)]);
    let t = c.call("printing an empty matrix", || format!("{e}"));
    c.check(t.lines().count() == 1, || format!("an empty matrix prints as {t:?}"));
    let o = NetOpts { acts: &ACTS, exact_pool: false, allow_maps: true, flat_end: c.rng.chance(1, 2), min_layers: 1, max_layers: if c.small { 3 } else { 5 }, max_ch: 3, max_dim: if c.small { 3 } else { 6 } };
    let (d, specs) = gen_net::<P>(&mut c.rng, &o);
    let seed = gen_seed(&mut c.rng);
    let adj = gen_adj::<P>(&mut c.rng, &specs, Reg::Disc);
    let rl = reference::<P>(&specs, seed, &adj);
    let net = build::<P>(&specs, seed, &adj);
    let x = gen_input::<P>(&mut c.rng, d, Reg::Gauss);
    if !trace::<P>(&rl, &x).determined { return; }
    let lx = lib_feat::<P>(&x);
    let before = bits_of(&c.ok("forward", || net.forward(&lx)));
    let (a, b) = (c.call("printing a network", || format!("{net:?}")), c.call("printing a network", || format!("{net:#?}")));
    c.check(!a.is_empty() && !b.is_empty(), || "a network prints as nothing".into());
    let again = c.call("printing a network", || format!("{net:?}"));
    c.check(a == again, || format!("two prints of {specs:?} differ"));
    // a network built the same way prints the same, one that differs in one parameter does not
    let twin = build::<P>(&specs, seed, &adj);
    let t = c.call("printing a network", || format!("{twin:?}"));
    let stable = !specs.iter().any(|s| matches!(s, Spec::Pool { .. }));
    if stable { c.check(a == t, || format!("equal networks print differently: {specs:?}")); c.count("equal networks printed", 1); }
    let after = bits_of(&c.ok("forward", || net.forward(&lx)));
    c.check(before == after, || format!("printing changed a prediction of {specs:?}"));
    c.count("networks printed", 1);
    c.sig(&words(&specs));
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { number::<Cf32>(c) } else { number::<Cf64>(c) } }
fn f2(c: &mut Ctx) { match c.idx % 4 { 0 => matrix::<f32>(c), 1 => matrix::<f64>(c), 2 => matrix::<Cf32>(c), _ => matrix::<Cf64>(c) } }
fn f3(c: &mut Ctx) { if c.idx % 2 == 0 { others::<Cf32>(c) } else { others::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "numbers", quick: 400_000, thorough: 4_000_000, f: f1 },
    Stage { name: "matrices", quick: 30_000, thorough: 300_000, f: f2 },
    Stage { name: "large-matrices", quick: 1_000, thorough: 10_000, f: f2 },
    Stage { name: "others", quick: 10_000, thorough: 100_000, f: f3 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C36",
        rule: "distinct numbers, (element type, shape) and networks printed",
        assumptions: &["numbers that are not NaN", "how numbers are separated is left open"],
        stages: STAGES,
        must_observe: &["numbers printed", "matrices printed", "networks printed", "equal networks printed"],
    });
}
