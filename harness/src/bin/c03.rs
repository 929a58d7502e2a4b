//! C03: activation values, C04 shares the point generator.
use monitors::driver::{main as run, Plan};
use monitors::work::large;
use monitors::num::{z, Prec, Z};
use monitors::refm::{act, act_id, act_tol, ACTS};
use monitors::{Ctx, Stage};
use renplex::act::ComplexActFunc as A;
use renplex::math::cfloat::{Cf32, Cf64};

pub trait Forms: Prec {
    fn ptr(a: &A, v: Self) -> Self;
    fn val(a: &A, v: &Self) -> Self;
    fn slice(a: &A, v: &mut [Self]);
}
impl Forms for Cf32 {
    fn ptr(a: &A, v: Self) -> Self { a.release_func_cf32()(v) }
    fn val(a: &A, v: &Self) -> Self { a.compute_val_cf32(v) }
    fn slice(a: &A, v: &mut [Self]) { a.compute_cf32(v) }
}
impl Forms for Cf64 {
    fn ptr(a: &A, v: Self) -> Self { a.release_func_cf64()(v) }
    fn val(a: &A, v: &Self) -> Self { a.compute_val_cf64(v) }
    fn slice(a: &A, v: &mut [Self]) { a.compute_cf64(v) }
}

pub fn part(c: &mut Ctx, is32: bool) -> f64 {
    let r = &mut c.rng;
    match r.below(12) {
        0 => r.pick(&[0.0, -0.0, 1.0, -1.0]),
        1 => { let t = r.pick(&[15.0, -15.0, 30.0, -30.0]); t * (1.0 + r.pick(&[-1.0, 0.0, 1.0]) * if is32 { 1.2e-7 } else { 2.3e-16 }) }
        2 => r.sf() * 40.0,
        3 => r.sf() * if is32 { 120.0 } else { 900.0 },
        4 => { let m = 10f64.powf(r.sf() * 6.0); if r.chance(1, 2) { m } else { -m } }
        5 => { let m = 10f64.powf(r.f() * if is32 { 17.0 } else { 140.0 }); if r.chance(1, 2) { m } else { -m } }
        6 => { let m = 10f64.powf(-r.f() * if is32 { 15.0 } else { 140.0 }); if r.chance(1, 2) { m } else { -m } }
        7 => r.below(11) as f64 - 5.0,
        _ => r.gauss(),
    }
}
pub fn point<P: Prec>(c: &mut Ctx) -> Z { let a = part(c, P::IS32); let b = part(c, P::IS32); P::rnd(z(a, b)) }

fn judge<P: Prec>(c: &mut Ctx, a: A, v: Z, got: Z, form: &'static str) {
    let n2 = v.n2();
    if matches!(a, A::ModZ | A::Cardioid) && (v.abs() == 0.0 || n2 < P::TINY / P::EPS || n2 > P::HUGE * 0.2) { c.count("skipped (no direction)", 1); return; }
    let want = act(a, v);
    // a negative zero is on the boundary of the first quadrant: either side is accepted
    if matches!(a, A::ZReLU) && ((v.re == 0.0 && v.re.is_sign_negative()) || (v.im == 0.0 && v.im.is_sign_negative())) {
        c.check(got == Z::ZERO || got == v, || format!("{} {a:?}({v:?}) = {got:?} ({form})", P::NAME));
        return;
    }
    match a {
        A::None | A::RITReLU | A::ZReLU => c.check(got.re == want.re && got.im == want.im, || format!("{} {a:?}({v:?}) = {got:?}, expected {want:?} ({form})", P::NAME)),
        _ => {
            let tol = act_tol(a, v, 0.0, P::EPS, P::IS32).unwrap_or(0.0);
            let e = (got.re - want.re).abs().max((got.im - want.im).abs());
            c.within("activation value", e, tol, || format!("{} {a:?}({v:?}) = {got:?}, expected {want:?} ({form})", P::NAME));
        }
    }
    if matches!(a, A::RITSigmoid) {
        c.check(got.re > 0.0 && got.re < 1.0 && got.im > 0.0 && got.im < 1.0, || format!("{} sigmoid({v:?}) = {got:?} is not strictly between 0 and 1 ({form})", P::NAME));
        if v.re.abs() >= if P::IS32 { 15.0 } else { 30.0 } { c.count("saturated sigmoid parts", 1); }
    }
    c.count(NAMES[act_id(a) as usize], 1);
}
const NAMES: [&str; 7] = ["identity", "modz", "sigmoid", "tanh", "relu", "zrelu", "cardioid"];

fn skip<P: Prec>(a: A, v: Z) -> bool { matches!(a, A::ModZ | A::Cardioid) && (v.abs() == 0.0 || v.n2() < P::TINY / P::EPS || v.n2() > P::HUGE * 0.2) }

fn single<P: Forms>(c: &mut Ctx) {
    let v = point::<P>(c);
    for a in ACTS {
        if skip::<P>(a, v) { continue; }
        let g = c.call("activate", || P::of(v).activate(&a)).z();
        judge::<P>(c, a, v, g, "activate");
        let g = c.call("function pointer", || P::ptr(&a, P::of(v))).z();
        judge::<P>(c, a, v, g, "function pointer");
        let g = c.call("single value", || P::val(&a, &P::of(v))).z();
        judge::<P>(c, a, v, g, "single value");
        let mut s = [P::of(v)];
        c.call("in place", || P::activate_mut(&mut s, &a));
        judge::<P>(c, a, v, s[0].z(), "in place");
    }
    c.sig(&[P::IS32 as u64, v.re.to_bits() >> 50, v.im.to_bits() >> 52]);
    c.sample(|| format!("{} all activations at {v:?}", P::NAME));
}

fn slice<P: Forms>(c: &mut Ctx) {
    let n = match c.rng.below(6) { 0 => c.rng.below(3), 1 => if c.rng.chance(1, 12) { large(&mut c.rng, 9_000) } else { c.rng.range(100, 700) }, _ => c.rng.below(40) };
    let n = if c.small { n.min(6) } else { n };
    let a = c.rng.pick(&ACTS);
    let mut pts = Vec::new();
    while pts.len() < n { let v = point::<P>(c); if !skip::<P>(a, v) { pts.push(v); } }
    let mut s: Vec<P> = pts.iter().map(|v| P::of(*v)).collect();
    let direct = c.rng.chance(1, 2);
    c.call("in-place slice", || if direct { P::slice(&a, &mut s) } else { P::activate_mut(&mut s, &a) });
    c.check(s.len() == n, || "slice length changed".into());
    for i in 0..n { judge::<P>(c, a, pts[i], s[i].z(), "slice"); }
    c.count("slices", 1);
    c.sig(&[3, P::IS32 as u64, act_id(a), n as u64]);
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { single::<Cf32>(c) } else { single::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { slice::<Cf32>(c) } else { slice::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "values", quick: 750_000, thorough: 6_000_000, f: f1 },
    Stage { name: "slices", quick: 50_000, thorough: 400_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C03",
        rule: "distinct (precision, leading bits of both parts) of points at which every activation and call form was compared, plus (activation, length) of slices",
        assumptions: &["directional activations are not compared at zero or where the squared modulus leaves the range of the type"],
        stages: STAGES,
        must_observe: &["identity", "modz", "sigmoid", "tanh", "relu", "zrelu", "cardioid", "saturated sigmoid parts", "slices"],
    });
}
