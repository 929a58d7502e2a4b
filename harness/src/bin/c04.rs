//! C04: activation derivatives against the closed form and against finite differences of the
//! library's own activation values.
use monitors::driver::{main as run, Plan};
use monitors::work::large;
use monitors::num::{z, Prec, Z};
use monitors::refm::{act_id, dact, dact_abs_tol, ACTS};
use monitors::{Ctx, Stage};
use renplex::act::ComplexActFunc as A;
use renplex::math::cfloat::{Cf32, Cf64};

pub trait Forms: Prec {
    fn d_ptr(a: &A, v: Self) -> (Self, Self);
    fn d_val(a: &A, v: &Self) -> (Self, Self);
    fn d_slice(a: &A, d: &mut [Self], e: &mut [Self]);
}
impl Forms for Cf32 {
    fn d_ptr(a: &A, v: Self) -> (Self, Self) { (a.release_dfunc_cf32()(v), a.release_dfunc_conj_cf32()(v)) }
    fn d_val(a: &A, v: &Self) -> (Self, Self) { (a.compute_d_val_cf32(v), a.compute_d_conj_val_cf32(v)) }
    fn d_slice(a: &A, d: &mut [Self], e: &mut [Self]) { a.compute_d_cf32(d); a.compute_d_conj_cf32(e) }
}
impl Forms for Cf64 {
    fn d_ptr(a: &A, v: Self) -> (Self, Self) { (a.release_dfunc_cf64()(v), a.release_dfunc_conj_cf64()(v)) }
    fn d_val(a: &A, v: &Self) -> (Self, Self) { (a.compute_d_val_cf64(v), a.compute_d_conj_val_cf64(v)) }
    fn d_slice(a: &A, d: &mut [Self], e: &mut [Self]) { a.compute_d_cf64(d); a.compute_d_conj_cf64(e) }
}

fn part(c: &mut Ctx, is32: bool) -> f64 {
    let r = &mut c.rng;
    match r.below(8) {
        0 => r.pick(&[15.0, -15.0, 30.0, -30.0, 14.9, -29.9]),
        1 => r.sf() * 20.0,
        2 => r.sf() * if is32 { 120.0 } else { 900.0 },
        3 => { let m = 10f64.powf(r.sf() * 3.0); if r.chance(1, 2) { m } else { -m } }
        4 => r.below(11) as f64 - 5.0,
        _ => r.gauss(),
    }
}
fn point<P: Prec>(c: &mut Ctx) -> Z { let a = part(c, P::IS32); let b = part(c, P::IS32); P::rnd(z(a, b)) }

fn differentiable(a: A, v: Z) -> bool {
    match a {
        A::RITReLU => v.re != 0.0 && v.im != 0.0,
        A::ZReLU => !(v.re == 0.0 && v.im >= 0.0 || v.im == 0.0 && v.re >= 0.0),
        A::ModZ | A::Cardioid => v.abs() > 1e-6,
        _ => true,
    }
}
const NAMES: [&str; 7] = ["identity", "modz", "sigmoid", "tanh", "relu", "zrelu", "cardioid"];

fn judge<P: Prec>(c: &mut Ctx, a: A, v: Z, got: (Z, Z), form: &'static str) {
    if !differentiable(a, v) { c.count("skipped (not differentiable)", 1); return; }
    let want = dact(a, v);
    let tol = dact_abs_tol(a, v, P::EPS, P::IS32);
    c.within("derivative", got.0.dist(want.0), tol, || format!("{} d{a:?}/dz at {v:?} = {:?}, expected {:?} ({form})", P::NAME, got.0, want.0));
    c.within("conjugate derivative", got.1.dist(want.1), tol, || format!("{} d{a:?}/dz* at {v:?} = {:?}, expected {:?} ({form})", P::NAME, got.1, want.1));
    c.count(NAMES[act_id(a) as usize], 1);
}

fn closed<P: Forms>(c: &mut Ctx) {
    let v = point::<P>(c);
    for a in ACTS {
        if !differentiable(a, v) { continue; }
        let g = c.call("derivative", || (P::of(v).d_activate(&a), P::of(v).d_conj_activate(&a)));
        judge::<P>(c, a, v, (g.0.z(), g.1.z()), "d_activate");
        let g = c.call("derivative", || P::d_ptr(&a, P::of(v)));
        judge::<P>(c, a, v, (g.0.z(), g.1.z()), "function pointer");
        let g = c.call("derivative", || P::d_val(&a, &P::of(v)));
        judge::<P>(c, a, v, (g.0.z(), g.1.z()), "single value");
    }
    c.sig(&[P::IS32 as u64, v.re.to_bits() >> 50, v.im.to_bits() >> 52]);
    c.sample(|| format!("{} both derivatives of all activations at {v:?}", P::NAME));
}

fn slices<P: Forms>(c: &mut Ctx) {
    let n = match c.rng.below(5) { 0 => if c.rng.chance(1, 12) { large(&mut c.rng, 9_000) } else { c.rng.range(60, 400) }, 1 => c.rng.below(3), _ => c.rng.below(30) };
    let n = if c.small { n.min(5) } else { n };
    let a = c.rng.pick(&ACTS);
    let mut pts = Vec::new();
    while pts.len() < n { let v = point::<P>(c); if differentiable(a, v) { pts.push(v); } }
    let mut d: Vec<P> = pts.iter().map(|v| P::of(*v)).collect();
    let mut e = d.clone();
    if c.rng.chance(1, 2) { c.call("slice derivative", || P::d_slice(&a, &mut d, &mut e)); }
    else { c.call("slice derivative", || { P::d_activate_mut(&mut d, &a); P::d_conj_activate_mut(&mut e, &a); }); }
    c.check(d.len() == n && e.len() == n, || "slice length changed".into());
    for i in 0..n { judge::<P>(c, a, pts[i], (d[i].z(), e[i].z()), "slice"); }
    c.count("slices", 1);
    c.sig(&[3, P::IS32 as u64, act_id(a), n as u64]);
}

/// Independent of the closed forms: differences of the values the library itself computes.
fn differences(c: &mut Ctx) {
    let a = c.rng.pick(&ACTS);
    let v = z(c.rng.gauss() * 2.0, c.rng.gauss() * 2.0);
    let h = 2f64.powi(-20);
    let clear = match a { A::RITReLU | A::ZReLU => v.re.abs() > 1e-3 && v.im.abs() > 1e-3, A::ModZ | A::Cardioid => v.abs() > 0.2, _ => true };
    if !clear { c.count("skipped (not differentiable)", 1); return; }
    let f = |w: Z| Cf64::of(w).activate_z(&a);
    let dx = (f(v + z(h, 0.0)) - f(v - z(h, 0.0))).s(0.5 / h);
    let dy = (f(v + z(0.0, h)) - f(v - z(0.0, h))).s(0.5 / h);
    let want = ((dx - Z::I * dy).s(0.5), (dx + Z::I * dy).s(0.5));
    let got = c.call("derivative", || (Cf64::of(v).d_act(&a), Cf64::of(v).d_conj_act(&a)));
    c.within("difference quotient", got.0.dist(want.0), 2e-8, || format!("d{a:?}/dz at {v:?} = {:?}, differences of the activation give {:?}", got.0, want.0));
    c.within("difference quotient", got.1.dist(want.1), 2e-8, || format!("d{a:?}/dz* at {v:?} = {:?}, differences of the activation give {:?}", got.1, want.1));
    c.count("difference quotients", 1);
    c.sig(&[4, act_id(a), (v.re > 0.0) as u64, (v.im > 0.0) as u64, (v.abs() * 16.0) as u64]);
}
trait ActZ { fn activate_z(self, a: &A) -> Z; fn d_act(self, a: &A) -> Z; fn d_conj_act(self, a: &A) -> Z; }
impl<P: Prec> ActZ for P {
    fn activate_z(self, a: &A) -> Z { self.activate(a).z() }
    fn d_act(self, a: &A) -> Z { self.d_activate(a).z() }
    fn d_conj_act(self, a: &A) -> Z { self.d_conj_activate(a).z() }
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { closed::<Cf32>(c) } else { closed::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { slices::<Cf32>(c) } else { slices::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "closed-form", quick: 750_000, thorough: 6_000_000, f: f1 },
    Stage { name: "slices", quick: 40_000, thorough: 320_000, f: f2 },
    Stage { name: "differences", quick: 300_000, thorough: 2_400_000, f: differences },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C04",
        rule: "distinct (precision, leading bits of both parts) of differentiable points at which both derivatives of every activation were compared, plus (activation, length) of slices",
        assumptions: &["points on a kink, a jump or at the origin of a directional activation are not compared"],
        stages: STAGES,
        must_observe: &["identity", "modz", "sigmoid", "tanh", "relu", "zrelu", "cardioid", "slices", "difference quotients"],
    });
}
