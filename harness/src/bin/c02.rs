//! C02: modulus, phase, conjugate, polar form, ordering.
use monitors::driver::{main as run, Plan};
use monitors::num::{z, Prec, Z};
use monitors::{Ctx, Stage};
use renplex::math::cfloat::{Cf32, Cf64};
use std::cmp::Ordering;
use std::f64::consts::PI;

fn point<P: Prec>(c: &mut Ctx, kind: usize) -> Z {
    let r = &mut c.rng;
    let e = if P::IS32 { 55.0 } else { 480.0 };
    P::rnd(match kind {
        0 => z(r.below(21) as f64 - 10.0, r.below(21) as f64 - 10.0),
        1 => { let m = 2f64.powf(r.sf() * e); let p = r.f() * 2.0 * PI; z(m * p.cos(), m * p.sin()) }
        2 => { let m = 2f64.powf(r.sf() * 6.0); match r.below(8) { 0 => z(m, 0.0), 1 => z(-m, 0.0), 2 => z(0.0, m), 3 => z(0.0, -m), 4 => z(m, -0.0), 5 => z(-m, -0.0), 6 => z(-0.0, m), _ => z(-0.0, -m) } }
        3 => { let m = r.gauss(); z(m, if r.chance(1, 2) { m } else { -m }) }
        4 => { let m = 2f64.powf(r.sf() * 4.0); z(-m, m * 1e-6 * r.sf()) }
        _ => z(r.gauss(), r.gauss()),
    })
}

fn access<P: Prec>(c: &mut Ctx) {
    let k = c.rng.below(6);
    let v = point::<P>(c, k);
    let p = P::of(v);
    c.check(P::fl(p.re()) == v.re && P::fl(p.im()) == v.im, || format!("{} parts of {v:?}", P::NAME));
    let built = P::new(P::lf(v.re), P::lf(v.im));
    c.check(built.z().re == v.re && built.z().im == v.im, || format!("{} new{v:?}", P::NAME));
    let cj = c.call("conj", || p.conj()).z();
    c.check(cj.re == v.re && cj.im == -v.im, || format!("{} conj{v:?} = {cj:?}", P::NAME));
    let n2 = P::fl(c.call("norm_sq", || p.norm_sq()));
    c.within("squared modulus", (n2 - v.n2()).abs(), 4.0 * P::EPS * v.n2() + P::TINY, || format!("{} norm_sq{v:?} = {n2}", P::NAME));
    let n = P::fl(c.call("norm", || p.norm()));
    let tol = if v.n2() > P::TINY / P::EPS { 4.0 * P::EPS * v.abs() } else { P::TINY.sqrt() };
    c.within("modulus", (n - v.abs()).abs(), tol, || format!("{} norm{v:?} = {n}, expected {}", P::NAME, v.abs()));
    if k == 0 {
        c.check(n2 == v.n2(), || format!("{} norm_sq{v:?} = {n2}, expected exactly {}", P::NAME, v.n2()));
        c.count("exact integer squared moduli", 1);
    }
    if v.abs() > 0.0 {
        let ph = P::fl(c.call("phase", || p.phase()));
        let want = v.arg();
        c.check(ph.abs() <= PI + 4.0 * P::EPS * PI, || format!("{} phase{v:?} = {ph} outside (-pi, pi]", P::NAME));
        let mut d = (ph - want).abs();
        // on the negative real axis a signed zero decides between -pi and pi
        if v.im == 0.0 && v.re < 0.0 { d = d.min((ph + want).abs()); }
        c.within("phase", d, 4.0 * P::EPS * PI, || format!("{} phase{v:?} = {ph}, expected {want}", P::NAME));
        let back = c.call("newe", || P::newe(P::lf(n), P::lf(ph))).z();
        if v.n2() > P::TINY / P::EPS {
            c.within("polar round trip", back.dist(v), 40.0 * P::EPS * v.abs(), || format!("{} newe(norm, phase) of {v:?} = {back:?}", P::NAME));
        }
        let q = match (v.re >= 0.0, v.im >= 0.0) { (true, true) => "first quadrant", (false, true) => "second quadrant", (false, false) => "third quadrant", _ => "fourth quadrant" };
        c.count(q, 1);
    }
    c.sig(&[P::IS32 as u64, k as u64, v.re.to_bits() >> 51, v.im.to_bits() >> 51]);
    c.sample(|| format!("{} accessors of {v:?}", P::NAME));
}

fn polar<P: Prec>(c: &mut Ctx) {
    let e = if P::IS32 { 40.0 } else { 300.0 };
    let a = P::rnd(z(2f64.powf(c.rng.sf() * e), 0.0)).re;
    let p = match c.rng.below(4) { 0 => c.rng.below(17) as f64 * PI / 8.0 - PI, _ => c.rng.sf() * PI };
    let p = P::rnd(z(p, 0.0)).re;
    let v = c.call("newe", || P::newe(P::lf(a), P::lf(p))).z();
    let want = z(a * p.cos(), a * p.sin());
    c.within("polar construction", v.dist(want), 8.0 * P::EPS * a, || format!("{} newe({a},{p}) = {v:?}", P::NAME));
    let n = P::fl(P::of(v).norm());
    c.within("modulus of polar number", (n - a).abs(), 16.0 * P::EPS * a, || format!("{} norm(newe({a},{p})) = {n}", P::NAME));
    let ph = P::fl(P::of(v).phase());
    let mut d = (ph - p).abs();
    d = d.min((d - 2.0 * PI).abs());
    c.within("phase of polar number", d, 32.0 * P::EPS * PI, || format!("{} phase(newe({a},{p})) = {ph}", P::NAME));
    c.count("polar numbers", 1);
    c.sig(&[7, P::IS32 as u64, a.to_bits() >> 52, ((p + 4.0) * 8.0) as u64]);
    let u = P::unit().z(); let i = P::iunit().z();
    c.check(u == Z::ONE && i == Z::I && P::default().z() == Z::ZERO, || format!("{} constants {u:?} {i:?}", P::NAME));
    let n = c.rng.below(1 << 20);
    let v = P::usize_to_complex(n).z();
    c.check(v.re == n as f64 && v.im == 0.0, || format!("{} from integer {n}: {v:?}", P::NAME));
}

fn order<P: Prec>(c: &mut Ctx) {
    let (k1, k2) = (c.rng.below(6), c.rng.below(6));
    let a = point::<P>(c, k1);
    let mut b = point::<P>(c, k2);
    let twist = c.rng.below(6);
    // integers give exactly equal moduli for different points
    if k1 == 0 { match twist { 0 => b = a.conj(), 1 => b = -a, 2 => b = z(a.im, a.re), 3 => b = a, _ => {} } }
    if c.rng.chance(1, 6) { b = P::rnd(a.s(1.0 + c.rng.pick(&[-1.0, 1.0]) * 64.0 * P::EPS)); }
    let (na, nb) = (a.n2(), b.n2());
    if !(na < P::HUGE && nb < P::HUGE) { return; }
    if (na != 0.0 && na < P::TINY / P::EPS) || (nb != 0.0 && nb < P::TINY / P::EPS) { return; }
    let exact = k1 == 0 && (k2 == 0 || twist < 4) && b.re.fract() == 0.0 && b.im.fract() == 0.0;
    let want = if exact { na.partial_cmp(&nb).unwrap() }
        else if (na - nb).abs() <= 8.0 * P::EPS * na.max(nb) { c.count("too close to decide", 1); return }
        else { na.partial_cmp(&nb).unwrap() };
    let (pa, pb) = (P::of(a), P::of(b));
    let got = (pa < pb, pa <= pb, pa > pb, pa >= pb, pa.partial_cmp(&pb));
    let exp = (want == Ordering::Less, want != Ordering::Greater, want == Ordering::Greater, want != Ordering::Less, Some(want));
    c.check(got == exp, || format!("{} comparing {a:?} with {b:?}: (<,<=,>,>=,cmp) = {got:?}, moduli say {exp:?}", P::NAME));
    c.count(match want { Ordering::Less => "smaller", Ordering::Equal => "equal moduli", _ => "larger" }, 1);
    c.sig(&[5, P::IS32 as u64, k1 as u64, k2 as u64, a.re.to_bits() >> 53, b.re.to_bits() >> 53]);
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { access::<Cf32>(c) } else { access::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { polar::<Cf32>(c) } else { polar::<Cf64>(c) } }
fn f3(c: &mut Ctx) { if c.idx % 2 == 0 { order::<Cf32>(c) } else { order::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "accessors", quick: 1_500_000, thorough: 12_000_000, f: f1 },
    Stage { name: "polar", quick: 1_000_000, thorough: 8_000_000, f: f2 },
    Stage { name: "order", quick: 1_500_000, thorough: 12_000_000, f: f3 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C02",
        rule: "distinct (precision, kind of point, sign and leading exponent bits) of points or pairs compared",
        assumptions: &["squared moduli stay clear of overflow; the phase of zero is not compared"],
        stages: STAGES,
        must_observe: &["first quadrant", "second quadrant", "third quadrant", "fourth quadrant", "exact integer squared moduli", "polar numbers", "smaller", "equal moduli", "larger"],
    });
}
