//! C01: complex arithmetic in every operator form.
use monitors::driver::{main as run, Plan};
use monitors::num::{z, Prec, Z};
use monitors::{Ctx, Outcome, Stage};
use renplex::math::cfloat::{Cf32, Cf64};

trait RefOps: Prec {
    fn r(op: usize, a: &Self, b: &Self) -> Self;
}
macro_rules! refops { ($t:ty) => { impl RefOps for $t {
    fn r(op: usize, a: &Self, b: &Self) -> Self { match op { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b } }
} } }
refops!(Cf32);
refops!(Cf64);

const OPS: [&str; 4] = ["+", "-", "*", "/"];
const FORMS: [&str; 3] = ["by value", "in place", "by reference"];

fn apply<P: RefOps>(op: usize, form: usize, a: P, b: P) -> P {
    match form {
        0 => match op { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b },
        1 => { let mut t = a; match op { 0 => t += b, 1 => t -= b, 2 => t *= b, _ => t /= b } t }
        _ => P::r(op, &a, &b),
    }
}
fn exact(op: usize, a: Z, b: Z) -> Z { match op { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b } }

/// Operand of one of several kinds; bounded so that squared moduli and products stay in range.
fn operand<P: Prec>(c: &mut Ctx, kind: usize) -> Z {
    let r = &mut c.rng;
    let e = if P::IS32 { 30.0 } else { 200.0 };
    let v = match kind {
        0 => z(r.below(41) as f64 - 20.0, r.below(41) as f64 - 20.0),
        1 => { let m = 2f64.powf(r.sf() * e); let p = r.f() * 6.283185307179586; z(m * p.cos(), m * p.sin()) }
        2 => { let m = 2f64.powf(r.sf() * 4.0); match r.below(4) { 0 => z(m, 0.0), 1 => z(-m, 0.0), 2 => z(0.0, m), _ => z(-0.0, -m) } }
        3 => { let m = 2f64.powf(r.sf() * 3.0); z(m, m * 2f64.powf(r.sf() * e * 0.5)) }
        4 => { let m = 2f64.powf(r.sf() * e * 2.0); let p = r.f() * 6.283185307179586; z(m * p.cos(), m * p.sin()) }
        _ => z(r.gauss(), r.gauss()),
    };
    P::rnd(v)
}

fn one<P: RefOps>(c: &mut Ctx) {
    let (k1, k2) = (c.rng.below(6), c.rng.below(6));
    let a = operand::<P>(c, k1);
    let mut b = operand::<P>(c, k2);
    match c.rng.below(12) { 0 => b = a, 1 => b = a.conj(), 2 => b = -a, 3 => b = Z::ONE, 4 => b = P::rnd(Z::I), _ => {} }
    let lim = P::HUGE.sqrt() / 4.0;
    let tiny = (P::TINY / P::EPS).sqrt();
    if !(a.abs() < lim && b.abs() < lim) || a.abs() * b.abs() > P::HUGE / 16.0 { c.count("skipped (operands out of range)", 1); return; }
    let ints = k1 == 0 && b.re.fract() == 0.0 && b.im.fract() == 0.0 && b.abs() < 100.0;
    for op in 0..4 {
        if op == 3 && b.abs() < tiny { continue; }
        if op == 2 && (a.abs() * b.abs()) != 0.0 && a.abs() * b.abs() < P::TINY / P::EPS { continue; }
        if op == 3 && (a.abs() / b.abs() > P::HUGE / 16.0 || (a.abs() != 0.0 && a.abs() / b.abs() < P::TINY / P::EPS)) { continue; }
        if op == 3 && a.abs() != 0.0 && a.abs() * b.abs() < P::TINY / P::EPS { continue; }
        let want = exact(op, a, b);
        let tol = match op {
            0 | 1 => P::EPS * (a.abs() + b.abs()),
            2 => 6.0 * P::EPS * a.abs() * b.abs(),
            _ => 12.0 * P::EPS * a.abs() / b.abs(),
        };
        for form in 0..3 {
            let got = c.call(OPS[op], || apply::<P>(op, form, P::of(a), P::of(b))).z();
            c.within(["sum", "difference", "product", "quotient"][op], (got - want).abs(), tol,
                || format!("{} {a:?} {} {b:?} ({}) = {got:?}, expected {want:?}", P::NAME, OPS[op], FORMS[form]));
            if ints && op < 3 {
                c.check(got.re == want.re && got.im == want.im, || format!("{} {a:?} {} {b:?} ({}) = {got:?}, expected exactly {want:?}", P::NAME, OPS[op], FORMS[form]));
                c.count("exact integer results", 1);
            }
            c.count(OPS[op], 1);
        }
    }
    c.sig(&[P::IS32 as u64, k1 as u64, k2 as u64, (a.re.to_bits() >> 52) , (b.im.to_bits() >> 52), (a.im > 0.0) as u64, (b.re > 0.0) as u64]);
    c.sample(|| format!("{} a={a:?} b={b:?}: four operators in three forms against an independent evaluation", P::NAME));
}

fn zero<P: RefOps>(c: &mut Ctx) {
    let k = c.rng.below(6);
    let a = operand::<P>(c, k);
    let b = z(c.rng.pick(&[0.0, -0.0]), c.rng.pick(&[0.0, -0.0]));
    for form in 0..3 {
        c.tally.evals += 1;
        match c.attempt(|| apply::<P>(3, form, P::of(a), P::of(b))) {
            Outcome::Ret(v) => c.fail(format!("{} {a:?} / zero ({}) produced {:?}", P::NAME, FORMS[form], v.z())),
            Outcome::Panic(_) => c.count("division by zero refused", 1),
        }
    }
    c.sig(&[9, P::IS32 as u64, k as u64]);
}

/// Long chains of in-place operations, compared step by step.
fn chain<P: RefOps>(c: &mut Ctx) {
    let mut acc = P::of(operand::<P>(c, 5));
    let n = if c.small { 6 } else { 40 };
    for _ in 0..n {
        let op = c.rng.below(4);
        let form = c.rng.below(3);
        let k = c.rng.pick(&[0usize, 2, 5]);
        let b = operand::<P>(c, k);
        let a = acc.z();
        if b.abs() < 1e-3 || a.abs() > 1e6 || a.abs() < 1e-6 { acc = P::of(operand::<P>(c, 5)); continue; }
        let want = exact(op, a, b);
        let got = c.call(OPS[op], || apply::<P>(op, form, acc, P::of(b)));
        let tol = match op { 0 | 1 => P::EPS * (a.abs() + b.abs()), 2 => 6.0 * P::EPS * a.abs() * b.abs(), _ => 12.0 * P::EPS * a.abs() / b.abs() };
        c.within("chained step", (got.z() - want).abs(), tol, || format!("{} {a:?} {} {b:?} ({}) = {:?}", P::NAME, OPS[op], FORMS[form], got.z()));
        c.count("chained steps", 1);
        acc = got;
    }
    c.sig(&[8, P::IS32 as u64, c.idx]);
}

fn both_one(c: &mut Ctx) { if c.idx % 2 == 0 { one::<Cf32>(c) } else { one::<Cf64>(c) } }
fn both_zero(c: &mut Ctx) { if c.idx % 2 == 0 { zero::<Cf32>(c) } else { zero::<Cf64>(c) } }
fn both_chain(c: &mut Ctx) { if c.idx % 2 == 0 { chain::<Cf32>(c) } else { chain::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "operators", quick: 2_000_000, thorough: 16_000_000, f: both_one },
    Stage { name: "chains", quick: 100_000, thorough: 800_000, f: both_chain },
    Stage { name: "division-by-zero", quick: 2_000, thorough: 10_000, f: both_zero },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C01",
        rule: "distinct (precision, operand kinds, binary exponents and signs) of operand pairs on which all operators and forms were compared with the reference",
        assumptions: &["operands and results whose squared moduli stay clear of overflow and underflow"],
        stages: STAGES,
        must_observe: &["+", "-", "*", "/", "exact integer results", "division by zero refused", "chained steps"],
    });
}
