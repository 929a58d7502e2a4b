//! C35: zero, one, i and whole numbers.
use monitors::driver::{main as run, Plan};
use monitors::num::z;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage, Z};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::Real;

fn same(a: Z, b: Z) -> bool { a.re == b.re && a.im == b.im }

fn constants<P: Prec>(c: &mut Ctx) {
    let g = reg(&mut c.rng);
    let mut v = val::<P>(&mut c.rng, g);
    if c.rng.chance(1, 8) { v = P::rnd(z(v.re * 1e12, v.im * 1e-12)); }
    let x = P::of(v);
    let (zero, one, i) = (c.call("default", P::default), c.call("unit", P::unit), c.call("iunit", P::iunit));
    c.check(same(zero.z(), Z::ZERO), || format!("{}: default is {:?}", P::NAME, zero.z()));
    c.check(same(one.z(), Z::ONE), || format!("{}: unit is {:?}", P::NAME, one.z()));
    c.check(same(i.z(), z(0.0, 1.0)), || format!("{}: iunit is {:?}", P::NAME, i.z()));
    c.check(same((x + zero).z(), v) && same((zero + x).z(), v) && same((x - zero).z(), v), || format!("{}: adding zero changes {v:?}", P::NAME));
    c.check(same((zero - x).z(), z(-v.re, -v.im)), || format!("{}: zero minus {v:?} is {:?}", P::NAME, (zero - x).z()));
    c.check(same((x * zero).z(), Z::ZERO) && same((zero * x).z(), Z::ZERO), || format!("{}: {v:?} times zero is {:?}", P::NAME, (x * zero).z()));
    c.check(same((x * one).z(), v) && same((one * x).z(), v), || format!("{}: {v:?} times one is {:?}", P::NAME, (x * one).z()));
    c.check(same((x / one).z(), v), || format!("{}: {v:?} divided by one is {:?}", P::NAME, (x / one).z()));
    c.check(same((i * x).z(), z(-v.im, v.re)) && same((x * i).z(), z(-v.im, v.re)), || format!("{}: i times {v:?} is {:?}", P::NAME, (i * x).z()));
    c.check(same((i * i).z(), z(-1.0, 0.0)), || format!("{}: i times i is {:?}", P::NAME, (i * i).z()));
    // put together from its parts
    let made = c.call("new", || P::new(P::lf(v.re), P::lf(v.im)));
    c.check(made.bits() == x.bits(), || format!("{}: new({}, {}) is {:?}", P::NAME, v.re, v.im, made.z()));
    c.check(P::fl(x.re()) == v.re && P::fl(x.im()) == v.im, || format!("{}: parts of {v:?} read as {} and {}", P::NAME, P::fl(x.re()), P::fl(x.im())));
    c.count("numbers combined with the constants", 1);
    c.sig(&[P::IS32 as u64, v.re.to_bits(), v.im.to_bits()]);
}

/// The whole numbers nearest to what a precision can hold.
fn whole<P: Prec>(c: &mut Ctx) where P::Precision: Real {
    let n: usize = match c.rng.below(8) {
        0 => c.idx as usize / 2,
        1 => c.rng.below(300),
        2 => { let b = c.rng.below(64); (1usize << b).wrapping_add(c.rng.below(5)).wrapping_sub(2) }
        3 => c.rng.u64() as usize,
        4 => c.rng.pick(&[0, 1, 2, 255, 256, 16777215, 16777216, 16777217, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, u32::MAX as usize, usize::MAX]),
        _ => c.rng.below(1 << 24),
    };
    let want = if P::IS32 { (n as f32) as f64 } else { n as f64 };
    let a = c.call("usize_to_complex", || P::usize_to_complex(n));
    c.check(same(a.z(), z(want, 0.0)), || format!("{}: {n} becomes {:?}", P::NAME, a.z()));
    let r = P::fl(c.call("usize_to_real", || <P::Precision as Real>::usize_to_real(n)));
    c.check(r == want, || format!("{} part type: {n} becomes {r}", P::NAME));
    let u = P::fl(c.call("unit", <P::Precision as Real>::unit));
    c.check(u == 1.0, || format!("{} part type: unit is {u}", P::NAME));
    if n as f64 == want { c.count("whole numbers held exactly", 1); } else { c.count("whole numbers rounded", 1); }
    c.sig(&[P::IS32 as u64, n as u64]);
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { constants::<Cf32>(c) } else { constants::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { whole::<Cf32>(c) } else { whole::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "constants", quick: 500_000, thorough: 5_000_000, f: f1 },
    Stage { name: "whole", quick: 500_000, thorough: 5_000_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C35",
        rule: "distinct (precision, number) combined with the constants or converted",
        assumptions: &["0 and -0 are the same number", "operands whose squared modulus neither overflows nor underflows"],
        stages: STAGES,
        must_observe: &["numbers combined with the constants", "whole numbers held exactly", "whole numbers rounded"],
    });
}
