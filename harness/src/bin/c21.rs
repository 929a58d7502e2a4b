//! C21: the random generator.
use monitors::driver::{main as run, Plan};
use monitors::{Ctx, Stage};
use renplex::math::random::{lcgf32, lcgf64, lcgi};

const M: u128 = (1 << 31) - 1; // number of generator states
const A: u128 = 1103515245;
const B: u128 = 12345;
fn pow(mut b: u128, mut e: u128) -> u128 { let mut r = 1; b %= M; while e > 0 { if e & 1 == 1 { r = r * b % M; } b = b * b % M; e >>= 1; } r }
/// A seed from which the published generator reaches `state` after `k` draws.
pub fn before(state: u128, k: usize) -> u128 { let inv = pow(A, M - 2); (0..k).fold(state % M, |s, _| (s + M - B) % M * inv % M) }

pub fn any_seed(c: &mut Ctx) -> u128 {
    let hi = M * (c.rng.u128() % (u128::MAX / M));
    match c.rng.below(12) {
        0 => c.rng.pick(&[0u128, 1, 2, M - 1, M, M + 1, 1 << 31, (1 << 31) + 1, 1 << 32, 1 << 63, u64::MAX as u128, (u64::MAX as u128) + 1, 1 << 127, u128::MAX - 1, u128::MAX, u128::MAX / A, u128::MAX / A + 1]),
        1 => { let t = c.rng.pick(&[0u128, 1, 2, M - 1, M - 2, M / 2, M / 2 + 1]); let k = c.rng.range(1, 6); before(t, k) }
        2 => { let t = c.rng.pick(&[0u128, 1, M - 1, M - 2]); let k = c.rng.range(1, 6); before(t, k) + hi }
        3 | 4 => c.rng.below(1000) as u128,
        5 => c.rng.u128(),
        6 => c.rng.u64() as u128,
        7 => { let s = c.rng.below(128); let v = 1u128 << s; if c.rng.chance(1, 2) { v } else { v - 1 } }
        _ => c.rng.u128() % M,
    }
}
fn limit(c: &mut Ctx) -> u128 {
    match c.rng.below(6) {
        0 => c.rng.range(1, 12) as u128,
        1 => c.rng.pick(&[1u128, 2, 3, 255, 256, 1 << 16, M - 1, M, M + 1, 1 << 32, 1 << 40, 1 << 62, 1 << 63]),
        2 => 1 + (c.rng.u64() >> 1) as u128,
        3 => 1 + (c.rng.u128() % M),
        _ => c.rng.range(1, 5000) as u128,
    }
}

/// One draw of each generator from the same seed.
fn draw(c: &mut Ctx) {
    let s = any_seed(c);
    let l = limit(c);
    c.sample(|| format!("one draw of each generator from seed {s}, below {l} for the integers"));
    let (mut s32, mut s64, mut si) = (s, s, s);
    let a = c.call("lcgf32", || lcgf32(&mut s32)) as f64;
    let b = c.call("lcgf64", || lcgf64(&mut s64));
    let i = c.call("lcgi", || lcgi(&mut si, l)) as u128;
    c.check(s32 == s64 && s32 == si, || format!("seed {s} becomes {s32} by lcgf32, {s64} by lcgf64 and {si} by lcgi"));
    c.check((0.0..=1.0).contains(&a) && (0.0..=1.0).contains(&b), || format!("seed {s}: draws {a} and {b}"));
    c.check(i < l, || format!("seed {s}: integer draw {i} with limit {l}"));
    let frac = s64 as f64 / M as f64;
    c.check(s64 <= M, || format!("seed {s} becomes {s64}, outside the generator's range"));
    c.within("double-precision draw", (b - frac).abs(), 2e-9, || format!("seed {s} becomes {s64}, draw {b}"));
    c.within("single-precision draw", (a - frac).abs(), 1.3e-7, || format!("seed {s} becomes {s32}, draw {a}"));
    let want = s64 as f64 / M as f64 * l as f64;
    c.within("integer draw", (i as f64 + 0.5 - want).abs(), 1.0 + l as f64 * 1e-8, || format!("seed {s} becomes {s64}, integer draw {i} with limit {l}, expected about {want}"));
    c.count("seeds drawn from", 1);
    if s >= M { c.count("seeds beyond the generator's range", 1); }
    if s > u128::MAX / A { c.count("seeds whose product exceeds 128 bits", 1); }
    if s64 == 0 { c.count("draws of exactly zero", 1); }
    if s64 >= M - 2 { c.count("draws at the top of the range", 1); }
    c.sig(&[s as u64, (s >> 64) as u64]);
}

/// Sequences mixing the generators: same history from the same seed, whatever else is drawn meanwhile.
fn sequence(c: &mut Ctx) {
    let s0 = any_seed(c);
    let kinds: Vec<(usize, u128)> = (0..c.rng.range(2, 40)).map(|_| (c.rng.below(3), limit(c))).collect();
    let play = |c: &mut Ctx, noise: bool| -> Vec<(u64, u128)> {
        let mut s = s0;
        let mut other = 7u128;
        kinds.iter().map(|(k, l)| {
            if noise { lcgf32(&mut other); lcgi(&mut other, 10); lcgf64(&mut other); }
            let v = c.call("draw", || match k { 0 => lcgf32(&mut s).to_bits() as u64, 1 => lcgf64(&mut s).to_bits(), _ => lcgi(&mut s, *l) as u64 });
            (v, s)
        }).collect()
    };
    let a = play(c, false);
    let b = play(c, true);
    c.check(a == b, || format!("two histories from seed {s0} differ: {a:?} {b:?}"));
    // every draw advances the seed the same way
    let mut s = s0;
    for (i, (_, after)) in a.iter().enumerate() { c.call("lcgf64", || lcgf64(&mut s)); c.check(s == *after, || format!("seed {s0}: after draw {i} the seed is {after}, by lcgf64 alone {s}")); }
    c.count("mixed sequences", 1);
    c.sig(&[s0 as u64, (s0 >> 64) as u64, kinds.len() as u64]);
}

/// Evenness of successive draws: Kolmogorov-Smirnov distance and evenness of integer draws.
fn spread(c: &mut Ctx) {
    let s0 = any_seed(c);
    let n = if c.small { 50 } else { 20_000 };
    let mut s = s0;
    let first = { let mut t = s0; lcgf64(&mut t); let u = t; lcgf64(&mut t); u == t };
    if first { c.count("fixed point skipped", 1); return; }
    let kind = c.rng.below(3);
    let l = c.rng.range(2, 20) as u128;
    let mut v = Vec::with_capacity(n);
    let mut hist = vec![0usize; l as usize];
    for _ in 0..n {
        match kind { 0 => v.push(c.call("lcgf32", || lcgf32(&mut s)) as f64), 1 => v.push(c.call("lcgf64", || lcgf64(&mut s))), _ => { let i = c.call("lcgi", || lcgi(&mut s, l)); c.check((i as u128) < l, || format!("integer draw {i} with limit {l}")); hist[i] += 1; } }
    }
    if c.small { return; }
    if kind < 2 {
        v.sort_by(f64::total_cmp);
        let d = v.iter().enumerate().map(|(i, x)| (x - i as f64 / n as f64).abs().max((x - (i + 1) as f64 / n as f64).abs())).fold(0.0, f64::max);
        c.within("evenness of float draws", d, 3.5 / (n as f64).sqrt(), || format!("{n} draws from seed {s0} are not spread evenly: largest deviation {d}"));
        c.count("float sequences tested for evenness", 1);
    } else {
        let p = 1.0 / l as f64;
        let sd = (n as f64 * p * (1.0 - p)).sqrt();
        for (i, h) in hist.iter().enumerate() { c.within("evenness of integer draws", (*h as f64 - n as f64 * p).abs(), 6.5 * sd, || format!("{h} of {n} integer draws with limit {l} from seed {s0} are {i}")); }
        c.count("integer sequences tested for evenness", 1);
    }
    c.sig(&[s0 as u64, (s0 >> 64) as u64, kind as u64]);
}

/// Thorough: every state of the generator, in blocks.
fn all_states(c: &mut Ctx) {
    let block = 1u128 << 16;
    let lo = c.idx as u128 * block;
    let mut bad = None;
    let mut n = 0u64;
    for s in lo..(lo + block).min(M) {
        let (mut s32, mut s64, mut si) = (s, s, s);
        let (a, b, i) = (lcgf32(&mut s32) as f64, lcgf64(&mut s64), lcgi(&mut si, 10) as u128);
        let frac = s64 as f64 / M as f64;
        let want = frac * 10.0;
        if s32 != s64 || s64 != si || !(0.0..=1.0).contains(&a) || !(0.0..=1.0).contains(&b) || i >= 10 || (a - frac).abs() > 1.3e-7 || (b - frac).abs() > 2e-9 || (i as f64 + 0.5 - want).abs() > 1.001 { bad = Some((s, a, b, i)); }
        n += 1;
    }
    c.check(bad.is_none(), || format!("state {:?}: draws out of range or inconsistent", bad));
    c.count("states enumerated", n);
    c.sig(&[lo as u64]);
}

pub const STAGES: &[Stage] = &[
    Stage { name: "draw", quick: 3_000_000, thorough: 15_000_000, f: draw },
    Stage { name: "sequence", quick: 150_000, thorough: 750_000, f: sequence },
    Stage { name: "spread", quick: 7_500, thorough: 40_000, f: spread },
    Stage { name: "all-states", quick: 2_048, thorough: 32_768, f: all_states },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C21",
        rule: "distinct seeds drawn from, plus blocks of 65536 generator states enumerated",
        assumptions: &["limits from 1 to 2^63", "evenness is tested with bounds that a random sequence exceeds with probability below 1e-9"],
        stages: STAGES,
        must_observe: &["seeds beyond the generator's range", "seeds whose product exceeds 128 bits", "draws of exactly zero", "draws at the top of the range", "mixed sequences", "float sequences tested for evenness", "integer sequences tested for evenness", "states enumerated"],
    });
}
