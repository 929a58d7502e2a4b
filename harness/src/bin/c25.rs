//! C25: signal-reconstruction batches.
use monitors::driver::{main as run, Plan};
use monitors::num::z;
use monitors::work::large;
use monitors::{Ctx, Stage, Z};
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::Cf32;

const FIXED: u128 = 1934915413;
const M: u128 = (1 << 31) - 1;
const WINDOW: f64 = 4.0 * std::f64::consts::PI;

fn pow(mut b: u128, mut e: u128) -> u128 { let mut r = 1; b %= M; while e > 0 { if e & 1 == 1 { r = r * b % M; } b = b * b % M; e >>= 1; } r }
fn before(state: u128, k: usize) -> u128 { let inv = pow(1103515245, M - 2); (0..k).fold(state % M, |s, _| (s + M - 12345) % M * inv % M) }
fn any_seed(c: &mut Ctx) -> u128 {
    let s = match c.rng.below(6) {
        0 => { let t = c.rng.pick(&[0u128, 0, M - 1, M - 2]); let k = c.rng.range(1, 60); before(t, k) }
        1 => c.rng.u128(),
        2 => c.rng.below(100) as u128,
        _ => c.rng.u128() % M,
    };
    if s % M == FIXED { 42 } else { s }
}
type Points = Vec<(Vec<Z>, Vec<Z>)>;
/// Points of one batch, after checking that both sides are vectors.
fn points(c: &mut Ctx, d: &Dataset<Cf32, Cf32>, who: &str) -> Points {
    let mut out = Vec::new();
    for i in 0..d.get_n_points() {
        let (x, t) = d.get_point(i);
        match (x, t) {
            (IOType::Scalar(a), IOType::Scalar(b)) => out.push((a.iter().map(|v| z(v.x as f64, v.y as f64)).collect(), b.iter().map(|v| z(v.x as f64, v.y as f64)).collect())),
            _ => c.fail(format!("{who}: point {i} is not a pair of vectors")),
        }
    }
    out
}
fn bits(d: &Dataset<Cf32, Cf32>) -> Vec<u64> {
    let (a, b) = d.points_as_iter();
    a.chain(b).flat_map(|x| { let v = x.to_vec(); let mut o = vec![v.len() as u64]; o.extend(v.iter().map(|v| (v.x.to_bits() as u64) << 32 | v.y.to_bits() as u64)); o }).collect()
}

/// Largest distance to the best approximation by a polynomial of degree 12 after turning by the middle
/// frequency: sums of waves at 0.1 to 1 radian per unit are such polynomials to within 1e-7.
fn roughness(t: &[Z]) -> f64 {
    let n = t.len();
    let deg = 12usize;
    let u: Vec<f64> = (0..n).map(|i| 2.0 * i as f64 / n as f64 - 1.0).collect();
    let y: Vec<Z> = (0..n).map(|i| { let p = -0.55 * WINDOW * i as f64 / n as f64; t[i] * z(p.cos(), p.sin()) }).collect();
    // orthonormal polynomials on the samples (Gram-Schmidt, twice for stability)
    let mut q: Vec<Vec<f64>> = Vec::new();
    for d in 0..=deg {
        let mut v: Vec<f64> = if d == 0 { vec![1.0; n] } else { (0..n).map(|i| u[i] * q[d - 1][i]).collect() };
        for _ in 0..2 { for b in &q { let s: f64 = v.iter().zip(b).map(|(a, b)| a * b).sum(); for i in 0..n { v[i] -= s * b[i]; } } }
        let s = v.iter().map(|a| a * a).sum::<f64>().sqrt();
        for a in v.iter_mut() { *a /= s; }
        q.push(v);
    }
    let mut r = y.clone();
    for b in &q { let s: Z = y.iter().zip(b).map(|(a, b)| a.s(*b)).sum(); for i in 0..n { r[i] = r[i] - s.s(b[i]); } }
    r.iter().map(|v| v.abs()).fold(0.0, f64::max)
}
/// Frequency of a signal that is a single wave.
fn single(t: &[Z]) -> Option<f64> {
    if t.len() < 8 || t.iter().any(|v| (v.abs() - 1.0).abs() > 2e-5) { return None; }
    let n = t.len();
    let step = |i: usize| (t[i + 1] * t[i].conj()).arg();
    let mean = (0..n - 1).map(step).sum::<f64>() / (n - 1) as f64;
    if (0..n - 1).any(|i| (step(i) - mean).abs() > 2e-5) { return None; }
    Some(mean * n as f64 / WINDOW)
}

struct Noise { n: f64, s: f64 }

fn judge(c: &mut Ctx, p: &Points, samples: usize, batch: usize, level: f64, who: &str) -> Noise {
    c.check(p.len() == batch, || format!("{who}: {} points, {batch} requested", p.len()));
    let mut nz = Noise { n: 0.0, s: 0.0 };
    for (i, (x, t)) in p.iter().enumerate() {
        c.check(x.len() == samples && t.len() == samples, || format!("{who}: point {i} has {} input and {} target samples, {samples} requested", x.len(), t.len()));
        c.check(x.iter().chain(t).all(|v| v.finite()), || format!("{who}: point {i} is not finite"));
        if samples == 0 { continue; }
        let peak = t.iter().map(|v| v.abs()).fold(0.0, f64::max);
        c.within("peak", (peak - 1.0).abs(), 1e-6, || format!("{who}: target {i} has peak modulus {peak}"));
        for (a, b) in x.iter().zip(t) {
            let d = a.dist(*b);
            if level == 0.0 { c.check(d == 0.0, || format!("{who}: noise {d} at level 0 in point {i}")); }
            else { c.check(d <= 20.0 * level + 1e-6, || format!("{who}: noise {d} at level {level} in point {i}")); nz.n += 1.0; nz.s += (d / level).powi(2).min(64.0); }
        }
        c.count("targets judged", 1);
        if samples >= 40 {
            let r = roughness(t);
            c.within("distance from slow waves", r, 2e-4, || format!("{who}: target {i} is not a sum of waves at 0.1 to 1 radian per unit: residual {r}"));
            c.count("targets compared with slow waves", 1);
        }
        if let Some(w) = single(t) {
            if samples >= 20 { c.check((0.0995..=1.0005).contains(&w), || format!("{who}: target {i} rotates at {w} radian per unit")); c.count("targets that are a single wave", 1); }
        }
    }
    if samples >= 4 { for i in 1..p.len() { for j in 0..i.min(20) { c.check(p[i].1 != p[j].1, || format!("{who}: points {j} and {i} have the same target")); } } }
    nz
}

fn batches(c: &mut Ctx) {
    let samples = if c.big { large(&mut c.rng, 3000) } else if c.small { c.rng.range(0, 9) } else { match c.rng.below(5) { 0 => c.rng.below(8), 1 => c.rng.range(8, 41), 2 => c.rng.pick(&[100usize, 101, 127, 128]), _ => c.rng.range(40, 120) } };
    let batch = if c.big { if samples > 150 { c.rng.range(1, 12) } else { large(&mut c.rng, 500) } } else if c.small { 2 } else { c.rng.pick(&[0usize, 1, 2, 5, 12, 30]) };
    let level = match c.rng.below(5) { 0 => 0.0, 1 => 1e-3, 2 => c.rng.f() as f32, 3 => 0.1, _ => (c.rng.f() * 5.0) as f32 + 1e-3 };
    let level = if level != 0.0 && level < 1e-3 { 1e-3 } else { level };
    let (s1, s2) = (any_seed(c), any_seed(c));
    let who = format!("{samples} samples, {batch} points, noise {level}, seeds {s1} {s2}");
    let (mut a, mut b) = (s1, s2);
    let (tr, te) = c.call("signal_reconstruction", || Dataset::signal_reconstruction(samples, batch, level, &mut a, &mut b));
    let (ptr, pte) = (points(c, &tr, &who), points(c, &te, &who));
    for (p, name) in [(&ptr, "training"), (&pte, "test")] {
        let nz = judge(c, p, samples, batch, level as f64, &format!("{name} batch: {who}"));
        if nz.n >= 300.0 {
            let rms = (nz.s / nz.n).sqrt();
            // the noise grows by a twentieth with the amplitude, so the root mean square is 1 to 1.05
            let slack = 7.0 * (0.5 / nz.n).sqrt() + 0.02;
            c.check(rms > 1.0 - slack && rms < 1.05 * (1.0 + slack), || format!("{name} batch: {who}: noise has {rms} times the requested level over {} samples", nz.n));
            c.count("noise levels measured", 1);
        }
    }
    if level == 0.0 { c.count("batches without noise", 1); }
    if samples % 2 == 1 { c.count("odd sample counts", 1); }
    // again
    let (mut a2, mut b2) = (s1, s2);
    let (tr2, te2) = c.call("signal_reconstruction", || Dataset::signal_reconstruction(samples, batch, level, &mut a2, &mut b2));
    c.check(bits(&tr) == bits(&tr2) && bits(&te) == bits(&te2) && a == a2 && b == b2, || format!("two batches from the same arguments and seeds differ: {who}"));
    c.count("batches repeated", 1);
    // another seed for one of the batches leaves the signals of the other alone
    if batch > 0 && samples >= 4 {
        let (n1, n2) = (any_seed(c), any_seed(c));
        let (mut a4, mut b4) = (s1, n2);
        let (tr4, te4) = c.call("signal_reconstruction", || Dataset::signal_reconstruction(samples, batch, level, &mut a4, &mut b4));
        let (mut a5, mut b5) = (n1, s2);
        let (tr5, te5) = c.call("signal_reconstruction", || Dataset::signal_reconstruction(samples, batch, level, &mut a5, &mut b5));
        let same = [n1 % M == s1 % M, n2 % M == s2 % M];
        for (p, q, r, other, name) in [(&ptr, &tr4, &tr5, "test", "training"), (&pte, &te5, &te4, "training", "test")] {
            let q = points(c, q, &who);
            c.check(q.len() == p.len() && q.iter().zip(p.iter()).all(|(q, p)| q.1 == p.1), || format!("another {other} seed changes the {name} targets: {who}"));
            let r = points(c, r, &who);
            c.check(same[(name == "test") as usize] || r[0].1 != p[0].1, || format!("another {name} seed gives the same {name} targets: {who}"));
        }
        c.count("seeds exchanged", 1);
    }
    // and the next batch is another one
    if batch > 0 && samples >= 4 {
        let (tr3, te3) = c.call("signal_reconstruction", || Dataset::signal_reconstruction(samples, batch, level, &mut a, &mut b));
        let (q, r) = (points(c, &tr3, &who), points(c, &te3, &who));
        c.check(q.len() == batch && r.len() == batch && q[0].1 != ptr[0].1 && r[0].1 != pte[0].1, || format!("the next batch repeats the signals: {who}"));
        c.count("following batches", 1);
    }
    c.sig(&[samples as u64, batch as u64, level.to_bits() as u64, s1 as u64]);
    c.sample(|| who.clone());
}

/// The noise of a long batch: normal, growing by a twentieth with the amplitude, without a preferred direction.
fn noise(c: &mut Ctx) {
    let (samples, batch) = if c.small { (20, 2) } else { (c.rng.range(5000, 9000), c.rng.range(12, 20)) };
    let level = (c.rng.f() * 2.0) as f32 + 0.05;
    let (s1, s2) = (any_seed(c), any_seed(c));
    let who = format!("{samples} samples, {batch} points, noise {level}, seeds {s1} {s2}");
    let (mut a, mut b) = (s1, s2);
    let (tr, te) = c.call("signal_reconstruction", || Dataset::signal_reconstruction(samples, batch, level, &mut a, &mut b));
    for (d, name) in [(&tr, "training"), (&te, "test")] {
        let p = points(c, d, &who);
        let (mut n, mut m2, mut m4, mut beyond, mut mean, mut square) = (0.0, 0.0, 0.0, 0.0, z(0.0, 0.0), z(0.0, 0.0));
        let (mut pair, mut pairs) = (0.0, 0.0);
        for (x, t) in &p { let mut last = f64::NAN; for (x, t) in x.iter().zip(t) {
            let e = (*x - *t).s(1.0 / (level as f64 * (1.0 + t.abs() / 20.0)));
            // a draw of zero gives a single deviation of 13
            let e = if e.abs() > 5.0 { e.s(5.0 / e.abs()) } else { e };
            let r = e.abs();
            n += 1.0; m2 += r * r; m4 += r.powi(4); if r > 1.0 { beyond += 1.0; }
            mean = mean + e; square = square + e * e;
            let over = if r > 0.6745 { 1.0 } else { -1.0 };
            if last.is_finite() { pair += over * last; pairs += 1.0; }
            last = over;
        } }
        if c.small { continue; }
        let (m2, m4, beyond, mean, square) = (m2 / n, m4 / n, beyond / n, mean.abs() / n, square.abs() / n);
        let s = 1.0 / f64::sqrt(n);
        let at = format!("{name} batch: {who}, {n} samples");
        c.within("variance of the noise", (m2 - 1.0).abs(), 14.0 * s, || format!("{at}: variance of the noise is {m2} of what is requested"));
        c.within("fourth moment of the noise", (m4 - 3.0).abs(), 130.0 * s, || format!("{at}: fourth moment of the noise is {m4}"));
        c.within("noise beyond one deviation", (beyond - 0.3173).abs(), 6.0 * s, || format!("{at}: {beyond} of the noise lies beyond one deviation"));
        c.within("mean of the noise", mean, 14.0 * s, || format!("{at}: the mean of the noise has size {mean}"));
        c.within("direction of the noise", square, 18.0 * s, || format!("{at}: the noise prefers a direction by {square}"));
        c.within("noise of neighbours", (pair / pairs).abs(), 12.0 * s, || format!("{at}: neighbouring noise is correlated by {}", pair / pairs));
        c.count("noise distributions measured", 1);
    }
    c.sig(&[samples as u64, batch as u64, level.to_bits() as u64, s1 as u64]);
}

/// The noise at every place of short signals, and in every part of a long batch.
fn places(c: &mut Ctx) {
    let (samples, batch) = (c.rng.range(1, 9), if c.small { 3 } else { c.rng.range(20_000, 24_000) });
    let level = (c.rng.f() * 2.0) as f32 + 0.05;
    let (s1, s2) = (any_seed(c), any_seed(c));
    let who = format!("{samples} samples, {batch} points, noise {level}, seeds {s1} {s2}");
    let (mut a, mut b) = (s1, s2);
    let (tr, te) = c.call("signal_reconstruction", || Dataset::signal_reconstruction(samples, batch, level, &mut a, &mut b));
    for (d, name) in [(&tr, "training"), (&te, "test")] {
        let p = points(c, d, &who);
        if c.small { continue; }
        c.check(p.len() == batch && p.iter().all(|(x, t)| x.len() == samples && t.len() == samples), || format!("{name} batch: {who}: not as many points or samples as requested"));
        // number, squares, sum, sum of squares
        let mut sums = vec![(0.0, 0.0, z(0.0, 0.0), z(0.0, 0.0)); samples + 4];
        let (mut pair, mut last) = (vec![0.0; samples], vec![0.0; samples]);
        for (i, (x, t)) in p.iter().enumerate() { for k in 0..samples {
            let e = (x[k] - t[k]).s(1.0 / (level as f64 * (1.0 + t[k].abs() / 20.0)));
            let e = if e.abs() > 5.0 { e.s(5.0 / e.abs()) } else { e };
            for q in [k, samples + i * 4 / batch] { let u = &mut sums[q]; u.0 += 1.0; u.1 += e.abs().powi(2); u.2 = u.2 + e; u.3 = u.3 + e * e; }
            let over = if e.abs() > 0.6745 { 1.0 } else { -1.0 };
            pair[k] += over * last[k];
            last[k] = over;
        } }
        for (q, u) in sums.iter().enumerate() {
            let at = if q < samples { format!("{name} batch: {who}: sample {q}") } else { format!("{name} batch: {who}: quarter {}", q - samples) };
            let s = 1.0 / f64::sqrt(u.0);
            let (m2, mean, square) = (u.1 / u.0, u.2.abs() / u.0, u.3.abs() / u.0);
            c.within("variance of the noise", (m2 - 1.0).abs(), 14.0 * s, || format!("{at}: variance of the noise is {m2} of what is requested"));
            c.within("mean of the noise", mean, 14.0 * s, || format!("{at}: the mean of the noise has size {mean}"));
            c.within("direction of the noise", square, 18.0 * s, || format!("{at}: the noise prefers a direction by {square}"));
        }
        for k in 0..samples { c.within("noise of neighbouring points", (pair[k] / batch as f64).abs(), 12.0 / f64::sqrt(batch as f64), || format!("{name} batch: {who}: the noise of sample {k} in neighbouring points is correlated by {}", pair[k] / batch as f64)); }
        c.count("places of noise measured", samples as u64);
    }
    c.sig(&[7, samples as u64, batch as u64, level.to_bits() as u64, s1 as u64]);
}

/// The two waves a signal consists of, as (rate, amplitude), if it does: each sample is then a fixed
/// combination of the ones one and two lags before it.
fn double(t: &[Z]) -> Option<[(f64, f64); 2]> {
    let n = t.len();
    let d = n / 6;
    let (mut aa, mut ab, mut bb, mut ay, mut by) = (0.0, Z::ZERO, 0.0, Z::ZERO, Z::ZERO);
    for i in 0..n - 2 * d {
        let (a, b, y) = (t[i + d], t[i], t[i + 2 * d]);
        aa += a.n2(); bb += b.n2(); ab = ab + a.conj() * b; ay = ay + a.conj() * y; by = by + b.conj() * y;
    }
    let det = aa * bb - ab.n2();
    if det < 1e-4 * aa * bb { return None; }
    let c1 = (ay.s(bb) - ab * by).s(1.0 / det);
    let c0 = (by.s(aa) - ab.conj() * ay).s(1.0 / det);
    if (0..n - 2 * d).any(|i| t[i + 2 * d].dist(c1 * t[i + d] + c0 * t[i]) > 1e-5) { return None; }
    // x^2 = c1 x + c0
    let q = c1 * c1 + c0.s(4.0);
    let (m, h) = (q.abs().sqrt(), q.arg() / 2.0);
    let root = z(m * h.cos(), m * h.sin());
    let (x1, x2) = ((c1 + root).s(0.5), (c1 - root).s(0.5));
    let lag = WINDOW * d as f64 / n as f64;
    let (w1, w2) = (x1.arg() / lag, x2.arg() / lag);
    if x1.dist(x2) < 0.2 { return None; }
    // amplitudes from the first two lags
    let a1 = (t[d] - x2 * t[0]) * (x1 - x2).conj();
    let a1 = a1.abs() / (x1 - x2).n2();
    let a2 = (t[d] - x1 * t[0]).abs() / (x1 - x2).abs();
    Some([(w1, a1), (w2, a2)])
}

/// The waves of many signals: how many, how fast, how strong and where they start.
fn waves(c: &mut Ctx) {
    let (samples, batch) = if c.small { (48, 3) } else { (c.rng.range(44, 60), 60_000) };
    let (s1, s2) = (any_seed(c), any_seed(c));
    let who = format!("{samples} samples, {batch} points, seeds {s1} {s2}");
    let (mut a, mut b) = (s1, s2);
    let (tr, te) = c.call("signal_reconstruction", || Dataset::signal_reconstruction(samples, batch, 0.0, &mut a, &mut b));
    for (d, name) in [(&tr, "training"), (&te, "test")] {
        let p = points(c, d, &who);
        let (mut ones, mut twos, mut apart, mut weak, mut ratio) = (0.0, 0.0, 0.0, 0.0, 0.0);
        let (mut w1, mut w2, mut thirds) = (0.0, 0.0, [0.0f64; 3]);
        let (mut d1, mut d2) = (Z::ZERO, Z::ZERO);
        for (_, t) in &p {
            if let Some(w) = single(t) {
                let u = (w - 0.1) / 0.9;
                ones += 1.0; w1 += u; w2 += u * u; thirds[((u * 3.0).max(0.0) as usize).min(2)] += 1.0;
                let q = t[0].s(1.0 / t[0].abs());
                d1 = d1 + q; d2 = d2 + q * q;
            } else if let Some([x, y]) = double(t) {
                twos += 1.0;
                let (lo, hi) = (x.1.min(y.1), x.1.max(y.1));
                if lo < 0.099 * hi { weak += 1.0; }
                ratio += lo / hi;
                if x.0 < 0.09 || x.0 > 1.01 || y.0 < 0.09 || y.0 > 1.01 { apart += 1.0; }
            }
        }
        if c.small { continue; }
        let n = p.len() as f64;
        let at = format!("{name} batch: {who}");
        let k = 1.0 / f64::sqrt(f64::max(ones, 1.0));
        let sigma = f64::sqrt(7.0 / 64.0 / n);
        c.within("single waves", (ones / n - 0.125).abs(), 7.0 * sigma, || format!("{at}: {} of the signals are single waves", ones / n));
        c.within("pairs of waves", (twos / n - 0.1023).abs(), 0.012, || format!("{at}: {} of the signals are recognised as two waves, expected 0.102", twos / n));
        c.within("weak waves", weak / f64::max(twos, 1.0), 0.01, || format!("{at}: {weak} of {twos} pairs of waves have amplitudes more than ten times apart"));
        c.within("rates out of range", apart / f64::max(twos, 1.0), 0.01, || format!("{at}: {apart} of {twos} pairs of waves rotate outside of 0.1 to 1 radian per unit"));
        c.within("amplitude ratio", (ratio / f64::max(twos, 1.0) - 0.5845).abs(), 0.03, || format!("{at}: mean amplitude ratio {} in {twos} pairs of waves", ratio / twos));
        c.within("mean rate", (w1 / ones - 0.5).abs(), 2.6 * k, || format!("{at}: rates of {ones} single waves average to {} of their range", w1 / ones));
        c.within("mean squared rate", (w2 / ones - 1.0 / 3.0).abs(), 2.7 * k, || format!("{at}: squared rates of {ones} single waves average to {} of their range", w2 / ones));
        for t in thirds { c.within("rates per third", (t / ones - 1.0 / 3.0).abs(), 4.2 * k, || format!("{at}: thirds of the range hold {thirds:?} of {ones} single waves")); }
        c.within("starting phases", d1.abs() / ones, 7.0 * k, || format!("{at}: starting phases of {ones} single waves prefer a direction by {}", d1.abs() / ones));
        c.within("starting phases, doubled", d2.abs() / ones, 7.0 * k, || format!("{at}: starting phases of {ones} single waves prefer an axis by {}", d2.abs() / ones));
        c.count("wave distributions measured", 1);
    }
    c.sig(&[samples as u64, batch as u64, s1 as u64]);
}

pub const STAGES: &[Stage] = &[
    Stage { name: "waves", quick: 24, thorough: 400, f: waves },
    Stage { name: "noise", quick: 160, thorough: 2_400, f: noise },
    Stage { name: "places", quick: 60, thorough: 1_200, f: places },
    Stage { name: "batches", quick: 30_000, thorough: 150_000, f: batches },
    Stage { name: "large-batches", quick: 1_500, thorough: 10_000, f: batches },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C25",
        rule: "distinct (samples, points, noise level, seed)",
        assumptions: &["the noise level is measured on 300 samples or more, with bounds that a random sample exceeds with probability below 1e-8", "slow waves are recognised from 40 samples on", "the generator's fixed point is left out"],
        stages: STAGES,
        must_observe: &["targets judged", "targets compared with slow waves", "targets that are a single wave", "noise levels measured", "noise distributions measured", "places of noise measured", "wave distributions measured", "batches without noise", "odd sample counts", "batches repeated", "seeds exchanged", "following batches"],
    });
}
