//! C30: inputs of the wrong kind or size are refused.
use monitors::driver::{main as run, Plan};
use monitors::nets::*;
use monitors::refm::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage, Z};
use renplex::cvnn::layer::CLayer;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::opt::ComplexLossFunc as L;

/// Valid features for a layer, with a size of its own choosing where it has one.
fn valid<P: Prec>(c: &mut Ctx, s: &Spec) -> Feat {
    let d = match s {
        Spec::Dense { ni, .. } => InDim::V(*ni),
        Spec::Conv { c: n, kh, kw, .. } => InDim::M(*n, kh + c.rng.below(4), kw + c.rng.below(4)),
        Spec::Pool { n, bh, bw, .. } => InDim::M(*n, bh * c.rng.range(1, 3), bw * c.rng.range(1, 3)),
        Spec::Flat { h, w, n } => InDim::M(*n, *h, *w),
    };
    gen_input::<P>(&mut c.rng, d, Reg::Gauss)
}
fn noise<P: Prec>(c: &mut Ctx, r: usize, w: usize) -> Tab { tab::<P>(&mut c.rng, Reg::Gauss, r, w) }

/// One deviation from valid features; the layer must not accept the result.
fn deviate<P: Prec>(c: &mut Ctx, s: &Spec, x: &Feat) -> Option<(Feat, &'static str)> {
    match (s, x) {
        (Spec::Dense { .. }, Feat::V(v)) => Some(match c.rng.below(6) {
            0 => { let mut v = v.clone(); v.push(Z::ONE); (Feat::V(v), "vector one too long") }
            1 => { let mut v = v.clone(); v.pop(); (Feat::V(v), "vector one too short") }
            2 => { let n = v.len(); let mut w = v.clone(); w.extend(v.clone()); w.truncate(n + c.rng.range(2, 9).min(n.max(2))); if w.len() == n { w.push(Z::ONE); } (Feat::V(w), "vector much too long") }
            3 => (Feat::V(vec![]), "empty vector"),
            4 => (Feat::M(vec![Tab { r: 1, c: v.len(), v: v.clone() }]), "one map instead of a vector"),
            _ => (Feat::M(v.iter().map(|e| Tab { r: 1, c: 1, v: vec![*e] }).collect()), "maps instead of a vector"),
        }),
        (_, Feat::M(m)) => {
            let (r, w) = (m[0].r, m[0].c);
            match c.rng.below(9) {
                0 => Some((Feat::V(x.flat()), "vector instead of maps")),
                1 => { let mut m = m.clone(); let t = noise::<P>(c, r, w); m.push(t); Some((Feat::M(m), "one map too many")) }
                2 => { let mut m = m.clone(); m.pop(); Some((Feat::M(m), "one map too few")) }
                3 => { let mut k = m.clone(); k.extend(m.clone()); Some((Feat::M(k), "twice the maps")) }
                // one map of a different size than the others
                4 if m.len() > 1 => {
                    let i = c.rng.below(m.len());
                    let (dr, dw) = match s { Spec::Pool { bh, bw, .. } => if c.rng.chance(1, 2) { (*bh, 0) } else { (0, *bw) }, _ => if c.rng.chance(1, 2) { (1, 0) } else { (0, 1) } };
                    let mut k = m.clone();
                    k[i] = noise::<P>(c, r + dr, w + dw);
                    Some((Feat::M(k), "maps of unequal size"))
                }
                5 | 6 => match s {
                    Spec::Conv { kh, kw, .. } => {
                        let (h2, w2) = match c.rng.below(3) { 0 => (kh - 1, w), 1 => (r, kw - 1), _ => (kh - 1, kw - 1) };
                        if h2 == 0 || w2 == 0 { return None; }
                        Some((Feat::M((0..m.len()).map(|_| noise::<P>(c, h2, w2)).collect()), "maps smaller than the kernel"))
                    }
                    Spec::Pool { bh, bw, .. } => {
                        let (h2, w2) = match c.rng.below(3) { 0 => (r + c.rng.range(1, 3), w), 1 => (r, w + c.rng.range(1, 3)), _ => (r + 1, w + 1) };
                        if h2 % bh == 0 && w2 % bw == 0 { return None; }
                        Some((Feat::M((0..m.len()).map(|_| noise::<P>(c, h2, w2)).collect()), "maps not divisible by the block"))
                    }
                    Spec::Flat { .. } => {
                        let (h2, w2) = match c.rng.below(5) { 0 => (r + 1, w), 1 => (r, w + 1), 2 => (w, r), 3 => (r * w, 1), _ => (1, r * w) };
                        if (h2, w2) == (r, w) { return None; }
                        Some((Feat::M((0..m.len()).map(|_| noise::<P>(c, h2, w2)).collect()), "maps of another size than flatten expects"))
                    }
                    _ => None,
                },
                7 => Some((Feat::M(vec![]), "no maps")),
                // the same number of entries in another arrangement of maps
                _ => if m.len() == 1 && matches!(s, Spec::Flat { .. } | Spec::Conv { .. } | Spec::Pool { .. }) && r > 1 { Some((Feat::M((0..r).map(|_| noise::<P>(c, 1, w)).collect()), "rows as separate maps")) } else { None },
            }
        }
        _ => None,
    }
}

fn layers<P: Prec>(c: &mut Ctx) {
    let n = if c.big { c.rng.range(1, 40) } else { c.rng.range(1, 4) };
    let top = if c.big { large(&mut c.rng, 40) } else { 4 };
    let s = match c.rng.below(4) {
        0 => Spec::Dense { ni: size(c, 9, 600), no: size(c, 6, 100), act: c.rng.pick(&ACTS), init: Init::XaGU(3) },
        1 => Spec::Conv { c: n, f: c.rng.range(1, 4), kh: c.rng.range(1, top.min(12)), kw: c.rng.range(1, top.min(12)), act: c.rng.pick(&ACTS), init: Init::XaGU(3) },
        2 => Spec::Pool { n, bh: c.rng.range(1, top), bw: c.rng.range(1, top), kind: c.rng.pick(&POOLS), kernel: Tab::new(3, 3) },
        _ => Spec::Flat { h: c.rng.range(1, top + 1), w: c.rng.range(1, top + 1), n },
    };
    let mut seed = gen_seed(&mut c.rng);
    let l: CLayer<P> = s.lib::<P>(&mut seed);
    let good = valid::<P>(c, &s);
    let lg = lib_feat::<P>(&good);
    let want = c.ok(&format!("valid input to {s:?}"), || l.foward(&lg));
    let (bad, name) = match deviate::<P>(c, &s, &good) { Some(b) => b, None => return };
    let lb = lib_feat::<P>(&bad);
    c.refused(&format!("{} {s:?} fed with {name} {:?}", P::NAME, shape_of(&lb)), || l.foward(&lb));
    match &l {
        CLayer::Dense(d) => c.refused(&format!("{s:?} fed directly with {name}"), || d.forward(&lb)),
        CLayer::Convolutional(d) => c.refused(&format!("{s:?} fed directly with {name}"), || d.forward(&lb)),
        CLayer::Reduce(d) => c.refused(&format!("{s:?} fed directly with {name}"), || d.foward(&lb)),
        CLayer::Flatten(d) => c.refused(&format!("{s:?} fed directly with {name}"), || d.foward(&lb)),
    }
    let again = c.ok("valid input after a refused one", || l.foward(&lg));
    c.check(bits_of(&again) == bits_of(&want), || format!("{s:?}: output for a valid input changed after refusing {name}"));
    c.count(name, 1);
    let mut w = s.words(); w.push(monitors::rng::hash_bytes(name.as_bytes()));
    c.sig(&w);
    c.sample(|| format!("{} {s:?}: {name} refused", P::NAME));
}

fn networks<P: Prec>(c: &mut Ctx) {
    let o = NetOpts { acts: &ACTS, exact_pool: false, allow_maps: true, flat_end: c.rng.chance(3, 4), min_layers: 1, max_layers: if c.small { 3 } else { 5 }, max_ch: 3, max_dim: if c.small { 4 } else { 8 } };
    let (d, specs) = gen_net_for::<P>(c, &o, 1_000_000);
    let seed = gen_seed(&mut c.rng);
    let adj = gen_adj::<P>(&mut c.rng, &specs, Reg::Disc);
    let rl = reference::<P>(&specs, seed, &adj);
    let net = build::<P>(&specs, seed, &adj);
    let good = gen_input::<P>(&mut c.rng, d, Reg::Gauss);
    if !trace::<P>(&rl, &good).determined { c.count("undetermined points skipped", 1); return; }
    let lg = lib_feat::<P>(&good);
    let want = c.ok("valid input", || net.forward(&lg));
    // either a fault of the first layer, or one that only a later layer can notice
    let deep = c.rng.chance(1, 3) && matches!(good, Feat::M(_)) && specs.iter().any(|s| matches!(s, Spec::Flat { .. }));
    let (bad, name) = if deep {
        let m = good.maps();
        let (r, w) = (m[0].r + if c.rng.chance(1, 2) { 1 } else { 0 }, m[0].c + 1);
        (Feat::M((0..m.len()).map(|_| noise::<P>(c, r, w)).collect()), "maps of a size a later layer does not accept")
    } else { match deviate::<P>(c, &specs[0], &good) { Some(b) => b, None => return } };
    let lb = lib_feat::<P>(&bad);
    // a deep fault may be hidden by a pooling layer that drops nothing: decide by shapes
    if deep && accepts(&specs, &bad) { return; }
    let what = format!("{} {specs:?} fed with {name} {:?}", P::NAME, shape_of(&lb));
    c.refused(&what, || net.forward(&lb));
    c.refused(&format!("activations of {what}"), || net.collect_acts(lb.clone()));
    if !deep && specs.len() > 1 { let k = c.rng.range(1, specs.len() - 1); c.refused(&format!("interception at {k} of {what}"), || net.intercept(lb.clone(), k).map(|_| ())); }
    // one bad point anywhere in a batch
    let n = if c.big { large(&mut c.rng, 60) } else { c.rng.range(1, 4) };
    let at = c.rng.below(n);
    let mut ds = Dataset::<P, P>::new();
    for i in 0..n { ds.add_point((if i == at { lb.clone() } else { lg.clone() }, want.clone())); }
    for lf in [L::MeanSquare, L::NormCrossEntropy] { c.refused(&format!("loss of a batch with point {at} of {n}: {what}"), || net.loss(&ds, &lf)); }
    if matches!(want, IOType::Scalar(_)) { c.refused(&format!("accuracy of a batch with point {at} of {n}: {what}"), || Ok::<_, ()>(net.max_pred_test(&ds))); }
    let again = c.ok("valid input after a refused one", || net.forward(&lg));
    c.check(bits_of(&again) == bits_of(&want), || format!("prediction for a valid input changed after {what}"));
    c.count("networks", 1);
    if deep { c.count("faults only a later layer can notice", 1); }
    let mut w = words(&specs); w.push(monitors::rng::hash_bytes(name.as_bytes()));
    c.sig(&w);
}
/// Would this network accept features of this shape?
fn accepts(specs: &[Spec], x: &Feat) -> bool {
    let (mut h, mut w) = (x.maps()[0].r, x.maps()[0].c);
    for s in specs {
        match s {
            Spec::Conv { kh, kw, .. } => { if h < *kh || w < *kw { return false; } h = h - kh + 1; w = w - kw + 1; }
            Spec::Pool { bh, bw, .. } => { if h % bh != 0 || w % bw != 0 { return false; } h /= bh; w /= bw; }
            Spec::Flat { h: fh, w: fw, .. } => return h == *fh && w == *fw,
            Spec::Dense { .. } => return false,
        }
    }
    true
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { layers::<Cf32>(c) } else { layers::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { networks::<Cf32>(c) } else { networks::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "layers", quick: 200_000, thorough: 1_200_000, f: f1 },
    Stage { name: "large-layers", quick: 15_000, thorough: 100_000, f: f1 },
    Stage { name: "large-networks", quick: 5_000, thorough: 30_000, f: f2 },
    Stage { name: "networks", quick: 100_000, thorough: 600_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C30",
        rule: "distinct (layer or network, kind of deviation) that was refused",
        assumptions: &["a refusal is an error value or a panic", "maps have at least one row and column"],
        stages: STAGES,
        must_observe: &["vector one too long", "vector one too short", "empty vector", "one map instead of a vector", "vector instead of maps", "one map too many", "one map too few", "maps of unequal size", "maps smaller than the kernel", "maps not divisible by the block", "maps of another size than flatten expects", "networks", "faults only a later layer can notice"],
    });
}
