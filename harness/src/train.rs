//! Monitoring of training steps: what every parameter should become, and reading what it became.
use crate::driver::Ctx;
use crate::nets::*;
use crate::num::{Prec, Z};
use crate::refm::*;
use crate::work::*;
use renplex::cvnn::layer::CLayer;
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::opt::ComplexLossFunc as L;

pub struct Batch { pub xs: Vec<Feat>, pub ts: Vec<Feat> }
impl Batch {
    pub fn lib<P: Prec>(&self) -> Dataset<P, P> {
        let mut d = Dataset::new();
        for (x, t) in self.xs.iter().zip(&self.ts) { d.add_point((lib_feat::<P>(x), lib_feat::<P>(t))); }
        d
    }
}

/// Points at which the network is smooth and its value determined. None if they are hard to find.
pub fn gen_batch<P: Prec>(c: &mut Ctx, rl: &[RLayer], d: InDim, n: usize, g: Reg) -> Option<Batch> {
    let mut b = Batch { xs: vec![], ts: vec![] };
    let mut tries = 0;
    while b.xs.len() < n {
        tries += 1;
        if tries > 3 * n + 10 { return None; }
        // now and then an input that is already there, with a target of its own
        let x = if !b.xs.is_empty() && c.rng.chance(1, 6) { let i = c.rng.below(b.xs.len()); if i + 1 == b.xs.len() { c.count("inputs repeated", 1); } b.xs[i].clone() } else { gen_input::<P>(&mut c.rng, d, g) };
        let t = trace::<P>(rl, &x);
        if !t.determined || !t.smooth { continue; }
        let t = match t.feats.last().unwrap() {
            Feat::V(v) => Feat::V(vals::<P>(&mut c.rng, Reg::Disc, v.len())),
            Feat::M(m) => Feat::M(m.iter().map(|t| tab::<P>(&mut c.rng, Reg::Disc, t.r, t.c)).collect()),
        };
        b.xs.push(x); b.ts.push(t);
    }
    Some(b)
}

/// Mean gradient of every layer over the batch with error bounds. The derivative of the loss at the
/// output is the library's own (it is monitored separately), taken at the library's prediction.
pub struct MeanGrad { pub w: Vec<Vec<Z>>, pub b: Vec<Vec<Z>>, pub wt: Vec<Vec<f64>>, pub bt: Vec<Vec<f64>> }
pub fn mean_grad<P: Prec>(c: &mut Ctx, net: &CNetwork<P>, rl: &[RLayer], batch: &Batch, lf: &L) -> MeanGrad {
    let n = batch.xs.len() as f64;
    let mut acc: Option<MeanGrad> = None;
    for (x, t) in batch.xs.iter().zip(&batch.ts) {
        let tr = trace::<P>(rl, x);
        let pred = c.ok("forward", || net.forward(&lib_feat::<P>(x)));
        let lt = lib_feat::<P>(t);
        let g0 = ref_vec(&c.ok("loss derivative", || P::d_loss(&lt, &pred, lf)));
        let outs = tr.feats.last().unwrap().flat().len();
        c.check(g0.len() == outs, || format!("{} loss derivatives for {outs} outputs", g0.len()));
        let zeros = vec![0.0; g0.len()];
        let gs = back_net::<P>(rl, &tr, g0, zeros);
        if acc.is_none() {
            acc = Some(MeanGrad {
                w: gs.iter().map(|g| vec![Z::ZERO; g.g.w.len()]).collect(), b: gs.iter().map(|g| vec![Z::ZERO; g.g.b.len()]).collect(),
                wt: gs.iter().map(|g| vec![0.0; g.g.w.len()]).collect(), bt: gs.iter().map(|g| vec![0.0; g.g.b.len()]).collect(),
            });
        }
        let a = acc.as_mut().unwrap();
        let round = 4.0 * P::EPS * (n + 4.0);
        for (k, g) in gs.iter().enumerate() {
            for i in 0..g.g.w.len() { a.w[k][i] = a.w[k][i] + g.g.w[i].s(1.0 / n); a.wt[k][i] += (g.tol.w[i].re + round * g.g.w[i].abs()) / n; }
            for i in 0..g.g.b.len() { a.b[k][i] = a.b[k][i] + g.g.b[i].s(1.0 / n); a.bt[k][i] += (g.tol.b[i].re + round * g.g.b[i].abs()) / n; }
        }
    }
    acc.unwrap()
}
pub fn biggest(m: &MeanGrad) -> f64 { m.w.iter().chain(&m.b).flatten().map(|v| v.abs()).fold(0.0, f64::max) }
pub fn length2(m: &MeanGrad) -> f64 { m.w.iter().chain(&m.b).flatten().map(|v| v.n2()).sum() }

/// The reference network after the step, and bounds on the error of its parameters (as a network of
/// the same shape with real entries).
pub fn stepped<P: Prec>(rl: &[RLayer], m: &MeanGrad, lr: Z) -> (Vec<RLayer>, Vec<RLayer>) {
    let mut new = rl.to_vec();
    let mut err = rl.to_vec();
    let up = |p: &mut Z, e: &mut Z, g: Z, t: f64| {
        let d = lr * g;
        *e = crate::num::z(lr.abs() * t + 4.0 * P::EPS * (p.abs() + 4.0 * d.abs()) + P::TINY, 0.0);
        *p = *p - d.conj();
    };
    for k in 0..rl.len() {
        match (&mut new[k], &mut err[k]) {
            (RLayer::Dense { w, b, .. }, RLayer::Dense { w: ew, b: eb, .. }) => {
                for i in 0..w.len() { up(&mut w[i], &mut ew[i], m.w[k][i], m.wt[k][i]); }
                for i in 0..b.len() { up(&mut b[i], &mut eb[i], m.b[k][i], m.bt[k][i]); }
            }
            (RLayer::Conv { k: ks, b, .. }, RLayer::Conv { k: eks, b: eb, .. }) => {
                let mut n = 0;
                for (f, ef) in ks.iter_mut().zip(eks.iter_mut()) { for (t, et) in f.iter_mut().zip(ef.iter_mut()) { for i in 0..t.v.len() { up(&mut t.v[i], &mut et.v[i], m.w[k][n], m.wt[k][n]); n += 1; } } }
                for i in 0..b.len() { up(&mut b[i], &mut eb[i], m.b[k][i], m.bt[k][i]); }
            }
            _ => {}
        }
    }
    (new, err)
}

/// Inputs that expose single parameters of a layer: nothing, one entry at a time in four directions, and noise.
pub fn probes<P: Prec>(c: &mut Ctx, s: &Spec) -> Vec<Feat> {
    let dirs = [crate::num::z(1.0, 0.0), crate::num::z(-1.0, 0.0), crate::num::z(0.0, 1.0), crate::num::z(0.0, -1.0)];
    let mut out = Vec::new();
    match s {
        Spec::Dense { ni, .. } => {
            out.push(Feat::V(vec![Z::ZERO; *ni]));
            for j in 0..*ni { for d in dirs { let mut v = vec![Z::ZERO; *ni]; v[j] = d; out.push(Feat::V(v)); } }
            for _ in 0..3 { out.push(gen_input::<P>(&mut c.rng, InDim::V(*ni), Reg::Gauss)); }
        }
        Spec::Conv { c: ch, kh, kw, .. } => {
            let (h, w) = (2 * kh - 1, 2 * kw - 1);
            let zero: Vec<Tab> = (0..*ch).map(|_| Tab::new(h, w)).collect();
            out.push(Feat::M(zero.clone()));
            for j in 0..*ch { for d in dirs { let mut m = zero.clone(); m[j].set(kh - 1, kw - 1, d); out.push(Feat::M(m)); } }
            for _ in 0..3 { out.push(gen_input::<P>(&mut c.rng, InDim::M(*ch, h, w), Reg::Gauss)); }
        }
        _ => {}
    }
    out
}

/// Compares one layer of the library with the reference layer whose parameters are known up to `err`.
pub fn check_layer<P: Prec>(c: &mut Ctx, l: &CLayer<P>, s: &Spec, new: &RLayer, err: &RLayer, what: &str) {
    for x in probes::<P>(c, s) {
        let q = new.q(&x).flat();
        let ax = match &x { Feat::V(v) => Feat::V(v.iter().map(|v| crate::num::z(v.abs(), 0.0)).collect()), Feat::M(m) => Feat::M(m.iter().map(|t| t.abs()).collect()) };
        let dq0 = err.q(&ax).flat();
        let (mag, n) = new.qmag(&x);
        let a = new.act();
        let tols: Vec<Option<f64>> = (0..q.len()).map(|i| act_tol(a, q[i], dq0[i].re + 2.0 * P::EPS * mag[i] * (n as f64 + 4.0) + P::TINY, P::EPS, P::IS32)).collect();
        // z/|z| cannot be evaluated near zero
        if matches!(a, renplex::act::ComplexActFunc::ModZ) && tols.iter().any(|t| t.is_none()) { c.count("probes skipped", 1); continue; }
        let out = c.ok("forward of a trained layer", || l.foward(&lib_feat::<P>(&x)));
        let want = new.fwd(&x);
        c.check(shape_of(&out) == shape_ref(&want), || format!("{what}: trained layer gives shape {:?}", shape_of(&out)));
        let (o, w) = (ref_feat(&out).flat(), want.flat());
        for i in 0..w.len() {
            match tols[i] {
                Some(t) => { c.within("trained layer", o[i].dist(w[i]), t, || format!("{what}: output {i} of the layer after training = {:?}, expected {:?}", o[i], w[i])); c.count("trained layer outputs compared", 1); }
                None => c.count("outputs at a jump, not compared", 1),
            }
        }
    }
}
pub fn layer_of<'a, P: Prec>(c: &mut Ctx, net: &'a CNetwork<P>, x: &Feat, k: usize) -> Option<&'a CLayer<P>> {
    let lx: IOType<P> = lib_feat(x);
    match c.attempt(|| net.intercept(lx, k).ok().map(|(_, l)| l)) { crate::driver::Outcome::Ret(l) => l, crate::driver::Outcome::Panic(_) => None }
}
