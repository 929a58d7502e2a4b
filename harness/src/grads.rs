//! Monitoring of one layer's back-propagation step, shared by the gradient checks.
use crate::driver::Ctx;
use crate::nets::*;
use crate::num::{z, Prec, Z};
use crate::refm::*;
use crate::work::*;
use renplex::cvnn::layer::CLayer;
use renplex::math::cfloat::Cf64;

pub struct Derivs { pub w: Vec<Z>, pub b: Vec<Z>, pub x: Vec<Z>, pub xc: Vec<Z> }

/// Calls the layer, through the general interface and directly, and checks the sizes of what comes back.
pub fn derivs<P: Prec>(c: &mut Ctx, l: &CLayer<P>, x: &Feat, g: &[Z], nw: usize, nb: usize) -> Derivs {
    let lx = lib_feat::<P>(x);
    let before = bits_of(&lx);
    let gl: Vec<P> = lib_vec(g);
    let gc: Vec<P> = lib_vec(&g.iter().map(|v| v.conj()).collect::<Vec<_>>());
    let (w, b, nx, nxc) = c.ok("compute_derivatives", || l.compute_derivatives(&lx, gl.clone(), gc.clone()));
    let d = match l {
        CLayer::Dense(d) => c.ok("compute_derivatives", || d.compute_derivatives(&lx, gl, gc)),
        CLayer::Convolutional(d) => c.ok("compute_derivatives", || d.compute_derivatives(&lx, gl, gc)),
        CLayer::Reduce(d) => c.ok("compute_derivatives", || d.compute_derivatives(&lx, gl, gc)),
        CLayer::Flatten(_) => c.fail("flatten has no derivatives".into()),
    };
    let same = |a: &[P], b: &[P]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bits() == y.bits());
    c.check(same(&w, &d.0) && same(&b, &d.1) && same(&nx, &d.2) && same(&nxc, &d.3), || "wrapped and direct layer give different derivatives".into());
    c.check(bits_of(&lx) == before, || "compute_derivatives changed the features".into());
    let n = x.flat().len();
    c.check(w.len() == nw && b.len() == nb, || format!("{} weight and {} bias gradients for {nw} weights and {nb} biases", w.len(), b.len()));
    c.check(nx.len() == n && nxc.len() == n, || format!("gradients of {} and {} entries passed on for an input of {n}", nx.len(), nxc.len()));
    Derivs { w: ref_vec(&w), b: ref_vec(&b), x: ref_vec(&nx), xc: ref_vec(&nxc) }
}

/// Compares everything with the reference; `exact`: no rounding can occur.
pub fn compare<P: Prec>(c: &mut Ctx, rl: &RLayer, x: &Feat, g: &[Z], d: &Derivs, exact: bool, dq: f64, what: &str) {
    let lg = back_layer::<P>(rl, x, g, &vec![0.0; g.len()], 0.0, dq);
    let t = |v: f64| if exact { 0.0 } else { v };
    for i in 0..lg.g.w.len() { c.within("weight gradient", d.w[i].dist(lg.g.w[i]), t(lg.tol.w[i].re), || format!("{} {what}: weight gradient {i} = {:?}, expected {:?}", P::NAME, d.w[i], lg.g.w[i])); }
    for i in 0..lg.g.b.len() { c.within("bias gradient", d.b[i].dist(lg.g.b[i]), t(lg.tol.b[i].re), || format!("{} {what}: bias gradient {i} = {:?}, expected {:?}", P::NAME, d.b[i], lg.g.b[i])); }
    for i in 0..lg.gx.len() {
        c.within("gradient passed on", d.x[i].dist(lg.gx[i]), t(lg.gxtol[i]), || format!("{} {what}: gradient {i} passed on = {:?}, expected {:?}", P::NAME, d.x[i], lg.gx[i]));
        c.within("conjugate gradient passed on", d.xc[i].conj().dist(lg.gx[i]), t(lg.gxtol[i]), || format!("{} {what}: conjugate gradient {i} passed on = {:?}, expected the conjugate of {:?}", P::NAME, d.xc[i], lg.gx[i]));
    }
    c.count("gradients compared", (lg.g.w.len() + lg.g.b.len() + lg.gx.len()) as u64);
}

/// True if no pre-activation is near a kink or a singularity. Returns the uncertainty of the pre-activations too.
pub fn smooth<P: Prec>(rl: &RLayer, x: &Feat, margin: f64) -> (bool, f64) {
    let q = rl.q(x).flat();
    let (mag, n) = rl.qmag(x);
    let mut ok = true; let mut m: f64 = 0.0;
    for i in 0..q.len() {
        let dq = 2.0 * P::EPS * mag[i] * (n as f64 + 4.0) + P::TINY;
        m = m.max(dq);
        if !smooth_at(rl.act(), q[i], dq.max(margin)) { ok = false; }
    }
    (ok, m)
}

/// Difference quotients of L = 2 Re sum(g a), for which dL/da = g, taken of the library's own forward pass.
pub fn differences(c: &mut Ctx, spec: &Spec, w: &[Z], b: &[Z], x: &Feat, g: &[Z], d: &Derivs, picks: usize, what: &str) {
    let h = 2f64.powi(-16);
    let value = |c: &mut Ctx, w: &[Z], b: &[Z], x: &Feat| -> f64 {
        let l = spec.with_params::<Cf64>(w, b);
        let o = c.ok("forward", || l.foward(&lib_feat::<Cf64>(x)));
        ref_feat(&o).flat().iter().zip(g).map(|(a, g)| 2.0 * (*g * *a).re).sum()
    };
    let scale: f64 = 1.0 + g.iter().map(|v| v.abs()).sum::<f64>() * (1.0 + x.flat().iter().map(|v| v.abs()).fold(0.0, f64::max)).powi(3) * (1.0 + w.iter().map(|v| v.abs()).fold(0.0, f64::max)).powi(3);
    for _ in 0..picks {
        let which = if w.is_empty() { 2 } else { c.rng.below(3) };
        let (n, got) = match which { 0 => (w.len(), &d.w), 1 => (b.len(), &d.b), _ => (x.flat().len(), &d.x) };
        let i = c.rng.below(n);
        let at = |c: &mut Ctx, e: Z| {
            match which {
                0 => { let mut w2 = w.to_vec(); w2[i] = w2[i] + e; value(c, &w2, b, x) }
                1 => { let mut b2 = b.to_vec(); b2[i] = b2[i] + e; value(c, w, &b2, x) }
                _ => {
                    let mut x2 = x.clone();
                    match &mut x2 { Feat::V(v) => v[i] = v[i] + e, Feat::M(m) => { let k = m[0].v.len(); let t = &mut m[i / k].v[i % k]; *t = *t + e } }
                    value(c, w, b, &x2)
                }
            }
        };
        let dx = (at(c, z(h, 0.0)) - at(c, z(-h, 0.0))) / (2.0 * h);
        let dy = (at(c, z(0.0, h)) - at(c, z(0.0, -h))) / (2.0 * h);
        let want = z(dx, -dy).s(0.5);
        let name = ["weight", "bias", "input"][which];
        c.within("difference quotient", got[i].dist(want), 1e-8 * scale, || format!("{what}: {name} gradient {i} = {:?}, differences of the forward pass give {want:?}", got[i]));
        c.count(["difference quotients (weights)", "difference quotients (biases)", "difference quotients (inputs)"][which], 1);
    }
}
