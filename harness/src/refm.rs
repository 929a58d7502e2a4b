//! Reference model, written from the mathematics, in double precision.
use crate::num::{z, Z};
use renplex::act::ComplexActFunc as A;

pub const ACTS: [A; 7] = [A::None, A::ModZ, A::RITSigmoid, A::RITTanh, A::RITReLU, A::ZReLU, A::Cardioid];
pub fn act_id(a: A) -> u64 { ACTS.iter().position(|b| std::mem::discriminant(b) == std::mem::discriminant(&a)).unwrap() as u64 }

pub fn sigmoid(x: f64) -> f64 { if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { let e = x.exp(); e / (1.0 + e) } }
fn dsig(x: f64) -> f64 { let e = (-x.abs()).exp(); e / ((1.0 + e) * (1.0 + e)) }
fn dtanh(x: f64) -> f64 { let c = x.cosh(); if c.is_finite() { 1.0 / c / c } else { 0.0 } }
/// A positive zero counts as positive, a negative zero as negative.
fn pos(x: f64) -> bool { x.is_sign_positive() }

pub fn act(a: A, v: Z) -> Z {
    match a {
        A::None => v,
        A::ModZ => { let n = v.abs(); z(v.re / n, v.im / n) }
        A::RITSigmoid => z(sigmoid(v.re), sigmoid(v.im)),
        A::RITTanh => z(v.re.tanh(), v.im.tanh()),
        A::RITReLU => z(if pos(v.re) { v.re } else { 0.0 }, if pos(v.im) { v.im } else { 0.0 }),
        A::ZReLU => if pos(v.re) && pos(v.im) { v } else { Z::ZERO },
        A::Cardioid => {
            // 2(1+cos p)e^{ip} = 1 + 2u + u^2 with u = e^{ip}
            let n = v.abs();
            let u = if n == 0.0 { Z::ONE } else { z(v.re / n, v.im / n) };
            Z::ONE + u.s(2.0) + u * u
        }
    }
}

/// (df/dz, df/dz*)
pub fn dact(a: A, v: Z) -> (Z, Z) {
    match a {
        A::None => (Z::ONE, Z::ZERO),
        A::ModZ => { let n = v.abs(); let u = z(v.re / n, v.im / n); (z(0.5 / n, 0.0), (u * u).s(-0.5 / n)) }
        A::RITSigmoid => { let (a, b) = (dsig(v.re), dsig(v.im)); (z(0.5 * (a + b), 0.0), z(0.5 * (a - b), 0.0)) }
        A::RITTanh => { let (a, b) = (dtanh(v.re), dtanh(v.im)); (z(0.5 * (a + b), 0.0), z(0.5 * (a - b), 0.0)) }
        A::RITReLU => {
            let a = if pos(v.re) { 1.0 } else { 0.0 }; let b = if pos(v.im) { 1.0 } else { 0.0 };
            (z(0.5 * (a + b), 0.0), z(0.5 * (a - b), 0.0))
        }
        A::ZReLU => (if pos(v.re) && pos(v.im) { Z::ONE } else { Z::ZERO }, Z::ZERO),
        A::Cardioid => {
            let n = v.abs(); let u = z(v.re / n, v.im / n);
            ((Z::ONE + u).s(1.0 / n), ((Z::ONE + u) * u * u).s(-1.0 / n))
        }
    }
}

/// Extra absolute error the activation itself may add (documented saturation of the sigmoid).
pub fn act_abs_tol(a: A, is32: bool) -> f64 {
    match a { A::RITSigmoid => if is32 { 1.1e-6 } else { 1.05e-13 }, _ => 0.0 }
}

/// Error allowed in the activation value when its argument is known up to `dq`;
/// None if the value is not determined there (jump or direction of a near-zero argument).
pub fn act_tol(a: A, q: Z, dq: f64, eps: f64, is32: bool) -> Option<f64> {
    Some(match a {
        A::None => dq,
        A::ModZ => { if q.abs() < 1e3 * dq || q.abs() == 0.0 { return None; } 3.0 * dq / q.abs() + 8.0 * eps }
        A::RITSigmoid => 0.5 * dq + act_abs_tol(a, is32) + 8.0 * eps,
        A::RITTanh => 2.0 * dq + 8.0 * eps,
        A::RITReLU => 2.0 * dq,
        A::ZReLU => { if q.re.abs() <= 2.0 * dq || q.im.abs() <= 2.0 * dq { return None; } 2.0 * dq }
        A::Cardioid => { if q.abs() < 1e3 * dq || q.abs() == 0.0 { return None; } 12.0 * dq / q.abs() + 60.0 * eps }
    })
}

/// Is the point far enough from kinks / singularities for derivatives to be compared when the
/// argument is known up to dq?
pub fn smooth_at(a: A, q: Z, dq: f64) -> bool {
    match a {
        A::None | A::RITSigmoid | A::RITTanh => true,
        A::RITReLU => q.re.abs() > 2.0 * dq && q.im.abs() > 2.0 * dq,
        A::ZReLU => q.re.abs() > 2.0 * dq && q.im.abs() > 2.0 * dq,
        A::ModZ | A::Cardioid => q.abs() > 1e3 * dq && q.abs() > 1e-2,
    }
}
/// Lipschitz-like bound of the derivative pair around q.
pub fn ddact_bound(a: A, q: Z) -> f64 {
    match a {
        A::None | A::RITReLU | A::ZReLU => 0.0,
        A::RITSigmoid => 0.2, A::RITTanh => 1.6,
        A::ModZ => 3.0 / q.n2(), A::Cardioid => 16.0 / q.n2(),
    }
}
pub fn dact_bound(a: A, q: Z) -> f64 {
    match a {
        A::None | A::RITReLU | A::ZReLU | A::RITTanh => 1.0,
        A::RITSigmoid => 0.25,
        A::ModZ => 0.5 / q.abs(), A::Cardioid => 2.0 / q.abs(),
    }
}
/// Absolute error of the derivative functions themselves.
pub fn dact_abs_tol(a: A, q: Z, eps: f64, is32: bool) -> f64 {
    match a {
        A::None | A::RITReLU | A::ZReLU => 0.0,
        A::RITSigmoid => if is32 { 2.4e-6 } else { 2.4e-13 },
        A::RITTanh => 40.0 * eps,
        A::ModZ => 20.0 * eps / q.abs(),
        A::Cardioid => 200.0 * eps / q.abs(),
    }
}

/// Plain row-major table.
#[derive(Clone, Debug, PartialEq)]
pub struct Tab { pub r: usize, pub c: usize, pub v: Vec<Z> }
impl Tab {
    pub fn new(r: usize, c: usize) -> Tab { Tab { r, c, v: vec![Z::ZERO; r * c] } }
    pub fn at(&self, i: usize, j: usize) -> Z { self.v[i * self.c + j] }
    pub fn set(&mut self, i: usize, j: usize, x: Z) { let c = self.c; self.v[i * c + j] = x; }
    pub fn map(&self, f: impl Fn(Z) -> Z) -> Tab { Tab { r: self.r, c: self.c, v: self.v.iter().map(|x| f(*x)).collect() } }
    pub fn abs(&self) -> Tab { self.map(|x| z(x.abs(), 0.0)) }
    /// Valid cross-correlation.
    pub fn xcorr(&self, k: &Tab) -> Tab {
        let mut o = Tab::new(self.r - k.r + 1, self.c - k.c + 1);
        for i in 0..o.r { for j in 0..o.c {
            let mut s = Z::ZERO;
            for a in 0..k.r { for b in 0..k.c { s = s + self.at(i + a, j + b) * k.at(a, b); } }
            o.set(i, j, s);
        } }
        o
    }
    pub fn add(&mut self, o: &Tab) { for (a, b) in self.v.iter_mut().zip(&o.v) { *a = *a + *b; } }
    /// Zero insertion at the block centre followed by centred smoothing with zero border.
    pub fn upsample(&self, bh: usize, bw: usize, k: &Tab) -> Tab {
        let (ch, cw) = ((bh - 1) / 2, (bw - 1) / 2);
        let mut big = Tab::new(self.r * bh, self.c * bw);
        for i in 0..self.r { for j in 0..self.c { big.set(i * bh + ch, j * bw + cw, self.at(i, j)); } }
        let mut o = Tab::new(big.r, big.c);
        let (ph, pw) = ((k.r - 1) / 2, (k.c - 1) / 2);
        for i in 0..o.r { for j in 0..o.c {
            let mut s = Z::ZERO;
            for a in 0..k.r { for b in 0..k.c {
                let (y, x) = ((i + a) as isize - ph as isize, (j + b) as isize - pw as isize);
                if y >= 0 && x >= 0 && (y as usize) < big.r && (x as usize) < big.c { s = s + big.at(y as usize, x as usize) * k.at(a, b); }
            } }
            o.set(i, j, s);
        } }
        o
    }
}

/// Features travelling through the reference network.
#[derive(Clone, Debug)]
pub enum Feat { V(Vec<Z>), M(Vec<Tab>) }
impl Feat {
    pub fn flat(&self) -> Vec<Z> { match self { Feat::V(v) => v.clone(), Feat::M(m) => m.iter().flat_map(|t| t.v.clone()).collect() } }
    pub fn maps(&self) -> &Vec<Tab> { match self { Feat::M(m) => m, _ => panic!("maps expected") } }
    pub fn vec(&self) -> &Vec<Z> { match self { Feat::V(v) => v, _ => panic!("vector expected") } }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PoolKind { Mean, Sum, First, Last, MaxMod, Weighted }

pub const POOLS: [PoolKind; 6] = [PoolKind::Mean, PoolKind::Sum, PoolKind::First, PoolKind::Last, PoolKind::MaxMod, PoolKind::Weighted];

pub fn pool_ref(k: PoolKind, b: &[Z]) -> Z {
    match k {
        PoolKind::Mean => b.iter().copied().sum::<Z>().s(1.0 / b.len() as f64),
        PoolKind::Sum => b.iter().copied().sum(),
        PoolKind::First => b[0],
        PoolKind::Last => b[b.len() - 1],
        PoolKind::MaxMod => { let mut m = b[0]; for x in b { if x.n2() > m.n2() { m = *x; } } m }
        PoolKind::Weighted => b.iter().enumerate().map(|(i, x)| x.s((i + 1) as f64)).sum(),
    }
}

#[derive(Clone, Debug)]
pub enum RLayer {
    Dense { ni: usize, no: usize, w: Vec<Z>, b: Vec<Z>, act: A },
    Conv { k: Vec<Vec<Tab>>, b: Vec<Z>, act: A },
    Pool { bh: usize, bw: usize, kind: PoolKind, kernel: Tab },
    Flat,
}

#[derive(Clone, Debug, Default)]
pub struct Grad { pub w: Vec<Z>, pub b: Vec<Z> }

impl RLayer {
    /// Pre-activations.
    pub fn q(&self, x: &Feat) -> Feat {
        match self {
            RLayer::Dense { ni, no, w, b, .. } => {
                let v = x.vec();
                assert_eq!(v.len(), *ni);
                Feat::V((0..*no).map(|i| { let mut s = b[i]; for j in 0..*ni { s = s + w[i * ni + j] * v[j]; } s }).collect())
            }
            RLayer::Conv { k, b, .. } => {
                let m = x.maps();
                Feat::M(k.iter().zip(b).map(|(ks, b)| {
                    let mut o = m[0].xcorr(&ks[0]);
                    for c in 1..m.len() { o.add(&m[c].xcorr(&ks[c])); }
                    o.map(|v| v + *b)
                }).collect())
            }
            _ => x.clone(),
        }
    }
    /// Sum of the moduli of the terms of every pre-activation (for error bounds), and their number.
    pub fn qmag(&self, x: &Feat) -> (Vec<f64>, usize) {
        match self {
            RLayer::Dense { ni, no, w, b, .. } => {
                let v = x.vec();
                ((0..*no).map(|i| b[i].abs() + (0..*ni).map(|j| w[i * ni + j].abs() * v[j].abs()).sum::<f64>()).collect(), ni + 1)
            }
            RLayer::Conv { k, b, .. } => {
                let m: Vec<Tab> = x.maps().iter().map(|t| t.abs()).collect();
                let mut out = Vec::new();
                for (ks, b) in k.iter().zip(b) {
                    let mut o = m[0].xcorr(&ks[0].abs());
                    for c in 1..m.len() { o.add(&m[c].xcorr(&ks[c].abs())); }
                    out.extend(o.v.iter().map(|v| v.re + b.abs()));
                }
                (out, k[0].len() * k[0][0].r * k[0][0].c + 1)
            }
            _ => (x.flat().iter().map(|v| v.abs()).collect(), 1),
        }
    }
    pub fn fwd(&self, x: &Feat) -> Feat {
        match self {
            RLayer::Dense { act: a, .. } => Feat::V(self.q(x).vec().iter().map(|q| act(*a, *q)).collect()),
            RLayer::Conv { act: a, .. } => Feat::M(self.q(x).maps().iter().map(|t| t.map(|q| act(*a, q))).collect()),
            RLayer::Pool { bh, bw, kind, .. } => Feat::M(x.maps().iter().map(|t| {
                let mut o = Tab::new(t.r / bh, t.c / bw);
                for i in 0..o.r { for j in 0..o.c {
                    let mut blk = Vec::new();
                    for a in 0..*bh { for b in 0..*bw { blk.push(t.at(i * bh + a, j * bw + b)); } }
                    o.set(i, j, pool_ref(*kind, &blk));
                } }
                o
            }).collect()),
            RLayer::Flat => Feat::V(x.flat()),
        }
    }
    pub fn act(&self) -> A { match self { RLayer::Dense { act, .. } | RLayer::Conv { act, .. } => *act, _ => A::None } }
    /// Given s = dL/dq (or dL/d(output) for layers without activation), the parameter gradients and
    /// dL/d(input). With `absolute`, the same sums over moduli (used for error bounds).
    pub fn lin(&self, x: &Feat, s: &[Z], absolute: bool) -> (Grad, Vec<Z>) {
        let ab = |v: Z| if absolute { z(v.abs(), 0.0) } else { v };
        match self {
            RLayer::Dense { ni, no, w, .. } => {
                let xv = x.vec();
                let mut gw = Vec::with_capacity(ni * no);
                for i in 0..*no { for j in 0..*ni { gw.push(s[i] * ab(xv[j])); } }
                let mut gx = vec![Z::ZERO; *ni];
                for i in 0..*no { for j in 0..*ni { gx[j] = gx[j] + s[i] * ab(w[i * ni + j]); } }
                (Grad { w: gw, b: s.to_vec() }, gx)
            }
            RLayer::Conv { k, .. } => {
                let m = x.maps();
                let (h0, w0) = (m[0].r, m[0].c);
                let (kh, kw) = (k[0][0].r, k[0][0].c);
                let (oh, ow) = (h0 - kh + 1, w0 - kw + 1);
                let mut gw = Vec::new(); let mut gb = Vec::new();
                let mut gx = vec![Z::ZERO; m.len() * h0 * w0];
                for (f, ks) in k.iter().enumerate() {
                    let sf = &s[f * oh * ow..(f + 1) * oh * ow];
                    gb.push(sf.iter().copied().sum());
                    for (c, kc) in ks.iter().enumerate() {
                        for a in 0..kh { for b in 0..kw {
                            let mut t = Z::ZERO;
                            let kv = ab(kc.at(a, b));
                            for i in 0..oh { for j in 0..ow {
                                t = t + sf[i * ow + j] * ab(m[c].at(i + a, j + b));
                                let p = c * h0 * w0 + (i + a) * w0 + j + b;
                                gx[p] = gx[p] + sf[i * ow + j] * kv;
                            } }
                            gw.push(t);
                        } }
                    }
                }
                (Grad { w: gw, b: gb }, gx)
            }
            RLayer::Pool { bh, bw, kernel, .. } => {
                let m = x.maps();
                let n = s.len() / m.len();
                let kern = if absolute { kernel.abs() } else { kernel.clone() };
                let mut gx = Vec::new();
                for (c, t) in m.iter().enumerate() {
                    let tab = Tab { r: t.r / bh, c: t.c / bw, v: s[c * n..(c + 1) * n].iter().map(|v| ab(*v)).collect() };
                    gx.extend(tab.upsample(*bh, *bw, &kern).v);
                }
                (Grad::default(), gx)
            }
            RLayer::Flat => (Grad::default(), s.to_vec()),
        }
    }
}

/// dL/dq = dL/da * da/dq + dL/da* * d(a*)/dq, with d(a*)/dq = conj(da/dq*).
pub fn chain(a: A, q: &[Z], g: &[Z], h: &[Z], absolute: bool) -> Vec<Z> {
    q.iter().enumerate().map(|(i, q)| {
        if absolute { z(dact_bound(a, *q) * (g[i].abs() + h[i].abs()), 0.0) }
        else { let (d, dc) = dact(a, *q); g[i] * d + h[i] * dc.conj() }
    }).collect()
}
