//! Network specifications, their construction in the library and in the reference model.
use crate::driver::Ctx;
use crate::num::{z, Prec, Z};
use crate::refm::*;
use crate::rng::Rng;
use crate::work::*;
use renplex::act::ComplexActFunc as A;
use renplex::cvnn::layer::{conv::ConvCLayer, dense::DenseCLayer, flatten::Flatten, reduce::Reduce, CLayer};
use renplex::cvnn::network::CNetwork;
use renplex::init::InitMethod;
use renplex::input::{IOShape, IOType};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Init { Uniform(usize), XaGU(usize), XaGN(usize), Xa(usize), He(usize) }
pub fn init_of(i: Init) -> InitMethod {
    match i { Init::Uniform(n) => InitMethod::Uniform(n), Init::XaGU(n) => InitMethod::XavierGlorotU(n), Init::XaGN(n) => InitMethod::XavierGlorotN(n), Init::Xa(n) => InitMethod::Xavier(n), Init::He(n) => InitMethod::HeInit(n) }
}
pub fn init_id(i: Init) -> u64 { match i { Init::Uniform(_) => 0, Init::XaGU(_) => 1, Init::XaGN(_) => 2, Init::Xa(_) => 3, Init::He(_) => 4 } }
pub fn gen_init(r: &mut Rng, fan: usize) -> Init {
    let fan = fan.max(1);
    match r.below(5) { 0 => Init::Uniform(r.range(1, 2)), 1 => Init::XaGU(fan), 2 => Init::XaGN(fan), 3 => Init::Xa(fan), _ => Init::He(fan) }
}

#[derive(Clone, Debug)]
pub enum Spec {
    Dense { ni: usize, no: usize, act: A, init: Init },
    Conv { c: usize, f: usize, kh: usize, kw: usize, act: A, init: Init },
    Pool { n: usize, bh: usize, bw: usize, kind: PoolKind, kernel: Tab },
    Flat { h: usize, w: usize, n: usize },
}

pub fn pool_fn<P: Prec>(kind: PoolKind) -> impl Fn(&[P]) -> P + Send + Sync + 'static {
    move |b: &[P]| match kind {
        PoolKind::Mean => { let mut s = P::default(); for x in b { s += *x; } s / P::usize_to_complex(b.len()) }
        PoolKind::Sum => { let mut s = P::default(); for x in b { s += *x; } s }
        PoolKind::First => b[0],
        PoolKind::Last => b[b.len() - 1],
        PoolKind::MaxMod => { let mut m = b[0]; for x in b { if x.z().n2() > m.z().n2() { m = *x; } } m }
        PoolKind::Weighted => { let mut s = P::default(); for (i, x) in b.iter().enumerate() { s += *x * P::usize_to_complex(i + 1); } s }
    }
}

/// A gradient-smoothing kernel of odd size with real entries.
pub fn real_kernel<P: Prec>(r: &mut Rng, kh: usize, kw: usize) -> Tab {
    let mut t = Tab::new(kh, kw);
    for v in t.v.iter_mut() { *v = P::rnd(z(if r.chance(1, 3) { r.below(5) as f64 - 2.0 } else { r.sf() }, 0.0)); }
    t
}

impl Spec {
    pub fn lib<P: Prec>(&self, seed: &mut u128) -> CLayer<P> {
        match self {
            Spec::Dense { ni, no, act, init } => DenseCLayer::<P>::init(IOShape::Scalar(*ni), *no, *act, init_of(*init), seed).expect("LIB: dense init").wrap(),
            Spec::Conv { c, f, kh, kw, act, init } => ConvCLayer::<P>::init(IOShape::Matrix(*c), *f, [*kh, *kw], *act, init_of(*init), seed).expect("LIB: conv init").wrap(),
            Spec::Pool { n, bh, bw, kind, kernel } => Reduce::<P>::init(*n, [*bh, *bw], Box::new(pool_fn::<P>(*kind)), lib_mat::<P>(kernel)).wrap(),
            Spec::Flat { h, w, n } => Flatten::init([*h, *w], *n).wrap(),
        }
    }
    /// The same layer with the identity activation (identical weights for the same seed).
    pub fn linear(&self) -> Spec {
        let mut s = self.clone();
        match &mut s { Spec::Dense { act, .. } | Spec::Conv { act, .. } => *act = A::None, _ => {} }
        s
    }
    pub fn act(&self) -> A { match self { Spec::Dense { act, .. } | Spec::Conv { act, .. } => *act, _ => A::None } }
    pub fn words(&self) -> Vec<u64> {
        match self {
            Spec::Dense { ni, no, act, init } => vec![1, *ni as u64, *no as u64, act_id(*act), init_id(*init)],
            Spec::Conv { c, f, kh, kw, act, init } => vec![2, *c as u64, *f as u64, *kh as u64, *kw as u64, act_id(*act), init_id(*init)],
            Spec::Pool { n, bh, bw, kind, kernel } => vec![3, *n as u64, *bh as u64, *bw as u64, *kind as u64, kernel.r as u64, kernel.c as u64],
            Spec::Flat { h, w, n } => vec![4, *h as u64, *w as u64, *n as u64],
        }
    }
    pub fn params(&self) -> (usize, usize) {
        match self { Spec::Dense { ni, no, .. } => (ni * no, *no), Spec::Conv { c, f, kh, kw, .. } => (c * f * kh * kw, *f), _ => (0, 0) }
    }
    pub fn in_shape(&self) -> IOShape {
        match self { Spec::Dense { ni, .. } => IOShape::Scalar(*ni), Spec::Conv { c, .. } => IOShape::Matrix(*c), Spec::Pool { n, .. } => IOShape::Matrix(*n), Spec::Flat { n, .. } => IOShape::Matrix(*n) }
    }
    pub fn out_shape(&self) -> IOShape {
        match self { Spec::Dense { no, .. } => IOShape::Scalar(*no), Spec::Conv { f, .. } => IOShape::Matrix(*f), Spec::Pool { n, .. } => IOShape::Matrix(*n), Spec::Flat { h, w, n } => IOShape::Scalar(h * w * n) }
    }
    /// Reads the parameters of a freshly initialised layer through the public API: a linear twin
    /// built from the same seed is probed with unit inputs, which is exact as fresh biases are zero.
    pub fn reference<P: Prec>(&self, seed: &mut u128) -> RLayer {
        let twin = self.linear().lib::<P>(seed);
        probe_linear::<P>(self, &twin)
    }
    /// The layer with all parameters zero and then set to the given values (exact).
    pub fn with_params<P: Prec>(&self, w: &[Z], b: &[Z]) -> CLayer<P> {
        let mut s = self.clone();
        match &mut s { Spec::Dense { init, .. } | Spec::Conv { init, .. } => *init = Init::Uniform(0), _ => {} }
        let mut seed = 5u128;
        let mut l = s.lib::<P>(&mut seed);
        if !w.is_empty() || !b.is_empty() {
            l.neg_conj_adjustment(lib_vec(&w.iter().map(|x| -x.conj()).collect::<Vec<_>>()), lib_vec(&b.iter().map(|x| -x.conj()).collect::<Vec<_>>())).expect("LIB: neg_conj_adjustment");
        }
        l
    }
    pub fn ref_with_params(&self, w: &[Z], b: &[Z]) -> RLayer {
        match self {
            Spec::Dense { ni, no, act, .. } => RLayer::Dense { ni: *ni, no: *no, w: w.to_vec(), b: b.to_vec(), act: *act },
            Spec::Conv { c, f, kh, kw, act, .. } => {
                let mut it = w.chunks(kh * kw);
                let k = (0..*f).map(|_| (0..*c).map(|_| Tab { r: *kh, c: *kw, v: it.next().unwrap().to_vec() }).collect()).collect();
                RLayer::Conv { k, b: b.to_vec(), act: *act }
            }
            Spec::Pool { bh, bw, kind, kernel, .. } => RLayer::Pool { bh: *bh, bw: *bw, kind: *kind, kernel: kernel.clone() },
            Spec::Flat { .. } => RLayer::Flat,
        }
    }
}

/// Parameter adjustment per layer, as handed to the library (w -= conj(d)).
pub type Adj = Vec<(Vec<Z>, Vec<Z>)>;
pub fn gen_adj<P: Prec>(r: &mut Rng, specs: &[Spec], g: Reg) -> Adj {
    specs.iter().map(|s| { let (w, b) = s.params(); (vals::<P>(r, g, w).iter().map(|x| P::rnd(x.s(0.5))).collect(), vals::<P>(r, g, b)) }).collect()
}
/// Same update in the reference, rounded once as the element type does.
pub fn adjust_ref<P: Prec>(l: &mut RLayer, d: &(Vec<Z>, Vec<Z>)) {
    let up = |p: &mut Z, d: &Z| *p = P::rnd(*p - d.conj());
    match l {
        RLayer::Dense { w, b, .. } => { w.iter_mut().zip(&d.0).for_each(|(a, b)| up(a, b)); b.iter_mut().zip(&d.1).for_each(|(a, b)| up(a, b)); }
        RLayer::Conv { k, b, .. } => {
            k.iter_mut().flat_map(|ks| ks.iter_mut().flat_map(|t| t.v.iter_mut())).zip(&d.0).for_each(|(a, b)| up(a, b));
            b.iter_mut().zip(&d.1).for_each(|(a, b)| up(a, b));
        }
        _ => {}
    }
}
pub fn adjust_lib<P: Prec>(l: &mut CLayer<P>, d: &(Vec<Z>, Vec<Z>)) {
    if d.0.is_empty() && d.1.is_empty() { return; }
    l.neg_conj_adjustment(lib_vec(&d.0), lib_vec(&d.1)).expect("LIB: neg_conj_adjustment");
}

/// Reads weights and biases of a layer with identity activation.
pub fn probe_linear<P: Prec>(s: &Spec, l: &CLayer<P>) -> RLayer {
    match s {
        Spec::Dense { ni, no, act, .. } => {
            let b: Vec<Z> = out_vec::<P>(l, vec![Z::ZERO; *ni]);
            let mut w = vec![Z::ZERO; ni * no];
            for j in 0..*ni {
                let mut e = vec![Z::ZERO; *ni]; e[j] = Z::ONE;
                let o = out_vec::<P>(l, e);
                for i in 0..*no { w[i * ni + j] = o[i] - b[i]; }
            }
            RLayer::Dense { ni: *ni, no: *no, w, b, act: *act }
        }
        Spec::Conv { c, f, kh, kw, act, .. } => {
            // one-pixel images at the far corner of a (2k-1)-sized map show the whole kernel
            let (h, w) = (2 * kh - 1, 2 * kw - 1);
            let zero: Vec<Tab> = (0..*c).map(|_| Tab::new(h, w)).collect();
            let b: Vec<Z> = out_maps::<P>(l, zero.clone()).iter().map(|t| t.v[0]).collect();
            let mut k = vec![Vec::new(); *f];
            for ch in 0..*c {
                let mut m = zero.clone();
                m[ch].set(kh - 1, kw - 1, Z::ONE);
                let o = out_maps::<P>(l, m);
                for (fi, t) in o.iter().enumerate() {
                    let mut kt = Tab::new(*kh, *kw);
                    for a in 0..*kh { for bb in 0..*kw { kt.set(a, bb, t.at(kh - 1 - a, kw - 1 - bb) - b[fi]); } }
                    k[fi].push(kt);
                }
            }
            RLayer::Conv { k, b, act: *act }
        }
        Spec::Pool { bh, bw, kind, kernel, .. } => RLayer::Pool { bh: *bh, bw: *bw, kind: *kind, kernel: kernel.clone() },
        Spec::Flat { .. } => RLayer::Flat,
    }
}
fn out_vec<P: Prec>(l: &CLayer<P>, v: Vec<Z>) -> Vec<Z> { ref_feat(&l.foward(&lib_feat::<P>(&Feat::V(v))).expect("LIB: probe")).flat() }
fn out_maps<P: Prec>(l: &CLayer<P>, m: Vec<Tab>) -> Vec<Tab> { ref_feat(&l.foward(&lib_feat::<P>(&Feat::M(m))).expect("LIB: probe")).maps().clone() }

/// How inputs of a network look.
#[derive(Clone, Copy, Debug)]
pub enum InDim { V(usize), M(usize, usize, usize) }

pub fn gen_input<P: Prec>(r: &mut Rng, d: InDim, g: Reg) -> Feat {
    match d { InDim::V(n) => Feat::V(vals::<P>(r, g, n)), InDim::M(n, h, w) => Feat::M((0..n).map(|_| tab::<P>(r, g, h, w)).collect()) }
}

#[derive(Clone, Copy)]
pub struct NetOpts {
    pub acts: &'static [A],
    /// Pooling layers whose declared back-propagation is exact (for gradient ground truth).
    pub exact_pool: bool,
    pub allow_maps: bool,
    /// End in a vector.
    pub flat_end: bool,
    pub min_layers: usize,
    pub max_layers: usize,
    pub max_dim: usize,
    pub max_ch: usize,
}

/// Average pooling together with a kernel that spreads a block's gradient evenly.
pub fn exact_pool(r: &mut Rng) -> (usize, usize, Tab) {
    let bh = r.range(1, 3); let bw = r.range(1, 3);
    // centred kernel of odd size 2b-1 whose support is exactly the block around its centre element
    let (kh, kw) = (odd(bh), odd(bw));
    let mut t = Tab::new(kh, kw);
    let v = 1.0 / (bh * bw) as f64;
    for i in 0..kh { for j in 0..kw {
        // cross-correlation: output at centre + d takes kernel entry at centre - d
        let (dy, dx) = ((kh / 2) as isize - i as isize, (kw / 2) as isize - j as isize);
        let (ch, cw) = (((bh - 1) / 2) as isize, ((bw - 1) / 2) as isize);
        if dy >= -ch && dy < bh as isize - ch && dx >= -cw && dx < bw as isize - cw { t.set(i, j, z(v, 0.0)); }
    } }
    (bh, bw, t)
}
fn odd(b: usize) -> usize { if b % 2 == 1 { b } else { b + 1 } }

pub fn gen_net<P: Prec>(r: &mut Rng, o: &NetOpts) -> (InDim, Vec<Spec>) {
    let depth = r.range(o.min_layers, o.max_layers);
    let mut specs = Vec::new();
    let use_maps = o.allow_maps && r.chance(1, 2);
    let d;
    let mut cur;
    if use_maps {
        let (c, h, w) = (r.range(1, o.max_ch), r.range(2, o.max_dim.max(2)), r.range(2, o.max_dim.max(2)));
        d = InDim::M(c, h, w);
        cur = d;
    } else {
        let n = r.range(1, o.max_dim);
        d = InDim::V(n);
        cur = d;
    }
    while specs.len() < depth || (o.flat_end && matches!(cur, InDim::M(..))) {
        match cur {
            InDim::V(n) => {
                let no = r.range(1, o.max_dim);
                specs.push(Spec::Dense { ni: n, no, act: r.pick(o.acts), init: gen_init(r, n) });
                cur = InDim::V(no);
            }
            InDim::M(c, h, w) => {
                let last = specs.len() + 1 >= depth;
                let choice = r.below(10);
                if last && o.flat_end || choice == 0 {
                    specs.push(Spec::Flat { h, w, n: c });
                    cur = InDim::V(c * h * w);
                } else if choice <= 3 {
                    if o.exact_pool {
                        let (bh, bw, k) = exact_pool(r);
                        if h % bh == 0 && w % bw == 0 {
                            specs.push(Spec::Pool { n: c, bh, bw, kind: PoolKind::Mean, kernel: k.map(P::rnd) });
                            cur = InDim::M(c, h / bh, w / bw);
                        }
                    } else {
                        let divs = |n: usize| (1..=n.min(4)).filter(|b| n % b == 0).collect::<Vec<_>>();
                        let (bh, bw) = (r.pick(&divs(h)), r.pick(&divs(w)));
                        let (kh, kw) = (r.pick(&[1, 3, 3, 5]), r.pick(&[1, 3, 3, 5]));
                        let kernel = real_kernel::<P>(r, kh, kw);
                        specs.push(Spec::Pool { n: c, bh, bw, kind: r.pick(&POOLS), kernel });
                        cur = InDim::M(c, h / bh, w / bw);
                    }
                } else {
                    let (kh, kw) = (r.range(1, h.min(4)), r.range(1, w.min(4)));
                    let f = r.range(1, o.max_ch);
                    specs.push(Spec::Conv { c, f, kh, kw, act: r.pick(o.acts), init: gen_init(r, c * kh * kw) });
                    cur = InDim::M(f, h - kh + 1, w - kw + 1);
                }
            }
        }
    }
    (d, specs)
}

/// Multiplications needed to read the parameters of all layers through the public interface.
fn probing_cost(d: InDim, specs: &[Spec]) -> usize {
    let (mut h, mut w) = match d { InDim::M(_, h, w) => (h, w), InDim::V(_) => (1, 1) };
    let mut s = 0;
    for sp in specs {
        match sp {
            Spec::Dense { ni, no, .. } => s += ni * ni * no,
            Spec::Conv { c, f, kh, kw, .. } => { s += c * f * kh * kw * (4 * c * kh * kw + h * w); h = h + 1 - kh; w = w + 1 - kw; }
            Spec::Pool { bh, bw, .. } => { s += h * w; h /= bh; w /= bw; }
            Spec::Flat { .. } => {}
        }
    }
    s
}
/// Deep, wide or large networks for the large stages; the ordinary ones elsewhere.
pub fn gen_net_for<P: Prec>(c: &mut Ctx, o: &NetOpts, limit: usize) -> (InDim, Vec<Spec>) {
    if !c.big { return gen_net::<P>(&mut c.rng, o); }
    let mut tries = 0;
    loop {
        let mut k = *o;
        match c.rng.below(4) {
            0 => { k.min_layers = 7; k.max_layers = c.rng.range(7, 24); k.max_dim = 5; }
            1 => { k.allow_maps = false; k.max_dim = large(&mut c.rng, 200).max(12); }
            2 => { k.max_ch = c.rng.range(4, 24); k.max_dim = 10; k.max_layers = o.min_layers.max(3); }
            _ => { k.max_dim = c.rng.range(12, 40); k.max_layers = o.min_layers.max(3); }
        }
        let (d, s) = gen_net::<P>(&mut c.rng, &k);
        tries += 1;
        if probing_cost(d, &s) <= limit || tries > 200 { return if tries > 200 { gen_net::<P>(&mut c.rng, o) } else { (d, s) }; }
    }
}

pub fn build_layers<P: Prec>(specs: &[Spec], seed: u128, adj: &Adj) -> Vec<CLayer<P>> {
    let mut s = seed;
    specs.iter().enumerate().map(|(i, sp)| { let mut l = sp.lib::<P>(&mut s); if let Some(d) = adj.get(i) { adjust_lib(&mut l, d); } l }).collect()
}
pub fn assemble<P: Prec>(layers: Vec<CLayer<P>>) -> CNetwork<P> {
    let mut net = CNetwork::<P>::new();
    for (i, l) in layers.into_iter().enumerate() {
        if i == 0 { net.add_input(l).expect("LIB: add_input") } else { net.add(l).expect("LIB: add") }
    }
    net
}
/// An empty `adj` means freshly initialised layers.
pub fn build<P: Prec>(specs: &[Spec], seed: u128, adj: &Adj) -> CNetwork<P> { assemble(build_layers(specs, seed, adj)) }
pub fn reference<P: Prec>(specs: &[Spec], seed: u128, adj: &Adj) -> Vec<RLayer> {
    let mut s = seed;
    specs.iter().enumerate().map(|(i, sp)| { let mut l = sp.reference::<P>(&mut s); if let Some(d) = adj.get(i) { adjust_ref::<P>(&mut l, d); } l }).collect()
}
/// A seed in the generator's ordinary range.
pub fn gen_seed(r: &mut Rng) -> u128 { 1 + r.below(2147483645) as u128 }

pub fn words(specs: &[Spec]) -> Vec<u64> { specs.iter().flat_map(|s| s.words()).collect() }

/// Reference forward pass with error bounds: per layer (input, output, bound on |output error|, determined?).
pub struct Trace { pub feats: Vec<Feat>, pub tol: Vec<f64>, pub qs: Vec<Vec<Z>>, pub dq: Vec<f64>, pub determined: bool, pub smooth: bool }

/// `eps` is the unit roundoff of the precision under test; tolerances are maxima per layer.
pub fn trace<P: Prec>(rl: &[RLayer], x: &Feat) -> Trace {
    let mut t = Trace { feats: vec![x.clone()], tol: vec![0.0], qs: vec![], dq: vec![], determined: true, smooth: true };
    for l in rl {
        let cur = t.feats.last().unwrap().clone();
        let din = *t.tol.last().unwrap();
        let out = l.fwd(&cur);
        let (qs, dq, tol) = match l {
            RLayer::Dense { .. } | RLayer::Conv { .. } => {
                let q = l.q(&cur).flat();
                let (mag, n) = l.qmag(&cur);
                let wsum = match l {
                    RLayer::Dense { ni, no, w, .. } => (0..*no).map(|i| (0..*ni).map(|j| w[i * ni + j].abs()).sum::<f64>()).fold(0.0, f64::max),
                    RLayer::Conv { k, .. } => k.iter().map(|ks| ks.iter().flat_map(|t| t.v.iter()).map(|v| v.abs()).sum::<f64>()).fold(0.0, f64::max),
                    _ => 0.0,
                };
                let mut dqm: f64 = 0.0; let mut tolm: f64 = 0.0;
                for (i, qq) in q.iter().enumerate() {
                    let dq = P::EPS * mag[i] * (n as f64 + 4.0) * 2.0 + wsum * din + P::TINY;
                    dqm = dqm.max(dq);
                    if !smooth_at(l.act(), *qq, dq) { t.smooth = false; }
                    match act_tol(l.act(), *qq, dq, P::EPS, P::IS32) { Some(v) => tolm = tolm.max(v), None => t.determined = false }
                }
                (q, dqm, tolm)
            }
            RLayer::Pool { bh, bw, kind, .. } => {
                let n = (bh * bw) as f64;
                let mx = cur.flat().iter().map(|v| v.abs()).fold(0.0, f64::max);
                let tol = match kind {
                    PoolKind::Mean => din + 8.0 * n * P::EPS * mx,
                    PoolKind::Sum => n * din + 4.0 * n * n * P::EPS * mx,
                    PoolKind::Weighted => n * n * din + 8.0 * n * n * n * P::EPS * mx,
                    PoolKind::MaxMod => { if din > 0.0 && bh * bw > 1 { t.determined = false; t.smooth = false; } din }
                    _ => din,
                };
                (vec![], 0.0, tol)
            }
            RLayer::Flat => (vec![], 0.0, din),
        };
        t.qs.push(qs); t.dq.push(dq); t.tol.push(tol); t.feats.push(out);
    }
    t
}

/// Largest distance between a library feature and a reference feature of the same shape.
pub fn max_dist<P: Prec>(f: &IOType<P>, r: &Feat) -> f64 {
    ref_feat(f).flat().iter().zip(r.flat()).map(|(a, b)| { let d = a.dist(b); if d.is_nan() { f64::INFINITY } else { d } }).fold(0.0, f64::max)
}

/// Gradient of one layer with bounds on the error a correct implementation may show.
pub struct LayerGrad { pub g: Grad, pub tol: Grad, pub gx: Vec<Z>, pub gxtol: Vec<f64> }

fn konst(f: &Feat, v: f64) -> Feat {
    match f { Feat::V(x) => Feat::V(vec![z(v, 0.0); x.len()]), Feat::M(m) => Feat::M(m.iter().map(|t| t.map(|_| z(v, 0.0))).collect()) }
}

/// One reverse step for incoming gradient g (its conjugate is implied). `dq`: uncertainty of the
/// pre-activations, `xtol`: of the features, `gtol`: of the incoming gradient.
pub fn back_layer<P: Prec>(l: &RLayer, x: &Feat, g: &[Z], gtol: &[f64], xtol: f64, dq: f64) -> LayerGrad {
    let h: Vec<Z> = g.iter().map(|v| v.conj()).collect();
    let q = l.q(x).flat();
    let a = l.act();
    let trainable = matches!(l, RLayer::Dense { .. } | RLayer::Conv { .. });
    let s = if trainable { chain(a, &q, g, &h, false) } else { g.to_vec() };
    let n = match l { RLayer::Dense { ni, no, .. } => ni.max(no) + 4, RLayer::Conv { k, .. } => k.len() * k[0][0].v.len() + x.maps()[0].v.len() + 4, RLayer::Pool { kernel, .. } => kernel.v.len() + 4, _ => 1 } as f64;
    let mut ds = Vec::with_capacity(s.len());
    let mut sabs = Vec::with_capacity(s.len());
    for i in 0..s.len() {
        let (d, m) = if trainable {
            let b = dact_bound(a, q[i]);
            (2.0 * gtol[i] * b + 2.0 * g[i].abs() * (ddact_bound(a, q[i]) * dq + dact_abs_tol(a, q[i], P::EPS, P::IS32) + 8.0 * P::EPS * b), 2.0 * b * g[i].abs())
        } else { (gtol[i], g[i].abs()) };
        ds.push(z(d + 4.0 * n * P::EPS * m + P::TINY, 0.0));
        sabs.push(z(m, 0.0));
    }
    let (gr, gx) = l.lin(x, &s, false);
    let (t1, gxt) = l.lin(x, &ds, true);
    let (t2, _) = if trainable { l.lin(&konst(x, xtol), &sabs, true) } else { (Grad::default(), vec![]) };
    let tol = Grad { w: t1.w.iter().zip(&t2.w).map(|(a, b)| *a + *b).collect(), b: t1.b };
    LayerGrad { g: gr, tol, gx, gxtol: gxt.iter().map(|v| v.re).collect() }
}

/// Back-propagates an output gradient through the whole reference network.
pub fn back_net<P: Prec>(rl: &[RLayer], t: &Trace, g0: Vec<Z>, g0tol: Vec<f64>) -> Vec<LayerGrad> {
    let mut out: Vec<LayerGrad> = Vec::new();
    let (mut g, mut gt) = (g0, g0tol);
    for i in (0..rl.len()).rev() {
        let lg = back_layer::<P>(&rl[i], &t.feats[i], &g, &gt, t.tol[i], t.dq[i]);
        g = lg.gx.clone(); gt = lg.gxtol.clone();
        out.push(lg);
    }
    out.reverse();
    out
}
