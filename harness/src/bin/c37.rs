//! C37: pooling functions that fail.
use monitors::driver::{main as run, Outcome, Plan};
use monitors::nets::*;
use monitors::num::z;
use monitors::refm::*;
use monitors::train::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::cvnn::layer::reduce::Reduce;
use renplex::cvnn::layer::CLayer;
use renplex::cvnn::network::CNetwork;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::opt::ComplexLossFunc as L;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::Arc;

/// Counts down with every call of the user's function, which fails when it reaches zero.
type Fuse = Arc<AtomicI64>;
const CALM: i64 = i64::MAX / 2;
fn fused<P: Prec>(kind: PoolKind, fuse: Fuse) -> impl Fn(&[P]) -> P + Send + Sync + 'static {
    let f = pool_fn::<P>(kind);
    move |b: &[P]| { if fuse.fetch_sub(1, SeqCst) == 1 { panic!("the pooling function failed") } f(b) }
}
fn layers<P: Prec>(specs: &[Spec], seed: u128, adj: &Adj, fuse: &Fuse) -> Vec<CLayer<P>> {
    build_layers::<P>(specs, seed, adj).into_iter().zip(specs).map(|(l, s)| match s {
        Spec::Pool { n, bh, bw, kind, kernel } => Reduce::<P>::init(*n, [*bh, *bw], Box::new(fused::<P>(*kind, fuse.clone())), lib_mat::<P>(kernel)).wrap(),
        _ => l,
    }).collect()
}
fn view<P: Prec>(c: &mut Ctx, net: &CNetwork<P>, xs: &[Feat], when: &str) -> Vec<Vec<u64>> {
    xs.iter().flat_map(|x| { let a = c.ok(&format!("activations {when}"), || net.collect_acts(lib_feat::<P>(x))); a.iter().map(bits_of).collect::<Vec<_>>() }).collect()
}

const CALLS: [&str; 6] = ["prediction", "activations", "interception", "loss", "accuracy", "training"];

fn network<P: Prec>(c: &mut Ctx) {
    let o = NetOpts { acts: &ACTS, exact_pool: c.rng.chance(1, 2), allow_maps: true, flat_end: c.rng.chance(2, 3), min_layers: 2, max_layers: if c.small { 3 } else { 6 }, max_ch: 3, max_dim: if c.small { 4 } else { 8 } };
    let mut found = None;
    for _ in 0..40 { let (d, s) = gen_net_for::<P>(c, &o, 300_000); if s.iter().any(|s| matches!(s, Spec::Pool { .. })) { found = Some((d, s)); break; } }
    let Some((d, specs)) = found else { c.count("no pooling layer drawn, skipped", 1); return };
    let seed = gen_seed(&mut c.rng);
    let adj = gen_adj::<P>(&mut c.rng, &specs, Reg::Disc);
    let rl = reference::<P>(&specs, seed, &adj);
    let n = if c.big { large(&mut c.rng, 60) } else { c.rng.range(1, 4) };
    let (batch, probe) = match (gen_batch::<P>(c, &rl, d, n, Reg::Gauss), gen_batch::<P>(c, &rl, d, 2, Reg::Gauss)) { (Some(a), Some(b)) => (a, b), _ => { c.count("no smooth points found, skipped", 1); return; } };
    let fuse: Fuse = Arc::new(AtomicI64::new(CALM));
    let mut net = assemble(layers::<P>(&specs, seed, &adj, &fuse));
    let lf = if c.rng.chance(1, 2) { L::MeanSquare } else { L::NormCrossEntropy };
    let lr = P::of(P::rnd(z(0.05, 0.0)));
    let vector = matches!(batch.ts[0], Feat::V(_));
    let before = view(c, &net, &probe.xs, "before");
    let rounds = c.rng.range(1, 4);
    for _ in 0..rounds {
        let call = match c.rng.below(6) { 4 if !vector => 3, k => k };
        let i = c.rng.below(n);
        let x = lib_feat::<P>(&batch.xs[i]);
        let at = specs.len() - 1;
        // how often the call uses the function, then again with one of these uses failing
        let go = |net: &mut CNetwork<P>| -> Result<(), String> { match call {
            0 => net.forward(&x).map(|_| ()).map_err(|e| format!("{e:?}")),
            1 => net.collect_acts(x.clone()).map(|_| ()).map_err(|e| format!("{e:?}")),
            2 => net.intercept(x.clone(), at).map(|_| ()).map_err(|e| format!("{e:?}")),
            3 => net.loss(&batch.lib::<P>(), &lf).map(|_| ()).map_err(|e| format!("{e:?}")),
            4 => { net.max_pred_test(&batch.lib::<P>()); Ok(()) }
            _ => net.gradient_opt(batch.lib::<P>(), &lf, lr).map_err(|e| format!("{e:?}")),
        } };
        let mut other = assemble(layers::<P>(&specs, seed, &adj, &fuse));
        fuse.store(CALM, SeqCst);
        c.ok(CALLS[call], || go(&mut other));
        let uses = CALM - fuse.load(SeqCst);
        if uses == 0 { c.count("pooling function not used by the call", 1); continue; }
        let k = match c.rng.below(3) { 0 => 1, 1 => uses, _ => c.rng.range(1, uses as usize) as i64 };
        fuse.store(k, SeqCst);
        let out = c.attempt(|| go(&mut net));
        fuse.store(CALM, SeqCst);
        if let Outcome::Ret(Ok(())) = out { c.fail(format!("{} {}: returned although use {k} of {uses} of the pooling function failed: {specs:?}", P::NAME, CALLS[call])); }
        let after = view(c, &net, &probe.xs, "after a failed pooling function");
        c.check(after == before, || format!("{} {}: changed the network although use {k} of {uses} of the pooling function failed: {specs:?}", P::NAME, CALLS[call]));
        c.count(CALLS[call], 1);
        c.count(if k == 1 { "first use fails" } else if k == uses { "last use fails" } else { "use in the middle fails" }, 1);
        c.sig(&[P::IS32 as u64, call as u64, k as u64, uses as u64, specs.len() as u64]);
    }
    // a later call behaves as if nothing had happened
    let mut twin = assemble(layers::<P>(&specs, seed, &adj, &fuse));
    c.ok("training after a failure", || net.gradient_opt(batch.lib::<P>(), &lf, lr));
    c.ok("training", || twin.gradient_opt(batch.lib::<P>(), &lf, lr));
    let mut xs = Vec::new();
    for x in &probe.xs { let lx = lib_feat::<P>(x); if let Outcome::Ret(Ok(_)) = c.attempt(|| twin.collect_acts(lx)) { xs.push(x.clone()); } }
    let (a, b) = (view(c, &net, &xs, "after training"), view(c, &twin, &xs, "after training"));
    c.check(a == b, || format!("{}: training after a failed pooling function differs from training without one: {specs:?}", P::NAME));
    c.count("valid calls after failures", 1);
    c.sample(|| format!("{} {specs:?}: {rounds} calls whose pooling function fails, then training", P::NAME));
}

fn matrix<P: Prec>(c: &mut Ctx) {
    let (bh, bw) = (c.rng.range(1, 3), c.rng.range(1, 3));
    let (nh, nw) = (size(c, 4, 40), size(c, 4, 40));
    let t = tab::<P>(&mut c.rng, Reg::Gauss, bh * nh, bw * nw);
    let m: Matrix<P> = lib_mat(&t);
    let k = c.rng.range(1, nh * nw) as i64;
    let fuse: Fuse = Arc::new(AtomicI64::new(k));
    let f = fused::<P>(PoolKind::Sum, fuse.clone());
    let out = c.attempt(|| m.block_reduce(&[bh, bw], &f));
    if let Outcome::Ret(Ok(_)) = out { c.fail(format!("{} block_reduce of {}x{} by {bh}x{bw} returned although use {k} of the function failed", P::NAME, t.r, t.c)); }
    fuse.store(CALM, SeqCst);
    let got = c.ok("block_reduce", || m.block_reduce(&[bh, bw], &f));
    let g = pool_fn::<P>(PoolKind::Sum);
    let want = c.ok("block_reduce", || lib_mat::<P>(&t).block_reduce(&[bh, bw], &g));
    let bits = |m: &Matrix<P>| m.get_body().iter().map(|x| Prec::bits(*x)).collect::<Vec<_>>();
    c.check(got.get_shape() == want.get_shape() && bits(&got) == bits(&want), || format!("{} block_reduce after a failure differs from block_reduce of a new matrix", P::NAME));
    c.count("matrices", 1);
    c.sig(&[9, P::IS32 as u64, bh as u64, bw as u64, nh as u64, nw as u64, k as u64]);
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { network::<Cf32>(c) } else { network::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { matrix::<Cf32>(c) } else { matrix::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "networks", quick: 20_000, thorough: 200_000, f: f1 },
    Stage { name: "large-networks", quick: 600, thorough: 6_000, f: f1 },
    Stage { name: "matrices", quick: 30_000, thorough: 300_000, f: f2 },
    Stage { name: "large-matrices", quick: 2_000, thorough: 20_000, f: f2 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C37",
        rule: "distinct (call, failing use, number of uses, network depth) and distinct (blocks, failing use)",
        assumptions: &["the pooling function fails by panicking"],
        stages: STAGES,
        must_observe: &["prediction", "activations", "interception", "loss", "accuracy", "training", "first use fails", "last use fails", "use in the middle fails", "valid calls after failures", "matrices"],
    });
}
