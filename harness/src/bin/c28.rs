//! C28: sharing networks between threads.
use monitors::driver::{main as run, Plan};
use monitors::nets::*;
use monitors::num::z;
use monitors::refm::*;
use monitors::train::*;
use monitors::work::*;
use monitors::{Ctx, Prec, Stage};
use renplex::cvnn::layer::{conv::ConvCLayer, dense::DenseCLayer, flatten::Flatten, reduce::Reduce};
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::init::InitMethod;
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::opt::ComplexLossFunc as L;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

/// Lends a value to other threads whether or not the compiler would allow it; whether it would is
/// looked up separately.
struct Lend<'a, T>(&'a T);
unsafe impl<T> Sync for Lend<'_, T> {}
unsafe impl<T> Send for Lend<'_, T> {}
impl<T> Lend<'_, T> { fn get(&self) -> &T { self.0 } }

// Is a type Sync or Send? Method lookup prefers the first trait where its bound holds.
struct Probe<T>(std::marker::PhantomData<T>);
trait YesSync { fn is_sync(&self) -> bool; }
trait NoSync { fn is_sync(&self) -> bool { false } }
impl<T: Sync> YesSync for Probe<T> { fn is_sync(&self) -> bool { true } }
impl<T> NoSync for &Probe<T> {}
trait YesSend { fn is_send(&self) -> bool; }
trait NoSend { fn is_send(&self) -> bool { false } }
impl<T: Send> YesSend for Probe<T> { fn is_send(&self) -> bool { true } }
impl<T> NoSend for &Probe<T> {}
macro_rules! probe { ($c:expr, $($t:ty),*) => { $( {
    let p = Probe::<$t>(std::marker::PhantomData);
    let (sync, send) = ((&p).is_sync(), (&p).is_send());
    $c.check(sync, || format!("{} cannot be shared between threads", stringify!($t)));
    $c.check(send, || format!("{} cannot be moved to another thread", stringify!($t)));
    $c.count("types that may be shared and moved", 1);
} )* } }

fn traits(c: &mut Ctx) {
    struct Canary(#[allow(dead_code)] std::rc::Rc<u8>);
    let p = Probe::<Canary>(std::marker::PhantomData);
    let (a, b) = ((&p).is_sync(), (&p).is_send());
    if a || b { panic!("the probe does not recognise a type that cannot be shared"); }
    probe!(c, CNetwork<Cf32>, CNetwork<Cf64>, Dataset<Cf32, Cf32>, Dataset<Cf64, Cf64>, IOType<Cf32>, IOType<Cf64>, Matrix<Cf32>, Matrix<Cf64>, Reduce<Cf32>, Reduce<Cf64>, renplex::cvnn::layer::CLayer<Cf32>, renplex::cvnn::layer::CLayer<Cf64>);
    c.sig(&[c.idx as u64]);
}

/// Everything one can ask a shared network, as bit patterns; a panic is an answer of its own.
fn ask<P: Prec>(net: &CNetwork<P>, x: &IOType<P>, ds: &Dataset<P, P>, what: usize, depth: usize) -> Vec<u64> {
    let r = catch_unwind(AssertUnwindSafe(|| match what {
        0 => net.forward(x).map(|o| bits_of(&o)).unwrap_or(vec![3]),
        1 => net.intercept(x.clone(), depth).map(|(o, _)| bits_of(&o)).unwrap_or(vec![3]),
        2 => net.collect_acts(x.clone()).map(|v| v.iter().flat_map(bits_of).collect()).unwrap_or(vec![3]),
        3 => net.loss(ds, &L::MeanSquare).map(|l| vec![P::flbits(l)]).unwrap_or(vec![3]),
        4 => net.loss(ds, &L::NormCrossEntropy).map(|l| vec![P::flbits(l)]).unwrap_or(vec![3]),
        _ => vec![P::flbits(net.max_pred_test(ds))],
    }));
    r.unwrap_or(vec![4])
}

fn share<P: Prec>(c: &mut Ctx) {
    let (net, xs, ts, depth, words): (CNetwork<P>, Vec<IOType<P>>, Vec<IOType<P>>, usize, Vec<u64>);
    let calls = Arc::new(AtomicU64::new(0));
    if c.idx % 3 == 0 {
        // a pooling layer with a function that has state of its own, safe to share
        let k = calls.clone();
        let mut s = gen_seed(&mut c.rng);
        let (h, w) = (c.rng.range(1, 3), c.rng.range(1, 3));
        let mut n: CNetwork<P> = CNetwork::new();
        c.ok("add_input", || n.add_input(ConvCLayer::<P>::init(IOShape::Matrix(2), 3, [2, 2], renplex::act::ComplexActFunc::RITTanh, InitMethod::XavierGlorotU(20), &mut s).unwrap().wrap()));
        let pool = Reduce::<P>::init(3, [2, 2], Box::new(move |b: &[P]| { k.fetch_add(1, Ordering::Relaxed); let mut m = b[0]; for x in b { m += *x; } m }), Matrix::from_body(vec![P::of(z(1.0, 0.0))], [1, 1])).wrap();
        c.ok("add", || n.add(pool));
        c.ok("add", || n.add(Flatten::init([h, w], 3).wrap()));
        c.ok("add", || n.add(DenseCLayer::<P>::init(IOShape::Scalar(3 * h * w), 4, renplex::act::ComplexActFunc::RITSigmoid, InitMethod::HeInit(9), &mut s).unwrap().wrap()));
        net = n;
        xs = (0..4).map(|_| lib_feat::<P>(&gen_input::<P>(&mut c.rng, InDim::M(2, 2 * h + 1, 2 * w + 1), Reg::Gauss))).collect();
        ts = (0..4).map(|_| IOType::Scalar(lib_vec::<P>(&vals::<P>(&mut c.rng, Reg::Disc, 4)))).collect();
        depth = 4;
        words = vec![h as u64, w as u64];
        c.count("networks with a stateful pooling function", 1);
    } else {
        let o = NetOpts { acts: &ACTS, exact_pool: false, allow_maps: true, flat_end: true, min_layers: 1, max_layers: 5, max_ch: 3, max_dim: 8 };
        let (d, specs) = gen_net::<P>(&mut c.rng, &o);
        let seed = gen_seed(&mut c.rng);
        let adj = gen_adj::<P>(&mut c.rng, &specs, Reg::Disc);
        let rl = reference::<P>(&specs, seed, &adj);
        net = build::<P>(&specs, seed, &adj);
        let fs: Vec<Feat> = (0..4).map(|_| gen_input::<P>(&mut c.rng, d, Reg::Gauss)).collect();
        ts = fs.iter().map(|x| { let n = trace::<P>(&rl, x).feats.last().unwrap().flat().len(); IOType::Scalar(lib_vec::<P>(&vals::<P>(&mut c.rng, Reg::Disc, n))) }).collect();
        xs = fs.iter().map(lib_feat::<P>).collect();
        depth = specs.len();
        words = monitors::nets::words(&specs);
        c.count("random networks shared", 1);
    }
    // separate batches, so that concurrent calls work on different data
    let sets: Vec<Dataset<P, P>> = (0..4).map(|i| { let mut d = Dataset::new(); for j in 0..=i { d.add_point((xs[(i + j) % 4].clone(), ts[(i + j) % 4].clone())); } d }).collect();
    // alone
    let mut want = Vec::new();
    for i in 0..4 { for what in 0..6 { want.push(ask(&net, &xs[i], &sets[i], what, i % depth)); } }
    // together
    let threads = c.rng.range(2, 6);
    let rounds = if c.small { 2 } else { c.rng.range(2, 6) };
    let plans: Vec<Vec<usize>> = (0..threads).map(|_| { let mut p: Vec<usize> = (0..rounds).flat_map(|_| 0..24).collect(); c.rng.shuffle(&mut p); p }).collect();
    let lent = Lend(&net);
    let gate = Barrier::new(threads);
    let (want, xs, sets) = (Lend(&want), Lend(&xs), Lend(&sets));
    let bad: Vec<(usize, usize)> = std::thread::scope(|s| {
        let hs: Vec<_> = plans.iter().map(|p| { let (lent, gate, want, xs, sets) = (&lent, &gate, &want, &xs, &sets); s.spawn(move || {
            gate.wait();
            p.iter().filter(|k| ask(lent.get(), &xs.get()[**k / 6], &sets.get()[**k / 6], **k % 6, (**k / 6) % depth) != want.get()[**k]).map(|k| (*k / 6, *k % 6)).collect::<Vec<_>>()
        }) }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    let names = ["a prediction", "an interception", "activations", "a mean-square loss", "a cross-entropy loss", "an accuracy"];
    c.check(bad.is_empty(), || format!("{}: {} of {} concurrent answers differ from those given alone, for example {} for input {}", P::NAME, bad.len(), threads * rounds * 24, names[bad[0].1], bad[0].0));
    c.count("concurrent answers compared", (threads * rounds * 24) as u64);
    // and afterwards
    for i in 0..4 { for what in 0..6 { let a = ask(&net, &xs.get()[i], &sets.get()[i], what, i % depth); c.check(a == want.get()[i * 6 + what], || format!("{}: {} differs after concurrent use", P::NAME, names[what])); } }
    let mut w = words; w.push(threads as u64);
    c.sig(&w);
    c.sample(|| format!("{} {threads} threads asked a network {} questions each", P::NAME, rounds * 24));
}

fn train<P: Prec>(c: &mut Ctx) {
    let threads = c.rng.range(2, 5);
    let o = NetOpts { acts: &ACTS, exact_pool: false, allow_maps: true, flat_end: c.rng.chance(2, 3), min_layers: 2, max_layers: 4, max_ch: 3, max_dim: 6 };
    let (d, specs) = gen_net::<P>(&mut c.rng, &o);
    // same architecture for all (shapes then agree), different seeds and data, or entirely the same
    let same = c.rng.chance(1, 3);
    let seed0 = gen_seed(&mut c.rng);
    let mut jobs: Vec<(u128, Vec<Batch>)> = Vec::new();
    for k in 0..threads {
        let seed = if same { seed0 } else { seed0.wrapping_add(977 * k as u128) };
        let rl = reference::<P>(&specs, seed, &vec![]);
        let mut bs = Vec::new();
        for _ in 0..2 { match gen_batch::<P>(c, &rl, d, 3, Reg::Gauss) { Some(b) => bs.push(b), None => { c.count("no smooth points found, skipped", 1); return; } } }
        jobs.push((seed, bs));
    }
    let lr = P::of(P::rnd(z(0.05, 0.01)));
    let work = |job: &(u128, Vec<Batch>)| -> Vec<u64> {
        let mut net = build::<P>(&specs, job.0, &vec![]);
        let mut log = Vec::new();
        for (i, b) in job.1.iter().enumerate() {
            let lf = if i % 2 == 0 { L::MeanSquare } else { L::NormCrossEntropy };
            match catch_unwind(AssertUnwindSafe(|| net.gradient_opt(b.lib::<P>(), &lf, lr))) { Ok(Ok(_)) => log.push(0), Ok(Err(_)) => log.push(1), Err(_) => { log.push(2); break; } }
        }
        for b in &job.1 { for x in &b.xs { log.extend(catch_unwind(AssertUnwindSafe(|| net.collect_acts(lib_feat::<P>(x)).map(|v| v.iter().flat_map(bits_of).collect()).unwrap_or(vec![3]))).unwrap_or(vec![4])); } }
        log
    };
    let alone: Vec<Vec<u64>> = jobs.iter().map(&work).collect();
    let gate = Barrier::new(threads);
    let lent = Lend(&work);
    let together: Vec<Vec<u64>> = std::thread::scope(|s| {
        let (work, gate) = (&lent, &gate);
        let hs: Vec<_> = jobs.iter().map(|j| { let j = Lend(j); s.spawn(move || { gate.wait(); (work.get())(j.get()) }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    c.check(alone == together, || format!("{}: training {threads} networks at once gives other networks than training them one by one: {specs:?}", P::NAME));
    c.count("networks trained at once", threads as u64);
    let mut w = monitors::nets::words(&specs); w.push(threads as u64);
    c.sig(&w);
}

/// Networks trained on one thread while another network is asked on others.
fn mixed<P: Prec>(c: &mut Ctx) {
    let o = NetOpts { acts: &ACTS, exact_pool: false, allow_maps: true, flat_end: true, min_layers: 2, max_layers: 4, max_ch: 3, max_dim: 6 };
    let (d, specs) = gen_net::<P>(&mut c.rng, &o);
    let seed = gen_seed(&mut c.rng);
    let rl = reference::<P>(&specs, seed, &vec![]);
    let b = match gen_batch::<P>(c, &rl, d, 3, Reg::Gauss) { Some(b) => b, None => { c.count("no smooth points found, skipped", 1); return; } };
    let net = build::<P>(&specs, seed, &vec![]);
    let (ds, x) = (b.lib::<P>(), lib_feat::<P>(&b.xs[0]));
    let want: Vec<Vec<u64>> = (0..6).map(|w| ask(&net, &x, &ds, w, 1)).collect();
    let (lent, l_ds, l_x, l_b) = (Lend(&net), Lend(&ds), Lend(&x), Lend(&b));
    let l_specs = Lend(&specs);
    let bad: usize = std::thread::scope(|s| {
        let (lent, l_ds, l_x, l_b, want, l_specs) = (&lent, &l_ds, &l_x, &l_b, &want, &l_specs);
        let t = s.spawn(move || {
            // same seed, so the same parameters at the start
            let mut other = build::<P>(l_specs.get(), seed, &vec![]);
            for _ in 0..4 { if !matches!(catch_unwind(AssertUnwindSafe(|| other.gradient_opt(l_b.get().lib::<P>(), &L::MeanSquare, P::of(z(0.05, 0.0))))), Ok(Ok(_))) { break; } }
        });
        let hs: Vec<_> = (0..3).map(|_| s.spawn(move || (0..24).filter(|k| ask(lent.get(), l_x.get(), l_ds.get(), k % 6, 1) != want[k % 6]).count())).collect();
        t.join().unwrap();
        hs.into_iter().map(|h| h.join().unwrap()).sum()
    });
    c.check(bad == 0, || format!("{}: {bad} answers changed while another network of the same shape was trained: {specs:?}", P::NAME));
    c.count("answers given while another network trained", 72);
    c.sig(&monitors::nets::words(&specs));
}

fn f1(c: &mut Ctx) { if c.idx % 2 == 0 { share::<Cf32>(c) } else { share::<Cf64>(c) } }
fn f2(c: &mut Ctx) { if c.idx % 2 == 0 { train::<Cf32>(c) } else { train::<Cf64>(c) } }
fn f3(c: &mut Ctx) { if c.idx % 2 == 0 { mixed::<Cf32>(c) } else { mixed::<Cf64>(c) } }

pub const STAGES: &[Stage] = &[
    Stage { name: "traits", quick: 1, thorough: 1, f: traits },
    Stage { name: "share", quick: 3_000, thorough: 60_000, f: f1 },
    Stage { name: "train", quick: 3_000, thorough: 60_000, f: f2 },
    Stage { name: "mixed", quick: 2_000, thorough: 40_000, f: f3 },
];

#[allow(dead_code)]
fn main() {
    run(Plan {
        prop: "C28",
        rule: "distinct (architecture, number of threads)",
        assumptions: &["schedules that occurred, 8 cores, up to 48 threads at once"],
        stages: STAGES,
        must_observe: &["types that may be shared and moved", "random networks shared", "networks with a stateful pooling function", "concurrent answers compared", "networks trained at once", "answers given while another network trained"],
    });
}
