//! Runs monitored cases, decides, writes evidence.
//!
//! Exit codes: 0 held on everything observed; 1 with a VIOLATION line; anything else means
//! "no answer" (harness error, run killed, nothing observed) and is never a violation.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use crate::rng::{hash_bytes, hash_words, Rng};

pub struct Stage {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Ctx),
}

#[derive(Clone, Debug)]
pub struct PanicInfo { pub file: String, pub line: u32, pub msg: String }
impl PanicInfo {
    /// True if the panic was raised by library (or dependency) code rather than by the monitors.
    pub fn is_library(&self) -> bool { self.msg.starts_with("LIB:") || !(self.file.starts_with("src/") || self.file.contains("/verif/harness/")) }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<PanicInfo>> = const { std::cell::RefCell::new(None) };
}

/// Outcome of one monitored library call.
pub enum Outcome<R> { Ret(R), Panic(PanicInfo) }

struct Stop;

#[derive(Default)]
pub struct Tally {
    pub evals: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
    pub maxratio: BTreeMap<&'static str, f64>,
}

pub struct Ctx {
    pub rng: Rng,
    pub stage: &'static str,
    pub idx: u64,
    pub seed: u64,
    /// Tiny workloads for the sanitizers and the interpreter.
    pub small: bool,
    /// Stages whose name starts with "large": big sizes, long batches, deep networks.
    pub big: bool,
    pub thorough: bool,
    pub tally: Tally,
    failure: Option<String>,
}

impl Ctx {
    pub fn new(prop: &str, stage: &'static str, idx: u64, seed: u64, small: bool, thorough: bool) -> Ctx {
        let rng = Rng::new(&[seed, hash_bytes(prop.as_bytes()), hash_bytes(stage.as_bytes()), idx]);
        Ctx { rng, stage, idx, seed, small, big: !small && stage.starts_with("large"), thorough, tally: Tally::default(), failure: None }
    }
    /// One oracle evaluation; on failure records the violation and ends the case.
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        self.tally.evals += 1;
        if !ok { self.fail(msg()); }
    }
    pub fn fail(&mut self, msg: String) -> ! {
        if self.failure.is_none() { self.failure = Some(msg); }
        resume_unwind(Box::new(Stop));
    }
    /// |err| <= tol, with the tightest margin remembered for the evidence.
    pub fn within(&mut self, what: &'static str, err: f64, tol: f64, msg: impl FnOnce() -> String) {
        self.tally.evals += 1;
        let ok = err <= tol; // false for NaN
        if ok {
            if tol > 0.0 {
                let r = self.tally.maxratio.entry(what).or_insert(0.0);
                if err / tol > *r { *r = err / tol; }
            }
        } else {
            let m = msg();
            self.fail(format!("{what}: error {err:e} > tolerance {tol:e}: {m}"));
        }
    }
    pub fn count(&mut self, what: &'static str, n: u64) { *self.tally.counts.entry(what).or_insert(0) += n; }
    /// Marks the case as non-trivial with a signature; distinct signatures are reported.
    pub fn sig(&mut self, words: &[u64]) {
        let h = hash_words(&[hash_bytes(self.stage.as_bytes()), hash_words(words)]);
        self.tally.distinct.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 3 && self.tally.samples.len() < 2 { let s = f(); self.tally.samples.push(s); }
    }
    pub fn known(&mut self, id: String) { *self.tally.known.entry(id).or_insert(0) += 1; }
    /// Runs a library call, catching panics. Stops from monitors inside callbacks pass through.
    pub fn attempt<R>(&mut self, f: impl FnOnce() -> R) -> Outcome<R> {
        LAST_PANIC.with(|p| *p.borrow_mut() = None);
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Outcome::Ret(r),
            Err(e) => {
                if e.is::<Stop>() { resume_unwind(e); }
                let info = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(PanicInfo { file: "?".into(), line: 0, msg: payload(&e) });
                Outcome::Panic(info)
            }
        }
    }
    /// A library call that has to return: a panic is a violation.
    pub fn call<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> R {
        match self.attempt(f) {
            Outcome::Ret(r) => r,
            Outcome::Panic(p) => self.fail(format!("{what} panicked at {}:{}: {}", p.file, p.line, p.msg)),
        }
    }
    /// A library call that has to return Ok.
    pub fn ok<R, E: std::fmt::Debug>(&mut self, what: &str, f: impl FnOnce() -> Result<R, E>) -> R {
        match self.call(what, f) {
            Ok(r) => r,
            Err(e) => self.fail(format!("{what} returned Err({e:?}) for valid arguments")),
        }
    }
    /// A library call that has to fail, by an error value or by a panic.
    pub fn refused<R, E>(&mut self, what: &str, f: impl FnOnce() -> Result<R, E>) {
        self.tally.evals += 1;
        match self.attempt(f) {
            Outcome::Ret(Ok(_)) => self.fail(format!("{what} was accepted")),
            Outcome::Ret(Err(_)) => self.count("refused by error", 1),
            Outcome::Panic(_) => self.count("refused by panic", 1),
        }
    }
    /// A library call that has to return an error value (not panic, not succeed).
    pub fn err<R, E>(&mut self, what: &str, f: impl FnOnce() -> Result<R, E>) {
        self.tally.evals += 1;
        match self.attempt(f) {
            Outcome::Ret(Ok(_)) => self.fail(format!("{what} was accepted instead of returning an error")),
            Outcome::Ret(Err(_)) => self.count("refused by error", 1),
            Outcome::Panic(p) => self.fail(format!("{what} panicked at {}:{} ({}) instead of returning an error", p.file, p.line, p.msg)),
        }
    }
}

fn payload(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let (file, line) = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or(("?".into(), 0));
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(PanicInfo { file, line, msg }));
    }));
}

pub enum CaseResult { Held, Violated(String), Harness(String) }

pub fn run_case(f: fn(&mut Ctx), c: &mut Ctx) -> CaseResult {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| f(c))) {
        Ok(()) => CaseResult::Held,
        Err(e) => {
            if e.is::<Stop>() { return CaseResult::Violated(c.failure.take().unwrap_or_default()); }
            let info = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(PanicInfo { file: "?".into(), line: 0, msg: payload(&e) });
            if info.is_library() && info.file != "?" {
                CaseResult::Violated(format!("library code panicked at {}:{}: {}", info.file, info.line, info.msg))
            } else {
                CaseResult::Harness(format!("monitor panicked at {}:{}: {}", info.file, info.line, info.msg))
            }
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn env_u64(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d) }

fn verif_dir() -> PathBuf { std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif")) }

pub struct Plan {
    pub prop: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub stages: &'static [Stage],
    /// Counters that must be non-zero for the run to mean anything.
    pub must_observe: &'static [&'static str],
}

/// Entry point of every per-property monitor.
pub fn main(plan: Plan) {
    install_hook();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let seed = env_u64("VERIF_SEED", 1);
    let args: Vec<String> = std::env::args().collect();
    // Deliberate faults, to show that the sanitizer a binary was built with is at work.
    if args.len() == 3 && args[1] == "--canary" { canary(&args[2]); }
    // Replay of one case: <bin> --case STAGE IDX SEED
    if args.len() == 5 && args[1] == "--case" {
        let st = match plan.stages.iter().find(|s| s.name == args[2]) { Some(s) => s, None => { eprintln!("no such stage"); std::process::exit(2) } };
        let mut c = Ctx::new(plan.prop, st.name, args[3].parse().unwrap(), args[4].parse().unwrap(), false, thorough);
        match run_case(st.f, &mut c) {
            CaseResult::Held => { println!("held"); std::process::exit(0) }
            CaseResult::Violated(m) => { println!("violated: {m}"); std::process::exit(1) }
            CaseResult::Harness(m) => { println!("harness error: {m}"); std::process::exit(2) }
        }
    }
    if std::env::var_os("VERIF_CHILD").is_none() {
        let code = supervise(&plan, seed, &tier);
        std::process::exit(code);
    }
    let code = run(&plan, seed, thorough, &tier);
    std::process::exit(code);
}

/// Commits one deliberate fault and reports whether it went unnoticed.
pub fn canary(kind: &str) -> ! {
    use std::hint::black_box;
    match kind {
        "oob" => { let v = black_box(vec![1u8; 8]); let p = v.as_ptr(); let x = unsafe { p.add(black_box(8)).read_volatile() }; black_box(x); }
        "uaf" => { let v = black_box(vec![1u8; 8]); let p = v.as_ptr(); drop(v); let x = unsafe { p.add(black_box(1)).read_volatile() }; black_box(x); }
        "uninit" => { let v: Vec<u8> = Vec::with_capacity(64); let p = black_box(v.as_ptr()); let x = unsafe { p.add(black_box(7)).read_volatile() }; if x > 100 { println!("large"); } else { println!("small"); } }
        "race" => {
            static mut N: u64 = 0;
            let p = std::ptr::addr_of_mut!(N) as usize;
            let hs: Vec<_> = (0..2).map(|_| std::thread::spawn(move || for _ in 0..1000 { unsafe { let q = p as *mut u64; q.write_volatile(q.read_volatile() + 1); } })).collect();
            for h in hs { h.join().unwrap(); }
        }
        _ => { eprintln!("no such canary"); std::process::exit(2) }
    }
    println!("CANARY-UNNOTICED {kind}");
    std::process::exit(0)
}

/// Runs the monitored workload in a child process so that a crash of the code under test is observed.
fn supervise(plan: &Plan, seed: u64, tier: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let inflight = std::env::temp_dir().join(format!("verif-inflight-{}-{}", plan.prop, std::process::id()));
    let t0 = Instant::now();
    let status = std::process::Command::new(&exe)
        .env("VERIF_CHILD", "1").env("VERIF_INFLIGHT", &inflight)
        .status();
    let code = match status {
        Err(e) => { eprintln!("cannot start the monitored run: {e}"); 2 }
        Ok(s) => match s.code() {
            Some(c) => c,
            None => {
                let sig = s.signal().unwrap_or(0);
                let txt = std::fs::read_to_string(&inflight).unwrap_or_default();
                let mut verdict = 3;
                // SIGKILL and the like say nothing about the property.
                if [4, 6, 7, 8, 11].contains(&sig) {
                    for line in txt.lines() {
                        let w: Vec<&str> = line.split_whitespace().collect();
                        if w.len() < 2 { continue; }
                        let r = std::process::Command::new(&exe).args(["--case", w[0], w[1], &seed.to_string()]).env_remove("VERIF_CHILD").status();
                        if let Ok(r) = r {
                            if r.code().is_none() && [4, 6, 7, 8, 11].contains(&r.signal().unwrap_or(0)) {
                                let msg = format!("the code under test killed the process with signal {sig}; reproduced by this case alone");
                                report(plan, seed, tier, w[0], w[1].parse().unwrap_or(0), &msg);
                                write_evidence(plan, seed, tier, &Tally { evals: 1, ..Default::default() }, t0.elapsed().as_secs_f64(), 1, &BTreeMap::new());
                                verdict = 1;
                                break;
                            }
                        }
                    }
                }
                if verdict != 1 { eprintln!("monitored run ended by signal {sig}, not reproduced by a single case: no answer"); }
                verdict
            }
        },
    };
    let _ = std::fs::remove_file(&inflight);
    code
}

fn report(plan: &Plan, seed: u64, tier: &str, stage: &str, idx: u64, msg: &str) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-replay.txt", plan.prop));
    let text = format!("property={}\nstage={}\ncase={}\nseed={}\ntier={}\nreplay: VERIF_TIER={} /verif/check.sh {} --case {} {} {}\nobserved: {}\n",
        plan.prop, stage, idx, seed, tier, tier, plan.prop, stage, idx, seed, msg);
    let _ = std::fs::write(&path, text);
    println!("observed: {} (stage {stage}, case {idx}, seed {seed})", msg);
    println!("VIOLATION property={} replay={}", plan.prop, path.display());
}

fn write_evidence(plan: &Plan, seed: u64, tier: &str, t: &Tally, wall: f64, violations: u64, ran: &BTreeMap<&'static str, u64>) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut o = String::new();
    o.push_str(&format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", esc(plan.prop), esc(tier), seed));
    o.push_str(&format!(" \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", t.evals, t.distinct.len(), esc(plan.rule)));
    let samples: Vec<String> = t.samples.iter().take(12).map(|s| esc(s)).collect();
    o.push_str(&format!("  \"samples\": [{}],\n", samples.join(",\n   ")));
    let st: Vec<String> = ran.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    o.push_str(&format!("  \"cases_per_stage\": {{{}}},\n", st.join(", ")));
    let cs: Vec<String> = t.counts.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    o.push_str(&format!("  \"observed\": {{{}}},\n", cs.join(", ")));
    let ms: Vec<String> = t.maxratio.iter().map(|(k, v)| format!("{}: {:.4}", esc(k), v)).collect();
    o.push_str(&format!("  \"largest_error_over_tolerance\": {{{}}},\n", ms.join(", ")));
    let ks: Vec<String> = t.known.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    o.push_str(&format!("  \"known_findings_seen\": {{{}}}\n }},\n", ks.join(", ")));
    let asm: Vec<String> = plan.assumptions.iter().map(|s| esc(s)).collect();
    o.push_str(&format!(" \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n", asm.join(", "), violations, wall));
    let path = dir.join(format!("{}.json", plan.prop));
    if let Err(e) = std::fs::write(&path, o) { eprintln!("cannot write {}: {e}", path.display()); std::process::exit(2); }
}

fn merge(a: &mut Tally, b: Tally) {
    a.evals += b.evals;
    for (k, v) in b.counts { *a.counts.entry(k).or_insert(0) += v; }
    for (k, v) in b.known { *a.known.entry(k).or_insert(0) += v; }
    for (k, v) in b.maxratio { let r = a.maxratio.entry(k).or_insert(0.0); if v > *r { *r = v; } }
    a.distinct.extend(b.distinct);
    a.samples.extend(b.samples);
}

fn run(plan: &Plan, seed: u64, thorough: bool, tier: &str) -> i32 {
    let t0 = Instant::now();
    let workers = env_u64("VERIF_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)).max(1);
    let inflight = std::env::var_os("VERIF_INFLIGHT").and_then(|p| std::fs::File::create(p).ok());
    let total = Mutex::new(Tally::default());
    let bad: Mutex<Vec<(String, u64, String)>> = Mutex::new(Vec::new());
    let broken: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let stop = AtomicBool::new(false);
    let mut ran: BTreeMap<&'static str, u64> = BTreeMap::new();
    let only = std::env::var("VERIF_STAGE").ok();
    for st in plan.stages {
        if let Some(o) = &only { if o != st.name { continue; } }
        let n = if thorough { st.thorough } else { st.quick };
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|s| {
            for w in 0..workers {
                let (next, done, stop, total, bad, broken, inflight) = (&next, &done, &stop, &total, &bad, &broken, &inflight);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    let mut local = Tally::default();
                    loop {
                        if stop.load(Ordering::Relaxed) { break; }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n { break; }
                        if let Some(f) = inflight {
                            use std::os::unix::fs::FileExt;
                            let line = format!("{:<40} {:<22}\n", st.name, i);
                            let _ = f.write_all_at(line.as_bytes(), w * 64);
                        }
                        let mut c = Ctx::new(plan.prop, st.name, i, seed, false, thorough);
                        let r = run_case(st.f, &mut c);
                        done.fetch_add(1, Ordering::Relaxed);
                        merge(&mut local, std::mem::take(&mut c.tally));
                        match r {
                            CaseResult::Held => {}
                            CaseResult::Violated(m) => {
                                let mut b = bad.lock().unwrap();
                                b.push((st.name.to_string(), i, m));
                                if b.len() >= 8 { stop.store(true, Ordering::Relaxed); }
                            }
                            CaseResult::Harness(m) => {
                                let mut b = broken.lock().unwrap();
                                b.push(format!("stage {} case {}: {}", st.name, i, m));
                                if b.len() >= 8 { stop.store(true, Ordering::Relaxed); }
                            }
                        }
                    }
                    merge(&mut total.lock().unwrap(), local);
                }).unwrap();
            }
        });
        ran.insert(st.name, done.load(Ordering::Relaxed));
        if !bad.lock().unwrap().is_empty() { break; }
    }
    let mut t = total.into_inner().unwrap();
    t.samples.sort();
    let mut bad = bad.into_inner().unwrap();
    let broken = broken.into_inner().unwrap();
    bad.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(plan, seed, tier, &t, wall, bad.len() as u64, &ran);
    println!("{}: {} cases, {} oracle evaluations, {} distinct non-trivial configurations, {:.1}s",
        plan.prop, ran.values().sum::<u64>(), t.evals, t.distinct.len(), wall);
    for (k, v) in &t.counts { println!("  observed {k}: {v}"); }
    for (k, v) in &t.known { println!("KNOWN-FINDING: property={} {} (seen {} times)", plan.prop, k, v); }
    let _ = std::io::stdout().flush();
    if !bad.is_empty() {
        for (s, i, m) in bad.iter().skip(1).take(4) { println!("also: stage {s} case {i}: {m}"); }
        let (s, i, m) = bad[0].clone();
        report(plan, seed, tier, &s, i, &m);
        return 1;
    }
    if !broken.is_empty() {
        for b in &broken { eprintln!("harness error: {b}"); }
        return 2;
    }
    if only.is_none() {
        for k in plan.must_observe {
            if t.counts.get(k).copied().unwrap_or(0) == 0 { eprintln!("harness error: nothing observed for \"{k}\""); return 2; }
        }
        if t.evals == 0 || t.distinct.is_empty() { eprintln!("harness error: nothing observed"); return 2; }
    }
    0
}
