//! Runs a sample of the workloads of every monitor for the sanitizers and the interpreter.
//! What the monitors conclude is ignored here; only the sanitizer speaks.
//!
//! SAN_CASES: cases per stage; SAN_SMALL=1: tiny workloads; SAN_SKIP: properties or property/stage left out;
//! SAN_PART=i/n: every n-th case starting with the i-th; SAN_WORKERS: threads; SAN_SECONDS: start no case later,
//! and spread the time over the stages.
use monitors::driver::{canary, install_hook, run_case, CaseResult};
use monitors::{Ctx, Stage};
use std::sync::atomic::{AtomicU64, Ordering};
macro_rules! all { ($($m:ident $f:literal $p:literal),*) => {
    $( #[path = $f] #[allow(dead_code)] mod $m; )*
    const ALL: &[(&str, &[Stage])] = &[ $( ($p, $m::STAGES) ),* ];
} }
all!(c01 "c01.rs" "C01", c02 "c02.rs" "C02", c03 "c03.rs" "C03", c04 "c04.rs" "C04", c05 "c05.rs" "C05", c06 "c06.rs" "C06",
     c07 "c07.rs" "C07", c08 "c08.rs" "C08", c09 "c09.rs" "C09", c10 "c10.rs" "C10", c11 "c11.rs" "C11", c12 "c12.rs" "C12",
     c13 "c13.rs" "C13", c14 "c14.rs" "C14", c15 "c15.rs" "C15", c16 "c16.rs" "C16", c17 "c17.rs" "C17", c18 "c18.rs" "C18",
     c19 "c19.rs" "C19", c20 "c20.rs" "C20", c21 "c21.rs" "C21", c22 "c22.rs" "C22", c23 "c23.rs" "C23", c24 "c24.rs" "C24",
     c25 "c25.rs" "C25", c26 "c26.rs" "C26", c27 "c27.rs" "C27", c28 "c28.rs" "C28", c29 "c29.rs" "C29", c30 "c30.rs" "C30",
     c31 "c31.rs" "C31", c32 "c32.rs" "C32", c33 "c33.rs" "C33", c35 "c35.rs" "C35", c36 "c36.rs" "C36",
     c37 "c37.rs" "C37", c38 "c38.rs" "C38", c39 "c39.rs" "C39", c40 "c40.rs" "C40");

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "--canary" { canary(&args[2]); }
    install_hook();
    let e = |k: &str| std::env::var(k).unwrap_or_default();
    let cases: u64 = e("SAN_CASES").parse().unwrap_or(20);
    let seed: u64 = e("VERIF_SEED").parse().unwrap_or(1);
    let small = e("SAN_SMALL") == "1";
    let workers: usize = e("SAN_WORKERS").parse().unwrap_or(8);
    let skip: Vec<String> = e("SAN_SKIP").split(',').map(|s| s.to_string()).collect();
    let only: Vec<String> = e("SAN_ONLY").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let part: Vec<usize> = e("SAN_PART").split('/').filter_map(|s| s.parse().ok()).collect();
    let verbose = e("SAN_VERBOSE") == "1";
    let (i0, n) = if part.len() == 2 { (part[0], part[1]) } else { (0, 1) };
    let mut jobs: Vec<(&'static str, &'static Stage)> = Vec::new();
    for (p, st) in ALL { for s in *st {
        let name = format!("{p}/{}", s.name);
        if skip.iter().any(|k| k == p || *k == name) { continue; }
        if !only.is_empty() && !only.iter().any(|k| k == p || *k == name) { continue; }
        jobs.push((p, s));
    } }
    let (limit, t0) = (e("SAN_SECONDS").parse::<u64>().unwrap_or(u64::MAX), std::time::Instant::now());
    let (next, held, violated, broken) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let evals = AtomicU64::new(0);
    let spent: Vec<AtomicU64> = jobs.iter().map(|_| AtomicU64::new(0)).collect();
    let work = || loop {
        let k = next.fetch_add(1, Ordering::Relaxed);
        // case-major order, so that neighbours in time come from different stages
        let (ji, idx) = ((k % jobs.len().max(1) as u64) as usize, k / jobs.len().max(1) as u64);
        if idx >= cases || jobs.is_empty() || t0.elapsed().as_secs() >= limit { break; }
        if k % n as u64 != i0 as u64 { continue; }
        let (p, st) = jobs[ji];
        if idx >= st.quick { continue; }
        if limit != u64::MAX && idx > 0 && spent[ji].load(Ordering::Relaxed) as usize * jobs.len() > 2 * t0.elapsed().as_millis() as usize { continue; }
        if verbose { eprintln!("case {p} {} {idx} seed {seed}", st.name); }
        let t = std::time::Instant::now();
        let mut c = Ctx::new(p, st.name, idx, seed, small, false);
        match run_case(st.f, &mut c) { CaseResult::Held => held.fetch_add(1, Ordering::Relaxed), CaseResult::Violated(_) => violated.fetch_add(1, Ordering::Relaxed), CaseResult::Harness(_) => broken.fetch_add(1, Ordering::Relaxed) };
        evals.fetch_add(c.tally.evals, Ordering::Relaxed);
        spent[ji].fetch_add(t.elapsed().as_millis() as u64, Ordering::Relaxed);
        if verbose { eprintln!("   {:?}", t.elapsed()); }
    };
    if workers <= 1 { work(); } else {
        std::thread::scope(|s| { for _ in 0..workers { std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, &work).unwrap(); } });
    }
    println!("SAN-DONE stages={} cases={} evals={} held={} violated={} broken={}", jobs.len(),
        held.load(Ordering::Relaxed) + violated.load(Ordering::Relaxed) + broken.load(Ordering::Relaxed),
        evals.load(Ordering::Relaxed), held.load(Ordering::Relaxed), violated.load(Ordering::Relaxed), broken.load(Ordering::Relaxed));
}
