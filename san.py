#!/usr/bin/env python3
"""Decides C28 and C29: runs the property's own monitor, then the sanitizers.

Exit 0: held on everything observed. Exit 1 with a VIOLATION line: violated. Other: no answer.
A sanitizer that fails to notice the error planted in its canary gives no answer.
"""
import json, os, re, resource, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(HERE, "harness")
EV = os.path.join(HERE, "evidence")
T = "x86_64-unknown-linux-gnu"
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = os.environ.get("VERIF_SEED", "1")
THOROUGH = TIER == "thorough"
BASE = {**os.environ, "CARGO_INCREMENTAL": "0", "CARGO_NET_OFFLINE": "true", "VERIF_DIR": HERE,
        "VERIF_TIER": TIER, "VERIF_SEED": SEED}
BASE.pop("RUSTFLAGS", None)
t0 = time.time()
seen = {}  # what each detector observed
crashed = []  # monitor runs without an answer


def no_answer(why):
    print(f"{PROP}: {why}: no answer", file=sys.stderr)
    sys.exit(2)


def tail(text, n=60):
    return "\n".join(text.splitlines()[-n:])


def violation(what, log, cmd):
    os.makedirs(EV, exist_ok=True)
    path = os.path.join(EV, f"{PROP}-replay.txt")
    with open(path, "w") as f:
        f.write(f"property={PROP}\nseed={SEED}\ntier={TIER}\nobserved: {what}\nrun: {cmd}\n\n{tail(log, 150)}\n")
    doc = load()
    doc["violations"] = 1
    finish(doc)
    print(f"observed: {what}")
    print(tail(log, 25))
    print(f"VIOLATION property={PROP} replay={path}")
    sys.exit(1)


def load():
    try:
        with open(os.path.join(EV, f"{PROP}.json")) as f:
            return json.load(f)
    except Exception:
        return {"property": PROP, "tier": TIER, "seed": int(SEED), "level": "exploration", "wall_s": 0.0,
                "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "see detectors", "samples": []}}


def finish(doc):
    doc["coverage"]["detectors"] = seen
    doc["coverage"]["evaluations"] += sum(d.get("evaluations", 0) for d in seen.values())
    doc["wall_s"] = round(time.time() - t0, 1)
    with open(os.path.join(EV, f"{PROP}.json"), "w") as f:
        json.dump(doc, f, indent=1)


def run(cmd, env=None, timeout=600, cwd=H, mem_gb=None):
    """Output and exit code; the code is None when the time ran out."""
    def limits():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, cwd=cwd, env={**BASE, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", preexec_fn=limits, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return out, p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return out, None


def build(what, cmd, env=None, cwd=H):
    out, code = run(cmd, env, timeout=800, cwd=cwd)
    if code != 0:
        print(tail(out, 40), file=sys.stderr)
        no_answer(f"{what} does not build against /repo")


def monitor(profile):
    """The property's own monitor, in one of the profiles."""
    b = PROP.lower()
    build(f"the {profile} monitor", ["cargo", "build", "--offline", "--locked", "--quiet", "--bin", b] + (["--release"] if profile == "release" else []))
    exe = f"./target/{'release' if profile == 'release' else 'debug'}/{b}"
    out, code = run([exe] + sys.argv[2:], timeout=5400 if THOROUGH else 600, mem_gb=12 if PROP == "C29" else None)
    sys.stdout.write(out)
    sys.stdout.flush()
    if code == 1:
        sys.exit(1)
    if code == 3 and not sys.argv[2:]:
        # it crashed; the sanitizers may say why
        crashed.append(profile)
        return
    if code != 0 or sys.argv[2:]:
        sys.exit(code if code in (0, 3) else 2)


SANS = {
    "address": dict(flags="-Zsanitizer=address", args=[], dir="target-asan", rel=True, code=99, canaries=["oob", "uaf"],
                    env={"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:hard_rss_limit_mb=12000"}, mark="ERROR: AddressSanitizer"),
    "memory": dict(flags="-Zsanitizer=memory -Zsanitizer-memory-track-origins", args=["-Zbuild-std"], dir="target-msan", rel=True, code=98,
                   canaries=["uninit"], env={"MSAN_OPTIONS": "exit_code=98"}, mark="WARNING: MemorySanitizer"),
    "thread": dict(flags="-Zsanitizer=thread", args=["-Zbuild-std"], dir="target-tsan", rel=False, code=66, canaries=["race"],
                   env={"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"}, mark="WARNING: ThreadSanitizer"),
}


def build_san(kind, binary):
    s = SANS[kind]
    build(f"the {kind} sanitizer run", ["cargo", "build", "--offline", "--locked", "--quiet", "--target", T, "--target-dir", s["dir"], "--bin", binary]
          + (["--release"] if s["rel"] else []) + s["args"], {"RUSTUP_TOOLCHAIN": "nightly", "RUSTFLAGS": s["flags"]})
    return os.path.join(H, s["dir"], T, "release" if s["rel"] else "debug", binary)


def sanitize(kind, binary, env, done):
    s = SANS[kind]
    exe = build_san(kind, binary)
    for c in s["canaries"]:
        out, code = run([exe, "--canary", c], s["env"], timeout=120)
        if code != s["code"] or s["mark"] not in out:
            no_answer(f"the {kind} sanitizer does not notice the planted error {c!r}")
    t = time.time()
    out, code = run([exe], {**s["env"], **env, "VERIF_DIR": os.path.join(EV, "san")}, timeout=5400 if THOROUGH else 400)
    cmd = " ".join(f"{k}='{v}'" for k, v in {**s["env"], **env}.items()) + f" {exe}"
    if s["mark"] in out and code == s["code"]:
        if "requested allocation size" in out or "out-of-memory" in out or "allocator is out of memory" in out:
            no_answer(f"the {kind} sanitizer run ran out of memory")
        violation(f"{kind} sanitizer report", out[out.index(s["mark"]):][:20000], cmd)
    if kind == "thread" and code == 1 and "VIOLATION property" in out:
        violation("results differ between threads under the thread sanitizer", out.replace("VIOLATION property", "violation"), cmd)
    if code in (-4, -6, -7, -8, -11) and "memory allocation of" not in out:
        out2, code2 = run([exe], {**s["env"], **env, "VERIF_DIR": os.path.join(EV, "san")}, timeout=5400 if THOROUGH else 400)
        if code2 == code:
            violation(f"the process was killed by signal {-code} under the {kind} sanitizer, twice", out, cmd)
    if code != 0 or done not in out:
        print(tail(out, 30), file=sys.stderr)
        no_answer(f"the {kind} sanitizer run ended with {code}")
    return out, round(time.time() - t, 1)


def san_counts(out):
    m = re.search(r"SAN-DONE stages=(\d+) cases=(\d+) evals=(\d+) held=(\d+)", out)
    return dict(stages=int(m[1]), cases=int(m[2]), evaluations=int(m[3]), held=int(m[4]))


def miri_cmd():
    return ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--quiet", "--target-dir", "target-miri", "--bin", "san"]


MIRI_ENV = {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-permissive-provenance -Zmiri-deterministic-floats", "SAN_SMALL": "1", "SAN_WORKERS": "1"}
UB = "error: Undefined Behavior"


def miri():
    build("the interpreted run", ["cargo", "+nightly", "miri", "setup", "--offline"])
    for c in ("oob", "uninit"):
        out, code = run(miri_cmd() + ["--", "--canary", c], MIRI_ENV, timeout=500)
        if code == 0 or UB not in out:
            print(tail(out, 30), file=sys.stderr)
            no_answer(f"the interpreter does not notice the planted error {c!r}")
    parts, secs = 8, 2400 if THOROUGH else 100
    t = time.time()
    env = {**MIRI_ENV, "SAN_CASES": "100000", "SAN_SECONDS": str(secs), "SAN_SKIP": "C21,C28/share,C28/mixed"}
    procs = []
    for i in range(parts):
        e = {**BASE, **env, "SAN_PART": f"{i}/{parts}", "VERIF_DIR": os.path.join(EV, "san")}
        procs.append(subprocess.Popen(miri_cmd(), cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True))
    outs = [None] * parts
    import threading
    def collect(i):
        try:
            outs[i] = procs[i].communicate(timeout=secs + 300)[0]
        except subprocess.TimeoutExpired:
            os.killpg(procs[i].pid, 9)
            outs[i] = (procs[i].communicate()[0] or "") + "\nMIRI-TIMEOUT"
    ths = [threading.Thread(target=collect, args=(i,)) for i in range(parts)]
    [x.start() for x in ths]
    [x.join() for x in ths]
    total = dict(stages=0, cases=0, evaluations=0, held=0, unfinished=0, wall_s=0)
    for i, out in enumerate(outs):
        if UB in out:
            cmd = " ".join(f"{k}='{v}'" for k, v in {**env, "SAN_PART": f"{i}/{parts}"}.items()) + " " + " ".join(miri_cmd())
            violation("undefined behaviour reported by the interpreter", out[out.index(UB):][:20000], cmd)
        if "SAN-DONE" not in out:
            # an operation the interpreter does not know, or no time left: the other detectors decide
            total["unfinished"] += 1
            print(tail(out, 8), file=sys.stderr)
            continue
        for k, v in san_counts(out).items():
            total[k] = max(total[k], v) if k == "stages" else total[k] + v
    total["wall_s"] = round(time.time() - t, 1)
    return total


def probes():
    """Programs that share or move a network whose pooling function must not be shared or moved."""
    cwd = os.path.join(HERE, "probes")
    cargo = ["cargo", "run", "--offline", "--locked", "--quiet", "--bin"]
    n = 0
    for b in ("share_atomic", "move_atomic"):
        out, code = run(cargo + [b], cwd=cwd)
        if code != 0 or "PROBE-RAN" not in out:
            print(tail(out, 30), file=sys.stderr)
            if "E0277" in out and "between threads safely" in out:
                violation(f"a network with a pooling function that is safe to share cannot be used by threads ({b})", out, f"cd {cwd} && {' '.join(cargo + [b])}")
            no_answer(f"the control program {b} does not build and run")
        n += 1
    for b in ("share_cell", "share_rc", "move_rc"):
        out, code = run(cargo + [b], cwd=cwd)
        if code == 0 and "PROBE-RAN" in out:
            violation(f"the program {b} was accepted and ran: a pooling function that is not safe to share reached several threads", out, f"cd {cwd} && {' '.join(cargo + [b])}")
        if not ("E0277" in out and "between threads safely" in out):
            print(tail(out, 30), file=sys.stderr)
            no_answer(f"the program {b} neither ran nor was refused for sharing")
        n += 1
    return dict(programs=n, evaluations=n)


def main():
    os.makedirs(EV, exist_ok=True)
    if PROP == "C28":
        monitor("dev")
        seen["share programs"] = probes()
        out, w = sanitize("thread", "c28", {"VERIF_TSAN": "1"}, "oracle evaluations")
        m = re.search(r"C28: (\d+) cases", out)
        seen["thread sanitizer"] = dict(cases=int(m[1]) if m else 0, reports=0, wall_s=w)
    else:
        if not sys.argv[2:] or os.environ.get("VERIF_PROFILE") == "release":
            monitor("release")
        if not sys.argv[2:] and not crashed:
            seen["monitor without overflow checks"] = {k: load()["coverage"][k] for k in ("evaluations", "distinct_nontrivial")}
        monitor("dev")
        for kind in ("address", "memory"):
            secs = 1500 if THOROUGH else 70
            out, w = sanitize(kind, "san", {"SAN_CASES": "1000000", "SAN_SECONDS": str(secs)}, "SAN-DONE")
            seen[f"{kind} sanitizer"] = dict(san_counts(out), reports=0, wall_s=w)
        seen["interpreter"] = miri()
    if crashed:
        no_answer(f"the {' and '.join(crashed)} monitor was killed")
    for k, v in seen.items():
        if not any(v.get(x, 0) for x in ("cases", "evaluations")):
            if k != "interpreter":
                no_answer(f"{k} observed nothing")
    finish(load())
    for k, v in seen.items():
        print(f"  {k}: {v}")


def setup():
    """Builds everything ahead of the checks; problems show up there."""
    for kind, b in (("address", "san"), ("memory", "san"), ("thread", "c28")):
        build_san(kind, b)
    run(["cargo", "+nightly", "miri", "setup", "--offline"])
    run(miri_cmd() + ["--", "--canary", "oob"], MIRI_ENV, timeout=500)
    run(["cargo", "build", "--offline", "--locked", "--quiet", "--release", "--bins"])


setup() if PROP == "setup" else main()
