#!/usr/bin/env python3
"""plant.py SPEC.py... : turns planted-bug specifications into /verif/seeded/<id>/ after confirming them.

A specification defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...] and DEMO (a Rust program).
All work happens in a scratch clone of /repo under /tmp; nothing is written to /repo.
"""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "4b71717"
PW = os.environ.get("PLANTWORK", "/tmp/plantwork")
CL, WK = PW + "/clean", PW + "/bug"
DEMO_SH = '''#!/bin/bash
# Run in the repository. Exit 0: the behaviour is right; otherwise it is not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_INCREMENTAL=0
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "monitors"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
renplex = { path = "$repo" }
rayon = "1"
[profile.dev]
debug = false
@PROFILE@
T
cd "$d" && timeout 280 cargo run --offline --quiet
'''
def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
    e["PATH"] = "/root/.cargo/bin:" + e["PATH"]; e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
def refresh(path):
    if not os.path.isdir(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        assert sh(f"git clone -q /repo {path}", "/tmp").returncode == 0
    head = sh("git rev-parse HEAD", "/repo").stdout.strip()
    r = sh(f"git fetch -q origin && git checkout -q -f {head} && git clean -fdq -e target", path)
    assert r.returncode == 0, r.stderr
def passed(path):
    r = sh("timeout -k 10 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", path)
    for f in ("train.csv", "test.csv"):
        p = os.path.join(path, f)
        if os.path.exists(p): os.remove(p)
    ok = set(re.findall(r"^test (\S.*?) \.\.\. ok$", r.stdout, re.M))
    return {re.sub(r" \(line \d+\)", "", x) for x in ok}, r
def main():
    for spec in sys.argv[1:]:
        S = {}; exec(open(spec).read(), S)
        i = S["ID"]; out = os.path.join(ROOT, "seeded", i)
        refresh(CL); refresh(WK)
        err = None
        for f, old, new in S["EDITS"]:
            p = os.path.join(WK, f); t = open(p).read()
            if t.count(old) != 1: err = f"{f}: {t.count(old)} matches of {old[:60]!r}"; break
            open(p, "w").write(t.replace(old, new))
        if err: print(i, "EDIT", err); continue
        d = sh("git diff", WK).stdout
        base = sh(f"git show {BASE}:{S['EDITS'][0][0]}", CL).stdout.splitlines()
        removed = [l[1:] for l in d.splitlines() if l.startswith("-") and not l.startswith("---")]
        for f in {e[0] for e in S["EDITS"]}: base += sh(f"git show {BASE}:{f}", CL).stdout.splitlines()
        orig = [l for l in removed if l.strip() and l in base]
        foreign = [l for l in removed if l.strip() and l not in base]
        if not orig: print(i, "NO ORIGINAL LINE CHANGED"); continue
        if foreign: print(i, "note: also changes repaired lines", foreign[:2])
        tmp = f"{PW}/{i}"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + "/patch.diff", "w").write(d)
        open(tmp + "/demo.rs", "w").write(S["DEMO"].lstrip("\n"))
        open(tmp + "/demo.sh", "w").write(DEMO_SH.replace("@PROFILE@", S.get("PROFILE", "opt-level = 1"))); os.chmod(tmp + "/demo.sh", 0o755)
        shutil.copy(os.path.join(ROOT, "harness/Cargo.lock"), tmp)
        json.dump(dict(property=S["PROPERTY"], needs=S["NEEDS"], what_it_breaks=S["BREAKS"]), open(tmp + "/meta.json", "w"), indent=1)
        a = sh(f"{tmp}/demo.sh", CL); b = sh(f"{tmp}/demo.sh", WK)
        if a.returncode != 0: print(i, "DEMO FAILS UNCHANGED", a.stdout[-300:], a.stderr[-1500:]); continue
        if b.returncode == 0: print(i, "DEMO PASSES PATCHED"); continue
        if "error: could not compile" in b.stderr and "panicked" not in b.stderr: print(i, "PATCH OR DEMO DOES NOT COMPILE", b.stderr[-1500:]); continue
        pc = getattr(main, "pc", None)
        if pc is None: pc = main.pc = passed(CL)[0]
        pb, r = passed(WK)
        if not (pc <= pb) or len(pc) < 13: print(i, "TESTS LOST", pc - pb, len(pc), r.stderr[-800:]); continue
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out); shutil.rmtree(tmp)
        print(i, "kept; demo:", (b.stderr.strip().splitlines() or ["rc %d" % b.returncode])[-1][:150] if b.stderr else b.returncode)
main()
