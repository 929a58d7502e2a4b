#!/usr/bin/env python3
"""Runs the example programs of /repo on generated data and watches what they report and save (C41).

ex.py C41     exit 0 held, 1 with a VIOLATION line, 2 no answer
ex.py setup   builds the programs
"""
import json, os, random, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
EV = os.path.join(HERE, "evidence")
TARGET = os.path.join(HERE, "harness", "target", "examples")
PROP = "C41"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
LIMIT = 780 if TIER == "thorough" else 420  # seconds for both programs, which run side by side
LEAST = 30  # batches that must be seen of every program
PROGRAMS = ("regression", "classification")
NUM = r"([-+0-9.einfNa]+)"
LINE = re.compile(r"Batch (\d+) -> Loss: \(" + NUM + ", " + NUM + r"\), (Val Loss|Accuracy): \(" + NUM + ", " + NUM + r"\)")
t0 = time.time()
seen = {"batches reported": 0, "averages compared": 0, "passes": 0, "complete passes": 0, "programs ended": 0,
        "saved curves compared": 0, "saved signals read": 0}
worst = {"averages": 0.0, "curves": 0.0}
distinct = set()
samples = []


# The one listed departure: it is excused only where the value seen is exactly the one this mistake gives.
SHRINKS = "regression: the running averages of both losses are divided by the number of batches so far at every batch (signal_rec_train_test)"
with open(os.path.join(HERE, "KNOWN_FINDINGS")) as f:
    LISTED = f"open: property={PROP} {SHRINKS}" in f.read().splitlines()
known = {}


class Found(Exception):
    pass


def no_answer(why):
    print(f"{PROP}: {why}: no answer", file=sys.stderr)
    sys.exit(2)


def build():
    env = {**os.environ, "CARGO_INCREMENTAL": "0", "CARGO_NET_OFFLINE": "true"}
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet", "--release", "--examples",
                        "--manifest-path", "/repo/Cargo.toml", "--target-dir", TARGET],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-3000:], file=sys.stderr)
        no_answer("the example programs do not build")


def images(folder):
    """Image files in the format the programs read: noisy copies of ten patterns."""
    r = random.Random(SEED)
    patterns = [r.randbytes(784) for _ in range(10)]
    for name, n in (("train", 60000), ("t10k", 10000)):
        pixels = bytearray(struct.pack(">IIII", 2051, n, 28, 28))
        labels = bytearray(struct.pack(">II", 2049, n))
        for _ in range(n):
            k = r.randrange(10)
            at = r.randrange(184)
            labels.append(k)
            pixels += patterns[k][:at] + r.randbytes(600) + patterns[k][at + 600:]
        with open(os.path.join(folder, f"{name}-images.idx3-ubyte"), "wb") as f:
            f.write(pixels)
        with open(os.path.join(folder, f"{name}-labels.idx1-ubyte"), "wb") as f:
            f.write(labels)


def ask(held, what):
    if not held:
        raise Found(what)


def number(text, what):
    try:
        x = float(text)
    except ValueError:
        raise Found(f"{what} is {text}")
    ask(abs(x) < 1e6, f"{what} is {text}")
    return x


def passes(name, text):
    """The batches reported, one list per pass through the data; each running average is compared as it comes."""
    out = []
    for m in LINE.finditer(text):
        b = int(m[1])
        loss, mean, other, mean2 = (number(m[i], f"{name}: a value reported for batch {b}") for i in (2, 3, 5, 6))
        if b == 1:
            out.append([])
        where = f"{name}, pass {len(out)}, batch {b}"
        ask(out and len(out[-1]) + 1 == b, f"{where}: reported after batch {len(out[-1]) if out else 0}")
        ask(m[4] != "Accuracy" or 0 <= other <= 1, f"{where}: accuracy {other}")
        ask(loss >= 0 and (m[4] == "Accuracy" or other >= 0), f"{where}: negative loss")
        before = out[-1][-1][2:] if out[-1] else (0.0, 0.0)
        out[-1].append((loss, other, mean, mean2))
        for what, i, got in (("loss", 0, mean), (m[4].lower(), 1, mean2)):
            avg = sum(x[i] for x in out[-1]) / b
            tol = 1.5e-4 + 1e-4 * avg  # four decimals are printed; sums are kept in single precision
            shrunk = (before[i] + out[-1][-1][i]) / b
            seen["averages compared"] += 1
            if LISTED and name == "regression" and abs(got - avg) > tol and abs(got - shrunk) <= tol:
                known[SHRINKS] = known.get(SHRINKS, 0) + 1
                continue
            worst["averages"] = max(worst["averages"], abs(got - avg) / tol)
            ask(abs(got - avg) <= tol, f"{where}: the average {what} reported is {got}, that of the batches so far is {avg:.6f}")
        seen["batches reported"] += 1
        distinct.add((name, len(out), b))
    seen["passes"] += len(out)
    return out


def csv(path):
    """Rows of a saved matrix with one column; complex values are written [x y]."""
    rows = []
    with open(path) as f:
        for line in f.read().split("\n"):
            cells = [c for c in line.split(",") if c.strip()]
            if not cells:
                continue
            ask(len(cells) == 1, f"{path}: {len(cells)} values in a row")
            parts = cells[0].strip().strip("[]").split()
            ask(len(parts) in (1, 2), f"{path}: {cells[0]} is no number")
            rows.append(complex(*(number(x, f"{path}: a value") for x in parts)))
    return rows


def curve(folder, kind, want):
    names = [n for n in os.listdir(folder) if re.search(rf"_{kind}_", n)]
    ask(len(names) == 1, f"{len(names)} files saved for {kind} in {os.listdir(folder)}")
    got = csv(os.path.join(folder, names[0]))
    ask(len(got) == len(want), f"{names[0]}: {len(got)} values saved after {len(want)} epochs")
    for e, (g, w) in enumerate(zip(got, want)):
        tol = 1.5e-4 + 1e-4 * abs(w)
        worst["curves"] = max(worst["curves"], abs(g - w) / tol)
        ask(abs(g - w) <= tol, f"{names[0]}: {g.real} saved for epoch {e + 1}, the average of its batches is {w:.6f}")
    seen["saved curves compared"] += 1


def mean(batches, i):
    return sum(b[i] for b in batches) / len(batches)


def regression(cwd, text, ended):
    ps = passes("regression", text)
    if ended:
        seen["complete passes"] += len(ps)
        # with the listed departure, the curves hold the last average shown
        for i, kind in enumerate(("loss", "tloss")):
            curve(f"{cwd}/out/3", kind, [p[-1][2 + i] if known else mean(p, i) for p in ps])
        errs = []
        sig = f"{cwd}/out/signal_rec"
        for x in sorted(n for n in os.listdir(sig) if re.search(r"_x\d+_", n)):
            noisy, clean, pred = (csv(os.path.join(sig, re.sub(r"_x(\d+)_", rf"_{k}\1_", x))) for k in ("x", "y", "yp"))
            ask(len(noisy) == len(clean) == len(pred) > 0, f"{x}: {len(noisy)}, {len(clean)} and {len(pred)} samples saved")
            ask(abs(max(map(abs, clean)) - 1) < 1e-3, f"{x}: the clean signal saved peaks at {max(map(abs, clean))}")
            ask(0 < max(abs(a - b) for a, b in zip(noisy, clean)) < 1, f"{x}: the noisy signal saved is not the clean one with noise")
            errs.append(sum(abs(a - b) ** 2 for a, b in zip(pred, clean)) / len(pred))
            seen["saved signals read"] += 3
        ask(errs, "no signals saved")
        last = mean(ps[-1], 0)
        ask(last / 5 < sum(errs) / len(errs) < last * 5,
            f"the predictions saved are off by {sum(errs) / len(errs):.5f}, the training loss of the last epoch is {last:.5f}")
    if len(ps) > 2:
        ask(mean(ps[-2], 0) < mean(ps[0], 0), "regression: the training loss has not fallen since the first epoch")
    return sum(map(len, ps))


def classification(cwd, text, ended):
    ps = passes("classification", text)
    train, test = ps[0::2], ps[1::2]
    if ended:
        seen["complete passes"] += len(ps)
        for kind, which, i in (("loss", train, 0), ("accu", train, 1), ("tloss", test, 0), ("taccu", test, 1)):
            curve(f"{cwd}/out/0", kind, [mean(p, i) for p in which])
    if len(train) > 2:
        ask(mean(train[-2], 0) < mean(train[0], 0), "classification: the training loss has not fallen since the first epoch")
        ask(mean(train[-2], 1) > mean(train[0], 1), "classification: the training accuracy has not risen since the first epoch")
    return sum(map(len, ps))


def write(violations):
    doc = {"property": PROP, "tier": TIER, "seed": SEED, "level": "exploration",
           "coverage": {"evaluations": seen["averages compared"] + seen["saved curves compared"] + seen["saved signals read"],
                        "distinct_nontrivial": len(distinct), "rule": "distinct (program, pass through the data, batch)",
                        "samples": samples, "observed": seen,
                        "largest_error_over_tolerance": {k: round(v, 4) for k, v in worst.items()},
                        "known_findings_seen": known},
           "assumptions": ["values are printed with four decimals"],
           "violations": violations, "wall_s": round(time.time() - t0, 1)}
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, f"{PROP}.json"), "w") as f:
        json.dump(doc, f, indent=1)


def main():
    build()
    base = tempfile.mkdtemp(prefix="verif-scratch-")
    started = []
    try:
        for name in PROGRAMS:
            cwd = os.path.join(base, name)
            for d in ("out/0", "out/3", "out/signal_rec", "minist"):
                os.makedirs(os.path.join(cwd, d))
            if name == "classification":
                images(os.path.join(cwd, "minist"))
            out = open(os.path.join(base, name + ".txt"), "wb")
            p = subprocess.Popen([os.path.join(TARGET, "release", "examples", name)], cwd=cwd, stdin=subprocess.DEVNULL,
                                 stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
            started.append((name, cwd, p))
        end = time.time() + LIMIT
        while time.time() < end and any(p.poll() is None for _, _, p in started):
            time.sleep(0.5)
        found = None
        for name, cwd, p in started:
            code = p.poll()
            if code is None:
                os.killpg(p.pid, 9)
                p.wait()
            with open(os.path.join(base, name + ".txt"), errors="replace") as f:
                text = f.read().replace("\r", "\n")
            if "No space left" in text:
                no_answer("no space left")
            if code is not None and code < 0:
                no_answer(f"{name} was ended by signal {-code}")
            lines = [l for l in text.split("\n") if LINE.search(l)]
            samples.extend(f"{name}: {l.strip()}" for l in lines[2:4])
            try:
                if code is None:
                    text = text[:text.rfind("\n")]
                elif code == 0:
                    seen["programs ended"] += 1
                n = globals()[name](cwd, text, code == 0)
                ask(code in (None, 0), f"{name} failed: {text[-400:].strip()}")
                if n < LEAST:
                    no_answer(f"{n} batches of {name} were seen")
            except Found as e:
                found = found or (str(e), "\n".join(lines[:400]))
        if found:
            write(1)
            path = os.path.join(EV, f"{PROP}-replay.txt")
            with open(path, "w") as f:
                f.write(f"property={PROP}\nseed={SEED}\ntier={TIER}\nobserved: {found[0]}\nrun: ./check.sh {PROP}\n\n{found[1]}\n")
            print(f"observed: {found[0]}")
            print(f"VIOLATION property={PROP} replay={path}")
            sys.exit(1)
        write(0)
        for k, v in known.items():
            print(f"KNOWN-FINDING: property={PROP} {k} (seen {v} times)")
        print(f"{PROP}: {seen}, largest error over tolerance {worst}, {time.time() - t0:.0f} s")
    finally:
        for _, _, p in started:
            if p.poll() is None:
                os.killpg(p.pid, 9)
        shutil.rmtree(base, ignore_errors=True)


build() if sys.argv[1] == "setup" else main()
