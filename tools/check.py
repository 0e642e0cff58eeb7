#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's current tree.

usage: check.py Cxx [quick|thorough] [--seed N] [--case leg/kind:idx] [--scale F]
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: no answer.
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
TSAN_TARGET = "x86_64-unknown-linux-gnu"

# extra legs, besides the default one (release code with overflow checks and debug assertions)
TSAN = {"C10", "C25"}
FAULTS = {"C17"}
THOROUGH_BUDGET = {"default": 560, "tsan": 200}
QUICK_BUDGET = {"default": 240, "tsan": 120}


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock")]
    for base in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, dirs, fs in os.walk(base):
            dirs.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            pass
        h.update(b"\0")
    return h.hexdigest()


def build(leg):
    """Builds the harness (and with it /repo); returns (binary, error)."""
    tdir = os.path.join(BUILD, "tsan" if leg == "tsan" else "target")
    os.makedirs(tdir, exist_ok=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    extra = []
    cargo = ["cargo"]
    if leg == "tsan":
        env["RUSTFLAGS"] = "-Zsanitizer=thread"
        cargo = ["cargo", "+nightly"]
        extra = ["-Zbuild-std", "--target", TSAN_TARGET]
        binary = os.path.join(tdir, TSAN_TARGET, "release", "fem-monitor")
    else:
        binary = os.path.join(tdir, "release", "fem-monitor")
    with open(os.path.join(BUILD, "lock_" + leg), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(tdir, "tree.sha256")
        want = tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want or not os.path.exists(binary):
            # file times may lie when a tree was swapped underneath
            for c in ("fem_2d", "fem-monitor"):
                subprocess.run(cargo + ["clean", "--release", "-p", c, "--target-dir", tdir] + (["--target", TSAN_TARGET] if leg == "tsan" else []),
                               cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        p = subprocess.run(cargo + ["build", "--release", "--offline", "--target-dir", tdir] + extra,
                           cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            return None, p.stdout[-6000:]
        with open(stamp, "w") as f:
            f.write(want)
    return binary, None


def run_harness(binary, prop, seed, tier, leg, scratch, case=None, scale=None, budget=None, timeout=None):
    out = os.path.join(scratch, "result.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [binary, prop, "--seed", str(seed), "--tier", tier, "--out", out, "--scratch", os.path.join(scratch, "work"), "--leg", leg]
    if case:
        cmd += ["--case", case]
    if scale:
        cmd += ["--scale", str(scale)]
    if budget:
        cmd += ["--budget", str(budget)]
    env = dict(os.environ)
    env.pop("GEP_SOLVE_DIR", None)
    env["RUST_BACKTRACE"] = "0"
    tsan_log = os.path.join(scratch, "tsan")
    if leg == "tsan":
        env["TSAN_OPTIONS"] = "halt_on_error=0 exitcode=0 report_signal_unsafe=0 log_path=%s" % tsan_log
    log = os.path.join(scratch, "log")
    with open(log, "w") as lf:
        p = subprocess.Popen(cmd, cwd=scratch, env=env, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        if rc is None:
            p.wait()
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    races = []
    for f in os.listdir(scratch):
        if f.startswith("tsan."):
            races.append(open(os.path.join(scratch, f), errors="replace").read())
    return rc, res, "\n".join(races), open(log, errors="replace").read()[-4000:]


def tsan_reports(text):
    """One entry per distinct pair of stacks, line numbers left out."""
    seen = {}
    for block in re.split(r"={10,}", text):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", block)
        if not m:
            continue
        frames = re.findall(r"#\d+ (\S+)", block)
        key = m.group(1).strip() + " | " + " < ".join(frames[:3])
        seen.setdefault(key, block.strip()[:3000])
    return seen


def main():
    args = sys.argv[1:]
    opt = {}
    pos = []
    i = 0
    while i < len(args):
        if args[i].startswith("--"):
            opt[args[i][2:]] = args[i + 1]
            i += 2
        else:
            pos.append(args[i])
            i += 1
    prop = pos[0]
    tier = pos[1] if len(pos) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(opt.get("seed", os.environ.get("VERIF_SEED", "1")))
    except ValueError:
        seed = 1
    seed &= (1 << 63) - 1
    start = time.time()
    for d in ("evidence", "replay", "build"):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    findings = {(k["property"], k["signature"]): k for k in known["findings"]}

    legs = ["default"] + (["tsan"] if prop in TSAN else [])
    case = None
    if "case" in opt:
        leg, case = opt["case"].split("/", 1)
        legs = [leg]

    violations, finding_hits, errors, notes = [], {}, [], []
    results = {}
    for leg in legs:
        if violations:
            # the answer is known, and what hangs or crashes would do so again, more slowly
            notes.append("leg %s was not run: the leg before it already reported violations" % leg)
            continue
        t0 = time.time()
        binary, err = build(leg)
        if err:
            if leg == "default":
                print(err)
                print("ERROR: the harness does not build against /repo")
                sys.exit(2)
            notes.append("the %s build failed; that leg was not run" % leg)
            errors.append("build of leg %s failed: %s" % (leg, err[-500:]))
            continue
        built = time.time() - t0
        scratch = tempfile.mkdtemp(prefix="femmon_")
        os.chmod(scratch, 0o755)
        try:
            budget = (THOROUGH_BUDGET if tier == "thorough" else QUICK_BUDGET)[leg]
            rc, res, races, log = run_harness(binary, prop, seed, tier, leg, scratch, case, opt.get("scale"), budget, budget + 260)
            if rc is None:
                errors.append("leg %s did not end within its time limit" % leg)
            elif res is None and rc is not None and rc < 0:
                sig = -rc
                name = signal.Signals(sig).name if sig in set(int(s) for s in signal.Signals) else str(sig)
                # which case was running? run each alone
                work = os.path.join(scratch, "work")
                cases = sorted({open(os.path.join(work, f)).read().strip() for f in os.listdir(work) if f.startswith("journal_")}) if os.path.isdir(work) else []
                hit = None
                for c in cases:
                    rc2, res2, _, log2 = run_harness(binary, prop, seed, tier, leg, scratch, c, None, budget, 120)
                    if rc2 is not None and rc2 < 0 and rc2 != -9:
                        hit = (c, log2)
                        break
                if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE) and hit:
                    violations.append({"leg": leg, "case": hit[0], "sig": "crash:" + name,
                                       "msg": "the process died of %s while running this case (again when run alone): %s" % (name, hit[1][-600:])})
                else:
                    errors.append("leg %s: process died of %s; cases in flight %s; %s" % (leg, name, cases, log[-500:]))
            elif res is None:
                errors.append("leg %s: no result (exit %s): %s" % (leg, rc, log[-800:]))
            if res is not None:
                res["build_s"] = built
                results[leg] = res
                errors += ["%s/%s" % (leg, e) for e in res["errors"]]
                for v in res["violations"] + res["side"]:
                    v["leg"] = leg
                    k = findings.get((prop, v["sig"]))
                    if k:
                        finding_hits.setdefault(v["sig"], v)
                    else:
                        violations.append(v)
                if not case and res["evaluations"] == 0:
                    errors.append("leg %s observed nothing" % leg)
                if not case and leg == "default" and res["distinct_nontrivial"] < 2 and not violations:
                    errors.append("leg %s: fewer than two distinct non-trivial cases" % leg)
                if not case and res["evaluations"] < res["cases_planned"]:
                    notes.append("leg %s stopped after %d of %d cases (time budget or violations)" % (leg, res["evaluations"], res["cases_planned"]))
            if leg == "tsan":
                rep = tsan_reports(races)
                if res is not None:
                    res["observed"]["tsan_reports"] = len(rep)
                for key, block in rep.items():
                    violations.append({"leg": leg, "case": "all", "sig": "race:" + key, "msg": block})
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    # evidence
    d = results.get("default") or (list(results.values())[0] if results else None)
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "exploration")
    cov = {
        "evaluations": sum(r["evaluations"] for r in results.values()),
        "distinct_nontrivial": d["distinct_nontrivial"] if d else 0,
        "rule": d["rule"] if d else "",
        "samples": [s[:1500] for s in d["samples"]] if d else [],
        "legs": {
            leg: {k: r[k] for k in ("evaluations", "cases_planned", "distinct_nontrivial", "per_kind", "observed", "wall_s", "build_s")}
            for leg, r in results.items()
        },
        "known_findings_observed": sorted(finding_hits),
        "notes": notes + [e[:600] for e in errors],
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": d["assumptions"] if d else [],
        "wall_s": round(time.time() - start, 3),
        "violations": len(violations),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)

    for leg, r in results.items():
        print("%s leg %s: %d cases (%d distinct non-trivial), build %.1f s, run %.1f s" % (prop, leg, r["evaluations"], r["distinct_nontrivial"], r["build_s"], r["wall_s"]))
        print("  observed: " + json.dumps(r["observed"]))
    for n in notes:
        print("note: " + n)
    for s, v in sorted(finding_hits.items()):
        k = findings[(prop, s)]
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for e in errors:
        print("ERROR: " + e[:1500])
    for n, v in enumerate(violations):
        rp = os.path.join(VERIF, "replay", "%s_%d.json" % (prop, n))
        v["property"] = prop
        v["seed"] = seed
        v["tier"] = tier
        if v["case"] != "all":
            v["replay_cmd"] = "cd %s && python3 tools/check.py %s %s --seed %d --case '%s/%s'" % (VERIF, prop, tier, seed, v["leg"], v["case"])
        else:
            v["replay_cmd"] = "cd %s && python3 tools/check.py %s %s --seed %d" % (VERIF, prop, tier, seed)
        with open(rp, "w") as f:
            json.dump(v, f, indent=1)
        print("%s %s/%s [%s] %s" % (prop, v["leg"], v["case"], v["sig"], v["msg"][:1200]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if violations:
        sys.exit(1)
    # a leg that could not be built or run beside a quiet default leg is reported above and in the evidence
    fatal = [e for e in errors if not e.startswith("build of leg")]
    sys.exit(2 if fatal else 0)


if __name__ == "__main__":
    main()
