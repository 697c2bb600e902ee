#!/usr/bin/env python3
"""Build the monitors against /repo's working tree and run one property's check.

usage: check.py <property> [--tier quick|thorough] [--seed N]
exit 0: held on everything explored; 1: VIOLATION line printed; other: the check itself could not decide.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
NPROC = 8

CONF = json.load(open(os.path.join(HERE, "checks.json")))


def log(*a):
    print(*a, flush=True)


OLD = {"RUSTUP_TOOLCHAIN": "1.75.0",
       "RUSTC": "/root/.rustup/toolchains/nightly-2023-02-10-x86_64-unknown-linux-gnu/bin/rustc"}
TRIPLE = "x86_64-unknown-linux-gnu"


def san(dir, name, kind, extra):
    return dict(dir=dir, bin="%s/release/%s" % (TRIPLE, name), tgt="%s-%s" % (dir, kind),
                profile=["--release", "--target", TRIPLE] + extra,
                env={"RUSTUP_TOOLCHAIN": "stable", "RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zsanitizer=" + kind})


def toolchains():
    return {
        "mon": dict(dir="harness", bin="release/mon", tgt="harness", profile=["--release"],
                    env={"RUSTUP_TOOLCHAIN": "stable"}),
        "evalmon": dict(dir="evalharness", bin="release/evalmon", tgt="evalharness", profile=["--release"], env=OLD),
        # the same monitors under the compiler's sanitizers. Memory and thread sanitizer need a standard
        # library built with them too (its sources are part of the toolchain); address sanitizer does not.
        "mon-asan": san("harness", "mon", "address", []),
        "mon-msan": san("harness", "mon", "memory", ["-Zbuild-std"]),
        "mon-tsan": san("harness", "mon", "thread", ["-Zbuild-std"]),
        "evalmon-asan": dict(san("evalharness", "evalmon", "address", []),
                             env=dict(OLD, RUSTFLAGS="-Zsanitizer=address")),
    }


def build(which):
    t = toolchains()[which]
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env.update(t["env"])
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, t["tgt"])
    env["CARGO_NET_OFFLINE"] = "true"
    src = os.path.join(HERE, t["dir"])
    r = None
    for _ in range(2):
        r = subprocess.run(["cargo", "build", "--offline", "--locked"] + t["profile"], cwd=src, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return os.path.join(TARGET, t["tgt"], t["bin"])
    log(r.stdout[-6000:])
    log("ERROR: the monitors do not build against /repo")
    return None


def build_all(names):
    """the binaries, built side by side"""
    made = {}

    def one(w):
        made[w] = build(w)

    ts = [threading.Thread(target=one, args=(w,)) for w in names]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if not all(made.values()):
        sys.exit(2)
    return made


def limits(mem_gb):
    def f():
        os.setsid()
        b = int(mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, timeout, mem_gb):
    """returns (returncode or None on timeout, tail of stderr)"""
    with tempfile.TemporaryFile("w+") as err:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                             preexec_fn=limits(mem_gb))
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        err.seek(0, 2)
        n = err.tell()
        err.seek(max(0, n - 2000))
        try:
            return rc, err.read()
        except UnicodeDecodeError:
            return rc, ""


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    opt = lambda k, d: args[args.index(k) + 1] if k in args else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1") or "1"))
    c = CONF[pid]
    if "sanitizers" in c:
        import sanitize
        return sanitize.check_all(pid, c, tier, seed)
    which = c.get("crate", "mon")
    started = time.time()
    binary = build_all([which])[which]
    built = time.time() - started
    th = c.get(tier, {})
    scale = th.get("scale", 1.0)
    secs = th.get("secs", 60 if tier == "quick" else 900)
    cpu = th.get("cpu_limit", c.get("cpu_limit", 60))
    mem = c.get("mem_gb", 4)
    procs = th.get("procs", NPROC)
    work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=TARGET)
    base = [binary, pid, "--seed", str(seed), "--tier", tier, "--scale", str(scale), "--cpu-limit", str(cpu)]
    results = [None] * procs

    died = {}

    def worker(i, tag=""):
        out, stf = os.path.join(work, "out%d%s" % (i, tag)), os.path.join(work, "st%d%s" % (i, tag))
        cmd = base + ["--shard", str(i), "--shards", str(procs), "--secs", str(secs), "--out", out, "--status", stf]
        rc, err = run(cmd, secs + 150, mem)
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        idx = None
        if res is None:
            try:
                idx = int(open(stf).read().split()[0])
            except (OSError, ValueError, IndexError):
                pass
        results[i] = (rc, res, idx, err)

    ts = [threading.Thread(target=worker, args=(i,)) for i in range(procs)]
    [t.start() for t in ts]
    [t.join() for t in ts]

    ev, att, total = 0, 0, 0
    counters, maxima, sets, distinct, samples, fails, problems = {}, {}, {}, set(), [], [], []
    for i, (rc, res, idx, err) in enumerate(results):
        if res is None:
            # a worker died (crash, runaway memory, endless loop): is it the case it was on?
            if idx is None:
                problems.append("worker %d ended with %r before its first case: %s" % (i, rc, err[-300:]))
                continue
            out = os.path.join(work, "only%d" % i)
            rc2, err2 = run(base + ["--only", str(idx), "--out", out], 3 * cpu + 30, mem)
            if os.path.exists(out):
                r2 = json.load(open(out))
                fails += r2["fails"]
                if not r2["fails"]:
                    problems.append("worker %d ended with %r on case %d, which passes alone" % (i, rc, idx))
            elif rc2 is None or rc2 == 77:
                fails.append(dict(idx=idx, kind="real", case="",
                                  msg="the case never finishes (stopped after %s cpu seconds, twice)" % cpu))
            else:
                fails.append(dict(idx=idx, kind="real", case="",
                                  msg="the process dies on this case, twice (%r, then %r): %s" % (rc, rc2, err2[-400:])))
            died[i] = idx
            continue
        ev += res["evaluations"]
        att += res["attempted"]
        total = res["total"]
        for k, v in res["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in res["maxima"].items():
            maxima[k] = max(maxima.get(k, 0), v)
        distinct.update(res["distinct"])
        for k, v in res["sets"].items():
            sets.setdefault(k, set()).update(v)
        samples += res["samples"]
        for f in res["fails"]:
            f["shard"] = i
        fails += res["fails"]
    if not any(f["kind"] == "real" for f in fails):
        # what does not happen again on its own may depend on the executions before it in that
        # process: run the same shard again, from its start, in a fresh process
        again = {}
        for f in fails:
            again.setdefault(f["shard"], set()).add(f["idx"])
        for i, idx in died.items():
            again.setdefault(i, set()).add(idx)
        for i in sorted(again)[:2]:
            worker(i, "again")
            rc, res, idx, err = results[i]
            note = " (in a process that ran the cases before it, twice; the case alone passes)"
            if res is None and idx in again[i]:
                fails.append(dict(idx=idx, kind="real", case="", shard=i, msg="the process dies (%r): %s%s" % (rc, err[-300:], note)))
            for f in (res or {}).get("fails", []):
                if f["idx"] in again[i]:
                    fails.append(dict(idx=f["idx"], kind="real", case=f["case"], shard=i,
                                      msg=f["msg"].replace("NOT REPRODUCED on immediate re-run: ", "") + note))
        seen = {f["idx"]: f for f in fails}
        if len(seen) >= 3 and not any(f["kind"] == "real" for f in fails):
            # seen in several executions, though in none of them every time
            for f in seen.values():
                fails.append(dict(f, kind="real", msg=f["msg"] + " (%d executions failed, none every time)" % len(seen)))
    real = [f for f in fails if f["kind"] == "real"]
    flaky = [f for f in fails if f["kind"] != "real"]
    shutil.rmtree(work, ignore_errors=True)

    known = []
    kf = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m and m.group(1) == pid:
                known.append((re.compile(m.group(2)), m.group(3)))
    new = [f for f in real if not any(k.search(f["msg"]) for k, _ in known)]
    for _, text in known:
        log("KNOWN-FINDING: property=%s %s" % (pid, text))

    coverage = dict(
        evaluations=ev, distinct_nontrivial=len(distinct), rule=c["rule"],
        samples=samples[:5],
        monitors_observed=dict(sorted(counters.items())),
        greatest_values_observed=dict(sorted(maxima.items())),
        distinct_seen={k: len(v) for k, v in sorted(sets.items())},
        cases_planned=total, cases_attempted=att,
        workers=procs, build_s=round(built, 1),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=coverage,
                   assumptions=c.get("assumptions", []), wall_s=round(time.time() - started, 2),
                   violations=len(new)),
              open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)

    log("%s %s seed=%d: %d executions, %d distinct non-trivial, %.1f s (build %.1f s)" %
        (pid, tier, seed, ev, len(distinct), time.time() - started, built))
    if new:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        f = min(new, key=lambda f: len(f["case"]) or 10 ** 9)
        path = os.path.join(HERE, "replay", "%s-%s-%d-%d.json" % (pid, tier, seed, f["idx"]))
        json.dump(dict(property=pid, seed=seed, tier=tier, message=f["msg"], minimized_case=f["case"],
                       command=" ".join(base + (["--shard", str(f["shard"]), "--shards", str(procs)] if "the case alone passes" in f["msg"] or "none every time" in f["msg"] else ["--only", str(f["idx"])])), all=[(x["idx"], x["msg"]) for x in new[:20]]),
                  open(path, "w"), indent=1)
        log("case %d: %s" % (f["idx"], f["msg"]))
        if f["case"]:
            log("  minimized: " + f["case"][:1500])
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if flaky or problems:
        for f in flaky:
            log("UNDECIDED case %d: %s" % (f["idx"], f["msg"]))
        for p in problems:
            log("UNDECIDED " + p)
        return 2
    if len(distinct) < c.get("min_distinct", 10):
        log("UNDECIDED: only %d non-trivial executions observed" % len(distinct))
        return 3
    return 0


if __name__ == "__main__":
    if sys.argv[1:2] == ["--build"]:
        os.makedirs(TARGET, exist_ok=True)
        build_all(sorted({w for v in CONF.values() for w in v.get("sanitizers", [v.get("crate", "mon")])}))
        sys.exit(0)
    os.makedirs(TARGET, exist_ok=True)
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
