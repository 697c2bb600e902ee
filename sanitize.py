"""Checks decided by the compiler's sanitizers: the workloads of the other properties run in sanitized builds.

C32 (memory): a report of the address or memory sanitizer, or of the checks that debug builds put around unsafe
operations, is a violation. What the workloads' own monitors find belongs to their own properties and is ignored.
C33 (threads): several workloads run at once in the threads of one process. A report of the thread sanitizer is a
violation, and so is a monitor's alarm, a death or a hang that the same workloads do not show one after another.
"""
import glob, json, os, re, shutil, subprocess, tempfile, threading, time, queue
import check

HERE = check.HERE
ROOT_IDS = ["C%02d" % i for i in list(range(1, 24)) + [28, 29, 30, 34, 36]]
EVAL_IDS = ["C24", "C25", "C26", "C27", "C31", "C35"]
# running out of stack or memory is not corruption; the monitors' own checks see those
HARMLESS = re.compile(r"stack-overflow|out-of-memory|allocation-size-too-big|exceeds maximum supported size|failed to allocate|allocator is out of memory")
REPORT = re.compile(r"(Address|Memory|Thread)Sanitizer: [^\n]*|MEMORY: [^\n]*|Undefined Behavior: [^\n]*")


def jobs_for(pid, tier, binaries):
    quick = tier == "quick"
    js = []
    if pid == "C32":
        for b, ids, q0, t0 in (("mon-asan", ROOT_IDS, 0.05, 1.0), ("mon-msan", ROOT_IDS, 0.02, 0.4), ("evalmon-asan", EVAL_IDS, 0.05, 1.0)):
            for i in ids:
                q, t = (q0, t0) if i not in ("C23", "C29", "C30") else (5 * q0, 5 * t0)  # these own heap memory
                n = 1 if quick else 4
                for k in range(n):
                    js.append(dict(build=b, ids=[i], threads=1, shard=k, shards=n, scale=q if quick else t))
        if not quick:
            js += [dict(build="miri", ids=[i], threads=1, only=k) for k in range(6) for i in ROOT_IDS if i != "C21"]
    else:
        for b, ids, q, t in (("mon-tsan", ROOT_IDS, 0.3, 3.0), ("evalmon", EVAL_IDS, 0.3, 3.0)):
            n = len(ids)
            for k in range(n):
                # four threads: twice the same workload, and two others
                group = [ids[k], ids[(k + 1) % n], ids[k], ids[(k + 5) % n]]
                js.append(dict(build=b, ids=group, threads=4, shard=k, shards=n, scale=q if quick else t))
    return js


def read(path):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return None


def execute(job, binaries, seed, tier, work, tag, deadline, alone=None):
    """run one job; `alone` = the number of one of its threads, to run without the others"""
    out, st, logp = (os.path.join(work, x + tag) for x in ("out", "st", "log"))
    secs = 60 if tier == "quick" else 120
    env = dict(os.environ)
    common = "exitcode=86:log_path=%s:allocator_may_return_null=0" % logp
    env.update(ASAN_OPTIONS=common + ":detect_leaks=0:max_malloc_fill_size=4096", MSAN_OPTIONS=common, TSAN_OPTIONS=common.replace(":", " "))
    env.setdefault("MON_HUGE", "2000")
    if job["build"] == "miri":
        cmd = binaries["miri"] + [job["ids"][0], "--seed", str(seed), "--tier", "quick", "--only", str(job["only"]),
                                  "--cpu-limit", "100000", "--out", out]
        limit = 240
    else:
        ids, th, sh, n = "+".join(job["ids"]), job["threads"], job["shard"], job["shards"]
        if alone is not None:
            ids, sh, n = job["ids"][alone % len(job["ids"])], sh * th + alone, n * th
            th = 1
        cmd = [binaries[job["build"]], ids, "--seed", str(seed), "--tier", tier, "--scale", str(job["scale"]), "--threads", str(th),
               "--shard", str(sh), "--shards", str(n), "--cpu-limit", str(100 * th), "--secs", str(secs),
               "--out", out, "--status", st]
        limit = 180 if tier == "quick" else 300
    job_env = env if job["build"] != "miri" else dict(env, MON_HUGE="1000000000", RUSTUP_TOOLCHAIN="nightly",
        MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks", CARGO_TARGET_DIR=os.path.join(check.TARGET, "harness-miri"), CARGO_NET_OFFLINE="true")
    with tempfile.TemporaryFile() as err:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=job_env,
                             cwd=os.path.join(HERE, "harness") if job["build"] == "miri" else work, start_new_session=True)
        try:
            rc = p.wait(timeout=max(5, min(limit, deadline - time.time())))
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        n = err.seek(0, 2)
        err.seek(max(0, n - 20000))
        text = err.read().decode(errors="replace")
    for f in glob.glob(logp + "*"):
        text += open(f, errors="replace").read(40000)
    res = [r for r in ([read(out)] if job["build"] == "miri" or job["threads"] == 1 or alone is not None
                       else [read("%s.%d" % (out, t)) for t in range(job["threads"])])]
    where = []
    for f in glob.glob(st + "*"):
        try:
            where.append(int(open(f).read().split()[0]))
        except (OSError, ValueError, IndexError):
            pass
    complete = all(x is not None and x["attempted"] > 0 and x["wall"] < secs for x in res)
    return dict(rc=rc, text=text, res=res, cmd=cmd, where=where, complete=complete)


def observed(res):
    """what an execution saw, as far as it does not depend on chance or on other threads"""
    drop = lambda d: {k: v for k, v in d.items() if "in progress" not in k and "inc_level" not in k}
    return dict(executions=res["evaluations"], counters=drop(res["counters"]), values={k: sorted(v) for k, v in res["sets"].items()},
                cases=sorted(res["distinct"]))


def differ(a, b):
    a, b = observed(a), observed(b)
    return ["%s %s" % (k, x) for k in ("executions", "cases") for x in [""] if a[k] != b[k]] + \
           ["%s '%s'" % (k, x) for k in ("counters", "values") for x in sorted(set(a[k]) | set(b[k])) if a[k].get(x) != b[k].get(x)]


def check_one(pid, job, r, again, repeat):
    """the violations one job shows, as messages"""
    found = []
    hits = [m.group(0) for m in REPORT.finditer(r["text"]) if not HARMLESS.search(m.group(0))]
    hits = [h for h in hits if "reported" not in h]
    if hits:
        lines = [l.strip() for l in r["text"].splitlines()]
        at = next((i for i, l in enumerate(lines) if hits[0] in l), 0)
        frames = [re.sub(r" \(BuildId.*| mon\.\S+-cgu\S*", "", l) for l in lines[at:at + 60] if re.match(r"#\d+ ", l) and "iodyn" in l][:6]
        found.append("%s%s" % (hits[0], " | through " + " ; ".join(frames) if frames else ""))
    elif pid == "C33":
        bad = []
        for t in range(job["threads"]):
            res = r["res"][t]
            if res is None:
                bad.append((t, "the process ends with %r" % r["rc"]))
            elif res["fails"]:
                bad.append((t, "execution %d: %s" % (res["fails"][0]["idx"], res["fails"][0]["msg"])))
        if bad:
            quiet = []
            for t, msg in bad:
                a = again(t)
                if a["rc"] == 0 and a["res"][0] is not None and not a["res"][0]["fails"]:
                    quiet.append((t, msg))
            if quiet and len(quiet) == len(bad):
                t, msg = quiet[0]
                found.append("%s, with %s at work in other threads; alone it passes: %s" % (job["ids"][t % len(job["ids"])], "+".join(job["ids"]), msg))
        elif r["complete"]:
            # the same executions alone see the same
            for t in range(job["threads"]):
                a = again(t)
                r["compared"] = r.get("compared", 0) + 1
                if a["rc"] != 0 or a["res"][0] is None or not a["complete"] or not differ(r["res"][t], a["res"][0]):
                    continue
                # chance, or the other threads?
                b, c, r2 = again(t), again(t), repeat()
                if all(x["res"] and all(x["res"]) and x["complete"] for x in (b, c, r2)) and not differ(a["res"][0], b["res"][0]) and \
                        not differ(a["res"][0], c["res"][0]) and differ(r2["res"][t], a["res"][0]):
                    found.append("%s sees something else with %s at work in other threads than alone: %s" %
                                 (job["ids"][t % len(job["ids"])], "+".join(job["ids"]), ", ".join(differ(r["res"][t], a["res"][0]))[:600]))
                    break
    return found


def check_all(pid, c, tier, seed):
    started = time.time()
    binaries = check.build_all(c["sanitizers"])
    if tier != "quick" and pid == "C32":
        binaries["miri"] = ["cargo", "miri", "run", "--offline", "-q", "--"]
    built = time.time() - started
    deadline = time.time() + (420 if tier == "quick" else 3600)
    work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=check.TARGET)
    js = jobs_for(pid, tier, binaries)
    q = queue.Queue()
    for i, j in enumerate(js):
        q.put((i, j))
    done, lock = [], threading.Lock()

    def loop():
        while time.time() < deadline - 5:
            try:
                i, j = q.get_nowait()
            except queue.Empty:
                return
            r = execute(j, binaries, seed, tier, work, "-%d-" % i, deadline)
            f = check_one(pid, j, r, lambda t: execute(j, binaries, seed, tier, work, "-%d-alone%d-" % (i, t), deadline, alone=t),
                          lambda: execute(j, binaries, seed, tier, work, "-%d-repeat-" % i, deadline))
            with lock:
                done.append((i, j, r, f))

    ts = [threading.Thread(target=loop) for _ in range(8 if pid == "C32" else 5)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(work, ignore_errors=True)

    ev, counters, maxima, distinct, samples, cut, per = 0, {}, {}, set(), [], 0, {}
    others = 0
    for i, j, r, f in sorted(done, key=lambda d: d[0]):
        for res in r["res"]:
            if res is None:
                cut += 1
                continue
            ev += res["evaluations"]
            per[j["build"]] = per.get(j["build"], 0) + res["evaluations"]
            others += len(res["fails"])
            for k, v in res["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in res["maxima"].items():
                maxima[k] = max(maxima.get(k, 0), v)
            distinct.update(res["distinct"])
            if len(samples) < 5 and len(res["samples"]) and i % 7 == 0:
                samples.append("%s %s: %s" % (j["build"], "+".join(j["ids"]), res["samples"][0][:1200]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    viol = [(i, j, r, m) for i, j, r, f in done for m in f]
    coverage = dict(evaluations=ev, distinct_nontrivial=len(distinct), rule=c["rule"], samples=samples,
                    executions_per_build=per, processes_run=len(done), processes_planned=len(js), results_cut_short=cut,
                    alarms_of_the_workloads_own_monitors=others,
                    threads_compared_with_the_same_alone=sum(r.get("compared", 0) for _, _, r, _ in done),
                    sanitizer_reports=sum(1 for v in viol), monitors_observed=dict(sorted(counters.items())),
                    greatest_values_observed=dict(sorted(maxima.items())), build_s=round(built, 1))
    json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=coverage, assumptions=c.get("assumptions", []),
                   wall_s=round(time.time() - started, 2), violations=len(viol)),
              open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    check.log("%s %s seed=%d: %d executions in %d processes, %d distinct non-trivial, %.1f s (build %.1f s)" %
              (pid, tier, seed, ev, len(done), len(distinct), time.time() - started, built))
    if viol:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        i, j, r, m = min(viol, key=lambda v: v[0])
        path = os.path.join(HERE, "replay", "%s-%s-%d-%d.json" % (pid, tier, seed, i))
        json.dump(dict(property=pid, seed=seed, tier=tier, message=m, command=" ".join(r["cmd"]), executions_under_way=r["where"],
                       report=r["text"][-12000:], all=[x[3] for x in viol[:20]]), open(path, "w"), indent=1)
        check.log("%s under %s: %s" % ("+".join(j["ids"]), j["build"], m[:1500]))
        check.log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if len(distinct) < c.get("min_distinct", 10):
        check.log("UNDECIDED: only %d non-trivial executions observed" % len(distinct))
        return 3
    return 0
