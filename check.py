#!/usr/bin/env python3
"""check.py Cxx quick|thorough     decide one property (exit 0, 1 or 2)
   check.py build                  build the workers, nothing else
   check.py replay FILE [n]        run a replay file

Builds the harness against the working tree of /repo, runs shards of the
explorer, merges what they report into evidence/Cxx.json."""
import json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, ".build")
REPO = "/repo"
EXIT_HANG, EXIT_SPIN = 33, 34
CORES = min(8, os.cpu_count() or 8)
LEVEL = "exploration"


def env(extra=None):
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=readonly", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off")
    e.pop("VP_FOREIGN", None)
    e.pop("VP_DEBUG", None)
    if extra:
        e.update(extra)
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def build(work, name, hows, flags):
    """A worker with the instrumented sources; returns (binary, how)."""
    out = os.path.join(work, name + ".test")
    last = ""
    for how, args in hows:
        cmd = ["go", "test", "-c", "-vet=off", "-o", out] + flags
        if args is not None:
            ov = os.path.join(work, "ov.%s.%s" % (name, how))
            shutil.rmtree(ov, ignore_errors=True)
            os.makedirs(ov)
            r = run(["go", "run", "./cmd/instr", "-repo", REPO, "-out", ov] + args)
            if r.returncode != 0:
                last = r.stdout
                continue
            cmd += ["-overlay", os.path.join(ov, "overlay.json")]
        r = run(cmd + ["./" + name])
        if r.returncode == 0:
            return out, how
        last = r.stdout
    sys.stdout.write(last)
    print("check.py: the harness does not build against " + REPO)
    sys.exit(2)


def build_sim(work):
    return build(work, "props", (("points", ["-points"]), ("vsync", []), ("plain", None)), [])


def build_race(work):
    return build(work, "race", (("points", ["-points"]), ("plain", None)), ["-race"])


def worker_env(work, tag, extra):
    e = {"VP_CUR": os.path.join(work, "cur.%s.json" % tag),
         "VP_FAIL": os.path.join(work, "fail.%s.json" % tag),
         "VP_STAT": os.path.join(work, "stat.%s.json" % tag),
         "GOMAXPROCS": "1", "GOMEMLIMIT": "2GiB", "GOTRACEBACK": "all"}
    e.update(extra)
    return env(e)


def spawn(binary, work, tag, args, extra):
    e = worker_env(work, tag, extra)
    for k in ("VP_CUR", "VP_FAIL", "VP_STAT"):
        if os.path.exists(e[k]):
            os.remove(e[k])
    log = open(os.path.join(work, "out.%s.txt" % tag), "w")
    p = subprocess.Popen([binary] + args, cwd=work, env=e, stdout=log, stderr=subprocess.STDOUT,
                         start_new_session=True)
    p.vp_env, p.vp_log, p.vp_tag = e, log.name, tag
    log.close()
    return p


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def wait_all(ps, limit):
    end = time.time() + limit
    stuck = set()
    for p in ps:
        try:
            p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            stop(p)
            stuck.add(p.vp_tag)
    return stuck


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def tail(path, n=4000):
    try:
        with open(path, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def crashed(log):
    """The line that says how the process ended by itself, if it did so by a Go panic or fatal error."""
    try:
        with open(log, errors="replace") as f:
            for line in f:
                if line.startswith(("panic:", "fatal error:", "SPIN:", "unexpected fault")) or "runtime: goroutine stack exceeds" in line:
                    if "test timed out" in line or "out of memory" in line or "cannot allocate" in line:
                        return None
                    return line.strip()[:500]
    except OSError:
        pass
    return None


EXIT_RACE = 66
RACE_ENV = {"GOMAXPROCS": "4", "GORACE": "halt_on_error=1 exitcode=%d" % EXIT_RACE}


def ended_by(p):
    """What ended a worker: a race report, a panic, a fatal error or None."""
    if p.returncode == EXIT_RACE:
        return "DATA RACE " + racing(p.vp_log)
    return crashed(p.vp_log)


def racing(log):
    """The functions that race, from the report."""
    out = []
    try:
        with open(log, errors="replace") as f:
            take = 0
            for line in f:
                if line.startswith(("Read at", "Write at", "Previous read", "Previous write", "Atomic", "Previous atomic")):
                    take = 1
                    out.append(" ".join(line.split()[:2]).rstrip("at").strip())
                elif take and line.startswith("  ") and not line.startswith("      "):
                    out.append(line.strip())
                    take = 0
    except OSError:
        pass
    return " ".join(out)[:600]


def replay(binary, work, path, times, limit=240, extra=None, tag="replay"):
    """Runs a stored case; returns the findings, or None if it passed, or "?"."""
    x = {"VP_REPLAY": path, "VP_TIMES": str(times)}
    x.update(extra or {})
    p = spawn(binary, work, tag, ["-test.run", "TestReplay", "-test.v", "-test.timeout", "0"], x)
    if wait_all([p], limit):
        return "?"
    if p.returncode == 0:
        return None
    f = load(p.vp_env["VP_FAIL"])
    if f:
        return f["Findings"]
    c = ended_by(p)
    return [c] if c else "?"


# ---- shrinking of cases that end the process ---------------------------------

def candidates(v):
    """Smaller variants of a JSON value."""
    if isinstance(v, list):
        n = len(v)
        k = n
        while k >= 1:
            for i in range(0, n, k):
                yield v[:i] + v[i + k:]
            k //= 2
        for i, x in enumerate(v):
            for y in candidates(x):
                yield v[:i] + [y] + v[i + 1:]
    elif isinstance(v, dict):
        for key in v:
            x = v[key]
            if isinstance(x, (list, dict)):
                for y in candidates(x):
                    d = dict(v)
                    d[key] = y
                    yield d


def shrink(binary, work, failure, seconds, times=1, extra=None):
    end = time.time() + seconds
    best = failure
    path = os.path.join(work, "shrink.json")
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in candidates(best["Case"]):
            if time.time() > end:
                break
            with open(path, "w") as f:
                json.dump(dict(best, Case=c), f)
            r = replay(binary, work, path, times, 20, extra, tag="shrink")
            if r and r != "?" and failure["_kind"] in " ".join(r):
                best = dict(best, Case=c, Findings=r)
                progress = True
                break
    return best


# ---- deciding a property -------------------------------------------------------

def known_findings(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line.split(" ", 2)[2])
    return out


def decide(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + ".", dir=BUILD)
    code = 2
    try:
        code = decide_in(pid, tier, seed, work, t0)
    finally:
        if os.environ.get("VP_KEEP") != "1":
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide_in(pid, tier, seed, work, t0):
    race = pid == "C27"
    binary, how = (build_race if race else build_sim)(work)
    built = time.time() - t0
    r = subprocess.run([binary, "-test.run", "TestList", "-test.v"], cwd=work, env=env(), stdout=subprocess.PIPE, text=True)
    checks = None
    for line in r.stdout.splitlines():
        if "PROP " + pid + " " in line:
            checks = int(line.split()[-1])
    if checks is None:
        print("check.py: no property " + pid)
        return 2
    thorough = tier == "thorough"
    shards = max(1, CORES - 2) if race else CORES
    budget = 60 if not thorough else 540
    if thorough:
        checks *= 60
    ps = []
    for s in range(shards):
        sd = (seed * 1000003 + s * 7919 + sum(ord(c) * 31 ** i for i, c in enumerate(pid))) % (1 << 62) or 1
        args = ["-test.run", "TestExplore", "-test.v", "-test.timeout", "0", "-rapid.checks=%d" % checks,
                "-rapid.seed=%d" % sd, "-rapid.nofailfile", "-rapid.shrinktime=%s" % ("60s" if thorough else "15s")]
        x = {"VP_PROP": pid, "VP_BUDGET": str(budget)}
        if race:
            x.update(RACE_ENV)
        ps.append(spawn(binary, work, "s%d" % s, args, x))
    stuck = wait_all(ps, budget + 200)

    failures, incomplete, notes = [], {}, {}
    merged = {"Evaluations": 0, "Nontrivial": 0, "Classes": {}, "Notes": {}, "Samples": [], "Rule": ""}
    distinct = set()
    out_of_time = 0
    for p in ps:
        st = load(p.vp_env["VP_STAT"])
        if st:
            merged["Evaluations"] += st["Evaluations"]
            merged["Rule"] = st["Rule"]
            distinct.update(st["Distinct"] or [])
            out_of_time += st["OutOfTime"]
            for k in ("Classes", "Notes"):
                for n, v in (st[k] or {}).items():
                    merged[k][n] = merged[k].get(n, 0) + v
            for n, v in (st["Incomplete"] or {}).items():
                incomplete[n] = incomplete.get(n, 0) + v
            merged["Samples"] += (st["Samples"] or [])[:1]
        f = load(p.vp_env["VP_FAIL"])
        if f:
            f["_kind"] = "hang" if p.returncode == EXIT_HANG else ""
            f["_exit"] = p.returncode
            failures.append(f)
            continue
        if p.returncode == 0 and p.vp_tag not in stuck:
            continue
        c = load(p.vp_env["VP_CUR"])
        why = ended_by(p)
        if c and why and p.vp_tag not in stuck:
            c["Findings"] = [why] + ([tail(p.vp_log, 6000)] if race else [])
            c["_kind"] = "DATA RACE" if p.returncode == EXIT_RACE else why.split(":")[0]
            c["_exit"] = p.returncode
            failures.append(c)
        else:
            sys.stdout.write(tail(p.vp_log))
            print("check.py: worker %s ended with %s%s" % (p.vp_tag, p.returncode, " (stopped)" if p.vp_tag in stuck else ""))
            notes["broken workers"] = notes.get("broken workers", 0) + 1

    violation = None
    if failures:
        # prefer failures found as findings over those that ended the process, and small ones
        failures.sort(key=lambda f: (f["_exit"] not in (0, 1), len(json.dumps(f["Case"]))))
        violation = failures[0]
        if violation["_exit"] not in (0, 1):
            violation = shrink(binary, work, violation, 120 if thorough else 20, 5 if race else 1, RACE_ENV if race else None)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": merged["Evaluations"],
            "distinct_nontrivial": len(distinct),
            "rule": merged["Rule"],
            "samples": merged["Samples"][:4] or [{"none": True}],
            "classes": merged["Classes"], "measurements": merged["Notes"],
            "not_judged": incomplete,
            "build": how, "build_s": round(built, 1), "shards": shards,
            "shards_out_of_time": out_of_time,
        },
        "assumptions": ["the Go runtime, testing/synctest and rapid behave as documented",
                        "the fake server implements the memcached protocol"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    ev["coverage"].update(notes)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s, %s)" % (
        pid, tier, merged["Evaluations"], len(distinct), time.time() - t0, built, how))
    if violation:
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % pid)
        violation = {k: v for k, v in violation.items() if not k.startswith("_")}
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        for x in violation["Findings"][:5]:
            print("  " + x[:3000].encode("ascii", "backslashreplace").decode())
        print("  (replay: python3 check.py replay %s)" % path)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if notes.get("broken workers"):
        return 2
    if merged["Evaluations"] == 0 or len(distinct) == 0:
        print("check.py: nothing was explored")
        return 2
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        os.makedirs(BUILD, exist_ok=True)
        work = tempfile.mkdtemp(prefix="build.", dir=BUILD)
        try:
            print(build_sim(work)[1])
            print(build_race(work)[1])
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return
    if a[:1] == ["replay"] and len(a) >= 2:
        os.makedirs(BUILD, exist_ok=True)
        work = tempfile.mkdtemp(prefix="replay.", dir=BUILD)
        try:
            path = os.path.abspath(a[1])
            race = load(path)["Property"] == "C27"
            binary, _ = (build_race if race else build_sim)(work)
            r = replay(binary, work, path, int(a[2]) if len(a) > 2 else 1,
                       extra=RACE_ENV if race else None)
            sys.stdout.write(tail(os.path.join(work, "out.replay.txt"), 20000))
            sys.exit(0 if r is None else 1)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if len(a) == 2 and a[1] in ("quick", "thorough"):
        decide(a[0], a[1])
    print(__doc__)
    sys.exit(2)


main()
