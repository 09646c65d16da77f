"""The engine behind check.py: builds the harness from /repo, runs TLC on the models, lets TLC generate
behaviours, executes cases against the real code, and lets TLC validate the recorded traces."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    """Something in the machinery failed; says nothing about the property."""


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


# ---------------------------------------------------------------------------------------------------
# harness

def build_harness():
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    env.setdefault("HOME", "/root")
    env.pop("RUSTFLAGS", None)
    for profile in ("release", "plain"):
        p = sh(["cargo", "build", "--profile", profile, "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"),
               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("harness does not build against /repo:\n" + p.stdout[-4000:])
    return [os.path.join(BUILD, "target", profile, "harness") for profile in ("release", "plain")]


def by_case(events):
    res = {}
    for e in events:
        res.setdefault(e["c"], []).append(e)
    return res


def run_harness(binary, cases, path, limit_s, mem_gb=3):
    """Executes cases (a list of dicts); returns the recorded events. A crash or a hang of the code under
    test is recorded as an event no specification accepts, and the remaining cases are run afterwards."""
    events = []
    first = 0
    stops = 0
    while first < len(cases):
        with open(path + ".cases", "w") as f:
            for c in cases[first:]:
                f.write(json.dumps(c) + "\n")
        env = dict(os.environ, CASE_LIMIT_S=str(limit_s))

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = sh([binary, path + ".cases", path + ".out"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
               env=env, preexec_fn=limits)
        if os.environ.get("CASE_TIMES"):
            sys.stderr.write(p.stderr.decode(errors="replace"))
        if p.returncode == 3:
            raise ToolError("harness failed: " + p.stderr.decode(errors="replace")[-2000:])
        got = []
        with open(path + ".out") as f:
            for line in f:
                if line.endswith("\n"):
                    e = json.loads(line)
                    e["c"] += first
                    got.append(e)
        events += got
        if p.returncode == 0:
            break
        # the case after the last one that was recorded completely
        done = got[-1]["c"] + 1 if got else first
        what = "hang" if p.returncode == 77 else "abort"
        events.append({"ev": what, "status": p.returncode, "c": done})
        stops += 1
        if stops >= 2:
            break  # enough: both are rejections
        first = done + 1
    return events


# ---------------------------------------------------------------------------------------------------
# TLC

def tlc(module, cfg, rundir, env=None, workers=1, args=(), timeout=None, heap="2g"):
    """Runs TLC; returns (exit status, output)."""
    meta = os.path.join(rundir, "meta-%s-%s" % (module, hashlib.md5(repr((cfg, sorted((env or {}).items()), args)).encode()).hexdigest()[:8]))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + rundir, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg + ".cfg", *args, module + ".tla"]
    try:
        p = sh(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out: %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def model_check(module, cfg, rundir, workers, expect="ok", timeout=None, env=None):
    """Model checks; returns (distinct states, transitions). `expect` is "ok" or "violated" (for a
    specification of a known-bad design, which shows that the invariants can fail)."""
    rc, out = tlc(module, cfg, rundir, workers=workers, timeout=timeout, heap="6g", env=env)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if expect == "violated":
        if rc not in (10, 11, 12, 13):
            raise ToolError("design mutant %s/%s was not rejected (status %d)\n%s" % (module, cfg, rc, out[-3000:]))
    elif rc != 0:
        raise ToolError("model %s/%s fails (status %d):\n%s" % (module, cfg, rc, out[-3000:]))
    if not m:
        return 0, 0
    gen, dist = m[-1]
    return int(dist.replace(",", "")), int(gen.replace(",", ""))


def generate(module, cfg, rundir, env=None, args=(), timeout=600, workers=1):
    """Runs a generator specification; returns the JSON values it printed, in order, without duplicates."""
    rc, out = tlc(module, cfg, rundir, env=env, args=args, timeout=timeout, heap="4g", workers=workers)
    if rc != 0:
        raise ToolError("generator %s/%s failed (status %d):\n%s" % (module, cfg, rc, out[-3000:]))
    res, seen = [], set()
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"') and line not in seen:
            s = json.loads(line)
            if s[:1] in "[{":
                seen.add(line)
                res.append(json.loads(s))
    return res


class Rejected(Exception):
    pass


def validate(module, cfg, env, events, rundir, tag, timeout):
    """Validates one trace; returns None if accepted, or the index of the first rejected event."""
    path = os.path.join(rundir, "trace-%s.ndjson" % tag)
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    if not events:
        return None
    ev = dict(env)
    ev["TRACE"] = path
    rc, out = tlc(module, cfg, rundir, env=ev, timeout=timeout, heap="3g")
    m = re.search(r'<<"TRACE", (\d+), (\d+)>>', out)
    if rc == 0 and m:
        if int(m.group(2)) != len(events):
            raise ToolError("trace length mismatch")
        if int(m.group(1)) == len(events):
            os.unlink(path)
            return None
        return int(m.group(1))
    if "OutOfMemory" in out or "Java heap space" in out or "GC overhead" in out or "StackOverflow" in out or "Parsing or semantic analysis failed" in out or "not a certificate" in out:
        raise ToolError("TLC failed on a trace of %s:\n%s" % (module, out[-3000:]))
    # The specification could not even be evaluated on an event: the event is outside its domain.
    ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
    if "Error:" in out and ls:
        return int(ls[-1]) - 1
    raise ToolError("TLC failed on a trace of %s (status %d):\n%s" % (module, rc, out[-3000:]))


# ---------------------------------------------------------------------------------------------------

class Check:
    """One property. Subclasses/instances define:
      pid        property id
      models     list of dicts(module, cfg, expect="ok", tiers=("quick","thorough"))
      trace      dict(module, cfg, env)
      cases(ctx) -> list of case dicts (key "k" selects the harness driver)
    """

    def __init__(self, pid, trace, cases, models=(), limit_s=30, assumptions=(), shard_events=None):
        self.pid, self.trace, self.cases, self.models = pid, trace, cases, list(models)
        self.limit_s, self.assumptions = limit_s, list(assumptions)


class Ctx:
    def __init__(self, check, tier, seed, rundir):
        import random
        self.check, self.tier, self.seed, self.rundir = check, tier, seed, rundir
        self.rng = random.Random("%s-%d" % (check.pid, seed))
        self.thorough = tier == "thorough"
        self.tlc_cases = 0

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def gen(self, module, cfg, env=None, simulate=None, depth=None, limit=None, workers=1):
        """Cases generated by TLC; random behaviours if `simulate` is their number."""
        args = ()
        if simulate:
            args = ("-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed))
        t = time.time()
        r = generate(module, cfg, self.rundir, env=env, args=args, workers=workers)
        if not simulate:
            r.sort(key=json.dumps)  # the order in which workers print is not fixed
        if limit and len(r) > limit:
            r = self.rng.sample(r, limit)
        self.tlc_cases += len(r)
        return r


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                res.append(json.loads(line.split(" ", 2)[2]))
    return res


def run(check, tier, seed, replay=None):
    t0 = time.time()
    rundir = os.path.join(BUILD, "run", "%s-%s-%d" % (check.pid, tier, os.getpid()))
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    try:
        return _run(check, tier, seed, rundir, t0, replay)
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


def _run(check, tier, seed, rundir, t0, replay):
    ctx = Ctx(check, tier, seed, rundir)
    log = lambda *a: print("[%6.1fs]" % (time.time() - t0), *a, flush=True)
    states = transitions = 0
    model_info = []
    with cf.ThreadPoolExecutor(CORES) as pool:
        fb = pool.submit(build_harness)
        fm = []
        if not replay:
            for m in check.models:
                if tier in m.get("tiers", ("quick", "thorough")):
                    fm.append((m, pool.submit(model_check, m["module"], m["cfg"], rundir,
                                              m.get("workers", 4 if tier == "thorough" else 2),
                                              m.get("expect", "ok"), m.get("timeout"), m.get("env"))))
            cases = check.cases(ctx)
        else:
            cases = [replay["case"]]
        binaries = fb.result()
        log("harness built; %d cases (%d from TLC)" % (len(cases), ctx.tlc_cases))
        for m, f in fm:
            d, g = f.result()
            if m.get("expect", "ok") == "ok":
                states += d
                transitions += g
            model_info.append({"module": m["module"], "cfg": m["cfg"], "distinct_states": d, "transitions": g,
                               "result": "no error" if m.get("expect", "ok") == "ok" else "violation found, as expected of this design mutant"})
        if fm:
            log("models checked: %d distinct states, %d transitions" % (states, transitions))

        # Deal the cases out so that every shard has a fair mix.
        n = min(CORES, max(1, len(cases) // 20))
        shards = [cases[i::n] for i in range(n)]

        def shard(i):
            logs = [run_harness(b, shards[i], os.path.join(rundir, "h%d" % i), check.limit_s) for b in binaries]
            res = []
            for evs, build in zip(logs, ("checked", "plain")):
                if build == "plain":  # only what the build without overflow checks does differently
                    by = [by_case(log) for log in logs]
                    evs = [e for c in sorted(by[1]) if by[1][c] != by[0].get(c) for e in by[1][c]]
                bad = validate(check.trace["module"], check.trace["cfg"], check.trace.get("env", {}), evs, rundir,
                               "%d-%s" % (i, build), check.trace.get("timeout", 3000))
                res.append((evs, bad, build))
            return res

        results = [(i, *r) for i, f in [(i, pool.submit(shard, i)) for i in range(n)] for r in f.result()]
    violations = []
    nev = validated = 0
    kinds = {}
    for i, evs, bad, build in results:
        nev += len(evs) if bad is None else bad
        for e in evs[: len(evs) if bad is None else bad]:
            kinds[e["ev"]] = kinds.get(e["ev"], 0) + 1
        validated += len({e["c"] for e in (evs if bad is None else evs[:bad])})
        if bad is not None:
            c = evs[bad]["c"]
            violations.append((shards[i][c], build, [e for e in evs if e["c"] == c], bad - min(j for j, e in enumerate(evs) if e["c"] == c)))
    log("%d traces validated, %d events, %d rejected" % (validated, nev, len(violations)))
    known = known_findings(check.pid)
    status = 0
    for case, build, evs, at in violations:
        if replay:
            path = replay["path"]
        else:
            h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (check.pid, h))
            with open(path, "w") as f:
                json.dump({"property": check.pid, "case": case, "rejected_event": at, "events": evs[: at + 1],
                           "build": build, "trace_spec": check.trace["module"],
                           "rerun": "python3 check.py replay " + os.path.relpath(path, VERIF)}, f, indent=1)
        print("rejected event:", json.dumps(evs[at])[:1500])
        print("VIOLATION property=%s replay=%s" % (check.pid, path), flush=True)
        status = 1
    if not replay:
        def brief(e):
            return e if len(json.dumps(e)) < 3000 else {"k": e.get("k", e.get("ev")), "truncated": json.dumps(e)[:3000]}
        samples = [{"case": brief(shards[0][0]), "events": [brief(e) for e in results[0][1] if e["c"] == 0][:12]}]
        for i in range(1, min(3, n)):
            samples.append({"case": brief(shards[i][0])})
        ev = {"property": check.pid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": validated,
                           "samples": samples, "events_validated": nev, "events_by_kind": kinds,
                           "cases_generated_by_tlc": ctx.tlc_cases, "cases_generated_at_random": len(cases) - ctx.tlc_cases,
                           "distinct_cases": len({json.dumps(c, sort_keys=True) for c in cases}),
                           "models": model_info},
              "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", check.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    log("done")
    return status
