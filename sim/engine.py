"""Seeded search: generate scenario -> run it in a forked child -> judge -> minimise -> replay file."""
import collections
import copy
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

from . import env

VERIF = env.VERIF
OUT = os.path.join(VERIF, "out")
KNOWN = os.path.join(VERIF, "known_findings.json")
RUN_WALL = 60          # seconds of real time one simulated run may take


class Ctx:
    """What one simulated run collects."""

    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.probes = collections.Counter()
        self.fired = collections.Counter()
        self.trace = []
        self.sim_time = 0.0
        self.checks = 0
        self.requests = 0
        self.real = set()
        self.stub = set()

    def violate(self, oracle, sig, detail):
        self.violations.append({"oracle": oracle, "sig": sig, "detail": detail, "step": len(self.trace)})

    def probe(self, name, n=1):
        self.probes[name] += n

    def ev(self, *what):
        self.trace.append([x if isinstance(x, (int, str, bool, type(None))) else str(x) for x in what])

    def absorb(self, world):
        self.fired.update(world.net.fired)
        self.sim_time += env.CLOCK.now - world.t_start
        self.requests += world.net.requests
        for n in world.nodes.values():
            (self.real if n.real else self.stub).add(n.spec["kind"])

    def result(self):
        tr = json.dumps(self.trace)
        return {"violations": self.violations, "probes": self.probes, "fired": self.fired,
                "sim_time": self.sim_time, "checks": self.checks, "requests": self.requests,
                "digest": hashlib.sha256(tr.encode()).hexdigest()[:16], "events": len(self.trace),
                "real": sorted(self.real), "stub": sorted(self.stub)}


def load(prop):
    return importlib.import_module(f"props.{prop.lower()}")


def scenario(mod, base, i):
    seed = f"{base}:{mod.PROP}:{i}"
    rng = random.Random(seed)
    scn = mod.gen(rng)
    scn["prop"] = mod.PROP
    scn["seed"] = seed
    # through JSON: what runs is what a replay file can hold
    return json.loads(json.dumps(scn))


def run_here(mod, scn, keep_trace=False):
    """One simulated run, in this process."""
    from . import fed
    ctx = Ctx(mod.PROP)
    err = None
    try:
        mod.run(copy.deepcopy(scn), ctx)
    except Exception:
        err = traceback.format_exc()
    finally:
        from . import net
        net.detach()
    res = ctx.result()
    res["error"] = err
    if keep_trace:
        res["trace"] = ctx.trace
    return res


def run_forked(mod, scn, keep_trace=False, wall=RUN_WALL):
    """One simulated run in a child of its own: nothing leaks from run to run."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            from . import fed
            os.chdir(fed.scratch())     # some components put key files in the current directory
            res = run_here(mod, scn, keep_trace)
            fed.cleanup()
            data = json.dumps(res).encode()
            with os.fdopen(w, "wb") as fp:
                fp.write(data)
        except BaseException:
            code = 3
            try:
                os.write(2, traceback.format_exc().encode())
            except Exception:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    deadline = env.REAL_MONOTONIC() + wall
    hung = False
    while True:
        left = deadline - env.REAL_MONOTONIC()
        if left <= 0:
            hung = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 5))
        if rd:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    os.close(r)
    if hung:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.waitpid(pid, 0)
    if hung:
        v = []
        if getattr(mod, "HANG_IS_VIOLATION", False):
            v = [{"oracle": "termination", "sig": "hang", "step": 0,
                  "detail": f"an operation did not return within {wall} s of real time"}]
        return _empty(v, None if v else f"run exceeded {wall} s of real time")
    try:
        return json.loads(buf)
    except ValueError:
        return _empty([], "child died without a result")


def _empty(v, err):
    return {"violations": v, "probes": {}, "fired": {}, "sim_time": 0, "checks": 0, "requests": 0,
            "digest": "", "events": 0, "real": [], "stub": [], "error": err}


# ------------------------------------------------------------------------------------------------
def known_findings(prop):
    try:
        with env.REAL_OPEN(KNOWN) as fp:
            data = json.load(fp)
    except FileNotFoundError:
        return []
    return [f for f in data["findings"] if f["property"] == prop]


def is_known(v, known):
    for f in known:
        if f["sig"] == v["sig"]:
            return f
    return None


def _worker(mod, base, idx, stop_at, w):
    """Runs its share of scenario numbers, streams one JSON line per run."""
    with os.fdopen(w, "w") as fp:
        for i in idx:
            if env.REAL_MONOTONIC() > stop_at:
                break
            try:
                scn = scenario(mod, base, i)
            except Exception:
                res = _empty([], "generator: " + traceback.format_exc())
            else:
                res = run_forked(mod, scn)
            res["i"] = i
            fp.write(json.dumps(res) + "\n")
            fp.flush()


def sweep(mod, base, total, seconds, workers, first=0):
    """Run scenarios first..first+total-1 (or until ``seconds`` are over)."""
    stop_at = env.REAL_MONOTONIC() + seconds
    pipes = []
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for rr, _ in pipes:
                os.close(rr)
            try:
                _worker(mod, base, range(first + k, first + total, workers), stop_at, w)
            finally:
                os._exit(0)
        os.close(w)
        pipes.append((r, pid))
    bufs = {r: b"" for r, _ in pipes}
    out = []
    live = {r for r, _ in pipes}
    while live:
        rd, _, _ = select.select(list(live), [], [])
        for r in rd:
            d = os.read(r, 1 << 20)
            if not d:
                live.discard(r)
                os.close(r)
                continue
            bufs[r] += d
            *lines, bufs[r] = bufs[r].split(b"\n")
            for ln in lines:
                out.append(json.loads(ln))
    for _, pid in pipes:
        os.waitpid(pid, 0)
    out.sort(key=lambda x: x["i"])
    return out


# ------------------------------------------------------------------------------------------------
def same(res, sig):
    return any(v["sig"] == sig for v in res["violations"])


def minimise(mod, scn, sig, seconds=90):
    """ddmin over the operations, then the module's own simplifications."""
    end = env.REAL_MONOTONIC() + seconds
    tried = 0

    def fails(s):
        nonlocal tried
        if env.REAL_MONOTONIC() > end:
            return False
        tried += 1
        try:
            return same(run_forked(mod, s), sig)
        except Exception:
            return False

    best = scn
    changed = True
    while changed and env.REAL_MONOTONIC() < end:
        changed = False
        for key in getattr(mod, "SHRINK_LISTS", ("ops",)):
            ops = best.get(key) or []
            n = 2
            while len(ops) >= 1:
                size = max(1, len(ops) // n)
                cut = False
                for at in range(0, len(ops), size):
                    cand = ops[:at] + ops[at + size:]
                    s = dict(best)
                    s[key] = cand
                    if fails(s):
                        ops, best, cut, changed = cand, s, True, True
                        n = max(n - 1, 2)
                        break
                if not cut:
                    if size == 1:
                        break
                    n = min(n * 2, max(len(ops), 2))
                if env.REAL_MONOTONIC() > end:
                    break
        simp = getattr(mod, "simplify", None)
        if simp:
            again = True
            while again and env.REAL_MONOTONIC() < end:
                again = False
                for cand in simp(copy.deepcopy(best)):
                    if json.dumps(cand, sort_keys=True) == json.dumps(best, sort_keys=True):
                        continue
                    if fails(cand):
                        best, again, changed = cand, True, True
                        break
    return best, tried


def write_replay(mod, scn, v, extra):
    os.makedirs(OUT, exist_ok=True)
    res = run_forked(mod, scn, keep_trace=True)
    vv = next((x for x in res["violations"] if x["sig"] == v["sig"]), v)
    name = hashlib.sha256((v["sig"] + scn["seed"]).encode()).hexdigest()[:10]
    path = os.path.join(OUT, f"{mod.PROP}-{name}.json")
    with env.REAL_OPEN(path, "w") as fp:
        json.dump({"property": mod.PROP, "seed": scn["seed"], "violation": vv, "digest": res["digest"],
                   "scenario": scn, "trace": res.get("trace"), **extra}, fp, indent=1)
    return path


def replay(path, quiet=False):
    """Re-run a replay file.  True when the recorded violation happens again, exactly."""
    with env.REAL_OPEN(path) as fp:
        rec = json.load(fp)
    mod = load(rec["property"])
    prepare(mod)
    res = run_forked(mod, rec["scenario"], keep_trace=True)
    hit = next((v for v in res["violations"] if v["sig"] == rec["violation"]["sig"]), None)
    exact = hit is not None and (res["digest"] == rec["digest"] or not rec["digest"])
    if not quiet:
        for t in res.get("trace") or []:
            print("  ", *t)
        print("violation:", json.dumps(hit, indent=1) if hit else "NOT reproduced")
        print("trace identical to the recorded one:", exact)
        if res["error"]:
            print(res["error"])
    return hit is not None, exact


_prepared = False


def prepare(mod):
    """Import everything and warm key caches before forking."""
    global _prepared
    if _prepared:
        return
    _prepared = True
    env.install()
    from . import fed, jose
    fed.base_dir()
    for i in range(len(env.pool())):
        k = env.pool_key(i)
        jose.public_jwk(i)
        jose.key_config(i)
    import fedservice.utils, fedservice.combo  # noqa
    from cryptojwt.key_jar import KeyJar
    KeyJar().import_jwks(jose.key_config(*range(len(env.pool()))), "")
    for i in range(len(env.pool())):
        fed.key_file(i)
    warm = getattr(mod, "warm", None)
    if warm:
        warm()


def check(prop, tier, seed, runs=None, seconds=None, workers=None, quiet=False):
    mod = load(prop)
    t0 = env.REAL_MONOTONIC()
    prepare(mod)
    workers = workers or min(8, os.cpu_count() or 4)
    if tier == "quick":
        total = runs or mod.QUICK_RUNS
        secs = seconds or 600
    else:
        total = runs or 10 ** 7
        secs = seconds or getattr(mod, "THOROUGH_SECONDS", 720)
    results = []
    first = 0
    known = known_findings(prop)
    # in slices, so that a violation stops the search early
    slice_ = max(workers * 8, min(total, 200 if tier == "quick" else 2000))
    stop = t0 + secs
    while first < total and env.REAL_MONOTONIC() < stop:
        n = min(slice_, total - first)
        part = sweep(mod, seed, n, stop - env.REAL_MONOTONIC(), workers, first)
        results.extend(part)
        first += n
        if any(v for r in part for v in r["violations"] if not is_known(v, known)):
            break
        if sum(1 for r in results if r["error"]) > 5:
            break
    sweep_wall = env.REAL_MONOTONIC() - t0
    errors = [r for r in results if r["error"]]
    new, seen_known = {}, {}
    for r in results:
        for v in r["violations"]:
            f = is_known(v, known)
            if f:
                seen_known.setdefault(f["sig"], (f, r["i"], v))
            else:
                new.setdefault(v["sig"], (r["i"], v))
    rc = 0
    reported = []
    for sig, (i, v) in sorted(new.items(), key=lambda kv: kv[1][0])[:3]:
        scn = scenario(mod, seed, i)
        small, tried = minimise(mod, scn, sig, 60 if tier == "quick" else 120)
        path = write_replay(mod, small, v, {"original_ops": len(scn.get("ops", [])),
                                            "minimised_ops": len(small.get("ops", [])),
                                            "runs_to_minimise": tried})
        ok = fresh_replay(path)
        if not ok:
            path = write_replay(mod, scn, v, {"note": "not minimised"})
            ok = fresh_replay(path)
        reported.append({"sig": sig, "detail": v["detail"], "replay": path, "reproduced": ok})
        if ok:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {sig}: {v['detail']}")
            rc = 1
        else:
            print(f"ERROR {prop}: violation {sig} seen in run {i} does not replay: machinery problem")
            rc = rc or 2
    for sig, (f, i, v) in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for f in known:
        if f["sig"] not in seen_known and rc == 0:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if errors and rc == 0:
        print(f"ERROR {prop}: {len(errors)} runs ended in an error of the machinery; first:")
        print(errors[0]["error"])
        rc = 2
    missing = []
    if rc == 0 and tier == "quick" and not runs:
        probes = collections.Counter()
        for r in results:
            probes.update(r["probes"])
        missing = [p for p in getattr(mod, "REQUIRED_PROBES", ()) if not probes.get(p)]
        if missing:
            print(f"ERROR {prop}: the search never reached: {', '.join(missing)}")
            rc = 2
    wall = env.REAL_MONOTONIC() - t0
    evidence(mod, tier, seed, results, wall, sweep_wall, reported, seen_known, workers)
    if not quiet:
        print(f"{prop} {tier}: {len(results)} runs, {sum(r['checks'] for r in results)} checks, "
              f"{len(set(r['digest'] for r in results))} distinct traces, {wall:.1f} s, rc={rc}")
    return rc


def fresh_replay(path):
    p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", path, "--quiet"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode == 1


def seed_int(seed):
    try:
        return int(seed)
    except ValueError:
        return 0


def evidence(mod, tier, seed, results, wall, sweep_wall, reported, seen_known, workers):
    fired, probes = collections.Counter(), collections.Counter()
    for r in results:
        fired.update(r["fired"])
        probes.update(r["probes"])
    real = sorted({x for r in results for x in r["real"]})
    stub = sorted({x for r in results for x in r["stub"]})
    distinct = len({r["digest"] for r in results if r["checks"]})
    samples = []
    for r in results[:3]:
        scn = scenario(mod, seed, r["i"])
        samples.append({"seed": scn["seed"], "ops": [o.get("op", str(o)) if isinstance(o, dict) else o
                                                     for o in scn.get("ops", [])][:12],
                        "checks": r["checks"], "events": r["events"]})
    sim = sum(r["sim_time"] for r in results)
    cov = {
        "evaluations": sum(r["checks"] for r in results),
        "distinct_nontrivial": distinct,
        "rule": mod.RULE,
        "samples": samples,
        "simulated_runs": len(results),
        "runs_per_hour": int(len(results) / max(sweep_wall, 0.01) * 3600),
        "seeds_per_hour": int(len(results) / max(sweep_wall, 0.01) * 3600),
        "simulated_seconds": int(sim),
        "simulated_requests": sum(r["requests"] for r in results),
        "faults_injected": dict(sorted(fired.items())),
        "reach_probes": dict(sorted(probes.items())),
        "interleavings_or_states": {"measure": "distinct run traces (ordered list of operations, their "
                                               "abstract outcomes and the faults met), by sha256",
                                    "count": distinct},
        "components_real": getattr(mod, "REAL", []) + real,
        "components_stub": getattr(mod, "STUB", []) + stub,
        "workers": workers,
        "known_findings_seen": sorted(seen_known),
    }
    ev = {"property": mod.PROP, "tier": tier, "seed": seed_int(seed), "level": "exploration",
          "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
          "violations": len(reported)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with env.REAL_OPEN(os.path.join(VERIF, "evidence", f"{mod.PROP}.json"), "w") as fp:
        json.dump(ev, fp, indent=1)


def selftest(seed):
    """One seed is one execution: every module's first scenarios give the same trace twice, and in a fresh process."""
    bad = 0
    names = sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "props"))
                   if f.startswith("c") and f.endswith(".py"))
    for p in names:
        mod = load(p)
        prepare(mod)
        warm = getattr(mod, "warm", None)
        if warm:
            warm()
        a = [run_forked(mod, scenario(mod, seed, i)) for i in range(4)]
        b = [run_forked(mod, scenario(mod, seed, i)) for i in (3, 2, 1, 0)][::-1]
        for x, y in zip(a, b):
            if x["error"] or y["error"]:
                print(f"{p}: {x['error'] or y['error']}")
                bad += 1
            elif x["digest"] != y["digest"]:
                print(f"{p}: two runs of one seed differ")
                bad += 1
        print(f"{p}: {len(a)} seeds, repeated exactly: {all(x['digest'] == y['digest'] for x, y in zip(a, b))}")
    return 1 if bad else 0
