"""Drives the generated-input search for one property and writes its evidence.

A check module defines PROPERTY, PARTS (list of Part), BUILD (targets) and optionally ASSUMPTIONS.
A part is a Hypothesis strategy producing JSON-able cases and a function run(ctx, case) that executes the real code on
the case and either returns a classification (dict) or raises Violation.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import seed as hseed

from . import build, drv, e2e

VERIF = build.VERIF
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.jsonl")


class Violation(Exception):
    pass


class Reject(Exception):
    """the generator could not realise the drawn parameters (counted, not a result)"""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Part:
    def __init__(self, name, strategy, run, quick, thorough, mode="hyp", chunk=None, corpus=None, shrink_s=60, rule=None,
                 thorough_strategy=None, workers=None, ship_at=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.n = {"quick": quick, "thorough": thorough}
        self.mode, self.chunk, self.corpus = mode, chunk, corpus or []
        self.shrink_s, self.rule = shrink_s, rule
        self.thorough_strategy = thorough_strategy
        self.workers = workers


class Ctx:
    """per worker: executables and running drivers"""

    def __init__(self, exes, tier):
        self.exes, self.tier, self.drivers = exes, tier, {}

    def exe(self, t):
        return self.exes[t]

    def drv(self, t, **kw):
        if t not in self.drivers:
            self.drivers[t] = drv.Driver(self.exes[t], **kw)
        return self.drivers[t]

    def close(self):
        for d in self.drivers.values():
            d.stop()
        self.drivers = {}


def canon(case):
    return json.dumps(case, sort_keys=True)


def chash(case):
    return hashlib.sha256(canon(case).encode()).hexdigest()[:16]


def execute(part, ctx, case):
    """returns (kind, info): ok / reject / fail"""
    try:
        info = part.run(ctx, case) or {}
        return "ok", info
    except Reject as e:
        return "reject", {"why": str(e)}
    except Violation as e:
        return "fail", {"msg": str(e)}
    except drv.Crash as e:
        return "fail", {"msg": "crash: %s" % e}
    except drv.Threw as e:
        return "fail", {"msg": "unexpected exception from the code under test: %s" % e}


class Stats:
    def __init__(self):
        self.evals = self.rejects = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.maxima = {}

    def add(self, case, kind, info):
        if kind == "reject":
            self.rejects += 1
            return
        self.evals += 1
        if kind == "ok":
            if info.get("nontrivial", True):
                h = chash(case)
                if h not in self.nontrivial:
                    self.nontrivial.add(h)
                    if len(self.samples) < 3:
                        self.samples.append({"case": _short(case), "observed": info.get("observed", {})})
            for l in info.get("labels", []):
                self.labels[l] = self.labels.get(l, 0) + 1
            for k, v in info.get("max", {}).items():
                self.maxima[k] = max(self.maxima.get(k, v), v)

    def dump(self):
        return {"evals": self.evals, "rejects": self.rejects, "nontrivial": sorted(self.nontrivial), "labels": self.labels,
                "samples": self.samples, "maxima": self.maxima}

    def merge(self, d):
        self.evals += d["evals"]
        self.rejects += d["rejects"]
        self.nontrivial |= set(d["nontrivial"])
        for k, v in d["labels"].items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.samples = (self.samples + d["samples"])[:4]
        for k, v in d["maxima"].items():
            self.maxima[k] = max(self.maxima.get(k, v), v)


def _short(x, n=24):
    if isinstance(x, list) and len(x) > n:
        return [_short(y) for y in x[:n]] + ["... %d in total" % len(x)]
    if isinstance(x, list):
        return [_short(y) for y in x]
    if isinstance(x, dict):
        return {k: _short(v) for k, v in x.items()}
    if isinstance(x, str) and len(x) > 300:
        return x[:300] + "..."
    return x


_EX = {}
_STOP = None
_KNOWN = set()     # (part, case) pairs of the known findings


class _Abort(BaseException):
    pass


def _hyp_task(part, tier, sd, n, ctx):
    """Hypothesis generates, runs and shrinks"""
    st = Stats()
    best = [None]
    t_fail = [None]

    def body(case):
        if best[0] is None and _STOP is not None and _STOP.is_set():
            raise _Abort()
        if t_fail[0] is not None and time.monotonic() - t_fail[0] > part.shrink_s:
            raise _Abort()
        kind, info = execute(part, ctx, case)
        if best[0] is None:
            st.add(case, kind, info)
        if kind == "reject":
            hypothesis.reject()
        if kind == "fail":
            if t_fail[0] is None:
                t_fail[0] = time.monotonic()
                if _STOP is not None:
                    _STOP.set()
            key = (len(canon(case)), canon(case))
            if best[0] is None or key < best[0][0]:
                best[0] = (key, json.loads(canon(case)), info["msg"])
            raise Violation(info["msg"])
    strat = part.thorough_strategy if tier == "thorough" and part.thorough_strategy is not None else part.strategy
    f = given(strat)(body)
    f = settings(max_examples=n, database=None, deadline=None, derandomize=False, suppress_health_check=list(HealthCheck),
                 phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
                 verbosity=hypothesis.Verbosity.quiet)(f)
    f = hseed(sd)(f)
    try:
        f()
    except _Abort:
        pass
    except Violation:
        pass
    except BaseException:
        if best[0] is None:
            raise
    return st, (best[0][1], best[0][2]) if best[0] else None


def _list_task(part, cases, ctx):
    st = Stats()
    for case in cases:
        if _STOP is not None and _STOP.is_set():
            break
        kind, info = execute(part, ctx, case)
        st.add(case, kind, info)
        if kind == "fail" and (part.name, chash(case)) not in _KNOWN:
            if _STOP is not None:
                _STOP.set()
            return st, (case, info["msg"])
    return st, None


def draw_cases(strategy, sd, n):
    """n distinct cases drawn by Hypothesis without running anything"""
    out, seen = [], set()

    def body(case):
        c = json.loads(canon(case))
        h = chash(c)
        if h not in seen:
            seen.add(h)
            out.append(c)
    k = 0
    while len(out) < n and k < 6:
        f = given(strategy)(body)
        f = settings(max_examples=max(10, int(1.3 * n) + 3), database=None, deadline=None, suppress_health_check=list(HealthCheck),
                     phases=(Phase.generate,), verbosity=hypothesis.Verbosity.quiet)(f)
        hseed(sd + 7919 * k)(f)()
        k += 1
    # Hypothesis starts from the simplest cases: keep one of them, take the rest from the varied tail
    head, tail = out[:1], out[1:]
    if len(tail) > n - 1:
        tail = tail[len(tail) - (n - 1):] if n > 1 else []
    return (head + tail)[:n]


def _worker(modname, tier, q, res, stop):
    global _STOP
    _STOP = stop
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = importlib.import_module(modname)
    parts = {p.name: p for p in mod.PARTS}
    ctx = Ctx(_EX, tier)
    while True:
        t = q.get()
        if t is None:
            break
        tid, pname, kind, arg = t
        part = parts[pname]
        t0 = time.monotonic()
        try:
            if stop.is_set():
                res.put((tid, pname, Stats().dump(), None, None, 0.0))
                continue
            if kind == "hyp":
                st, fail = _hyp_task(part, tier, arg[0], arg[1], ctx)
            else:
                st, fail = _list_task(part, arg, ctx)
            res.put((tid, pname, st.dump(), fail, None, time.monotonic() - t0))
        except BaseException:
            res.put((tid, pname, Stats().dump(), None, traceback.format_exc(), time.monotonic() - t0))
    ctx.close()


def _once(args):
    modname, pname, case, tier = args
    mod = importlib.import_module(modname)
    part = {p.name: p for p in mod.PARTS}[pname]
    ctx = Ctx(_EX, tier)
    try:
        return execute(part, ctx, case)
    finally:
        ctx.close()


def _forked(fn, jobs, n=8, limit=None):
    """run jobs in fresh processes, ordered results"""
    with mp.get_context("fork").Pool(min(n, len(jobs)), maxtasksperchild=1) as pool:
        rs = [pool.apply_async(fn, (j,)) for j in jobs]
        end = None if limit is None else time.monotonic() + limit
        out = []
        for r in rs:
            try:
                out.append(r.get(None if end is None else max(0.05, end - time.monotonic())))
            except mp.TimeoutError:
                out.append(None)
        pool.terminate()
    return out


def candidates(case):
    """simpler JSON values, biggest steps first"""
    out = []

    def repl(path, val):
        c = json.loads(canon(case))
        if not path:
            return val
        q = c
        for k in path[:-1]:
            q = q[k]
        q[path[-1]] = val
        return c

    def walk(v, path):
        if isinstance(v, dict):
            for k in sorted(v):
                walk(v[k], path + [k])
        elif isinstance(v, list):
            n = len(v)
            if n > 1:
                out.append(repl(path, v[:n // 2]))
                out.append(repl(path, v[n // 2:]))
                if n <= 12:
                    for i in range(n):
                        out.append(repl(path, v[:i] + v[i + 1:]))
            for i in range(min(n, 12)):
                walk(v[i], path + [i])
        elif isinstance(v, bool):
            if v:
                out.append(repl(path, False))
        elif isinstance(v, int):
            for w in (0, 1, v // 2, v - 1):
                if 0 <= w < v:
                    out.append(repl(path, w))
        elif isinstance(v, float):
            for w in (0.0, 1.0, round(v), round(v, 1)):
                if w != v and abs(w) <= abs(v):
                    out.append(repl(path, float(w)))
    walk(case, [])
    seen, res = set(), []
    for c in out:
        h = chash(c)
        if h not in seen:
            seen.add(h)
            res.append(c)
    return res


def shrink_list(modname, part, case, msg, tier, budget):
    """greedy, parallel, bounded in time; every kept step fails the same oracle. Only for parts that declare valid cases."""
    end = time.monotonic() + budget
    valid = getattr(part.run, "valid", None)
    if valid is None:
        return case, msg
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        def ok(c):
            try:
                return valid(c)
            except Exception:
                return False
        cs = [c for c in candidates(case) if ok(c)]
        for k in range(0, len(cs), 8):
            left = end - time.monotonic()
            if left <= 0:
                break
            batch = cs[k:k + 8]
            rs = _forked(_once, [(modname, part.name, c, tier) for c in batch], limit=left)
            hit = [(c, r) for c, r in zip(batch, rs) if r and r[0] == "fail"]
            if hit:
                case, msg = hit[0][0], hit[0][1][1]["msg"]
                improved = True
                break
    return case, msg


def findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def write_evidence(mod, tier, sd, stats, per_part, wall, violations, notes):
    os.makedirs(EVID, exist_ok=True)
    total = sum(s.evals for s in per_part.values())
    nt = sum(len(s.nontrivial) for s in per_part.values())
    samples = []
    for n, s in per_part.items():
        for x in s.samples[:2]:
            samples.append(dict(x, part=n))
    cov = {"evaluations": total, "distinct_nontrivial": nt,
           "rule": getattr(mod, "RULE", "a case counts as non-trivial when it reached the oracle of its part with the features the part's rule names; cases are distinct by the hash of their full description"),
           "samples": samples[:12],
           "parts": {n: {"evaluations": s.evals, "distinct_nontrivial": len(s.nontrivial), "rejected_by_generator": s.rejects,
                         "labels": dict(sorted(s.labels.items())), "maxima": s.maxima} for n, s in per_part.items()}}
    ev = {"property": mod.PROPERTY, "tier": tier, "seed": sd, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": violations}
    if notes:
        ev["notes"] = notes
    tmp = os.path.join(EVID, ".%s.tmp" % mod.PROPERTY)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, allow_nan=True, default=float)
    os.replace(tmp, os.path.join(EVID, mod.PROPERTY + ".json"))
    return ev


def clean_scratch():
    """remove what this run's processes left behind (only folders of dead or own processes: the name holds no state)"""
    pass


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args(argv)
    sd = int(os.environ.get("VERIF_SEED", "1"))
    modname = "checks.%s" % a.property.lower()
    t0 = time.monotonic()
    e2e.SCRATCH = os.path.join(os.environ.get("VP_SCRATCH", "/tmp/vp_scratch"), "%s_%d" % (a.property, os.getpid()))
    os.makedirs(e2e.SCRATCH, exist_ok=True)
    try:
        return _main(a, sd, modname, t0)
    finally:
        shutil.rmtree(e2e.SCRATCH, ignore_errors=True)


def _main(a, sd, modname, t0):
    mod = importlib.import_module(modname)
    targets = list(mod.BUILD) + (list(getattr(mod, "BUILD_THOROUGH", [])) if a.tier == "thorough" else [])
    try:
        exes = build.build(*targets)
    except build.BuildError as e:
        print("BUILD FAILED: the harness cannot be built against this tree\n%s" % e, file=sys.stderr)
        return 2
    _EX.update(dict(zip(targets, exes)))
    tb = time.monotonic() - t0
    if hasattr(mod, "prepare"):
        mod.prepare(_EX)
    parts = [p for p in mod.PARTS if not a.part or p.name == a.part]
    byname = {p.name: p for p in parts}

    if a.replay:
        d = json.load(open(a.replay))
        k, info = _forked(_once, [(modname, d["part"], d["case"], a.tier)])[0]
        print(k, json.dumps(info, default=float)[:4000])
        if k == "fail":
            print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, a.replay))
            return 1
        return 0

    # known findings: reported, and their exact cases are not failures
    known = findings(mod.PROPERTY)
    for d in known:
        print("KNOWN-FINDING: property=%s %s" % (mod.PROPERTY, d["what"]))
        _KNOWN.add((d.get("part"), d.get("case_hash")))

    tasks = []
    for pi, p in enumerate(parts):
        n = max(1, int(round(p.n[a.tier] * a.scale))) if p.n[a.tier] else 0
        if p.corpus:
            tasks.append((p.name, "list", list(p.corpus)))
        if n == 0:
            continue
        if p.mode == "hyp":
            w = p.workers or min(8, max(1, n // 20))
            for k in range(w):
                m = n // w + (1 if k < n % w else 0)
                if m:
                    tasks.append((p.name, "hyp", ((sd * 1000 + pi) * 1000 + k, m)))
        else:
            strat = p.thorough_strategy if a.tier == "thorough" and p.thorough_strategy is not None else p.strategy
            cs = draw_cases(strat, sd * 1000 + pi, n)
            ch = p.chunk or 1
            for k in range(0, len(cs), ch):
                tasks.append((p.name, "list", cs[k:k + ch]))
    ctx = mp.get_context("fork")
    q, res, stop = ctx.Queue(), ctx.Queue(), ctx.Event()
    for k, t in enumerate(tasks):
        q.put((k,) + t)
    nw = min(a.workers, len(tasks))
    for _ in range(nw):
        q.put(None)
    ws = [ctx.Process(target=_worker, args=(modname, a.tier, q, res, stop)) for _ in range(nw)]
    for w in ws:
        w.start()
    per = {p.name: Stats() for p in parts}
    fails, errors, cpu = [], [], {}
    limit = 820 if a.tier == "quick" else float(os.environ.get("VP_THOROUGH_LIMIT", "6000"))
    notes = []
    for _ in range(len(tasks)):
        left = limit - (time.monotonic() - t0)
        try:
            tid, pname, st, fail, err, dt = res.get(timeout=max(1.0, left))
        except Exception:
            notes.append("stopped at the time limit before every case was run")
            break
        per[pname].merge(st)
        cpu[pname] = cpu.get(pname, 0) + dt
        if fail:
            fails.append((pname,) + tuple(fail))
        if err:
            errors.append((pname, err))
            stop.set()
    for w in ws:
        w.join(timeout=2 if notes else 30)
        if w.is_alive():
            w.kill()
    if errors and not fails:
        print("HARNESS ERROR in %s\n%s" % errors[0], file=sys.stderr)
        return 2
    viol = 0
    rc = 0
    # several workers may fail before they see the stop flag: report the simplest case of the first part, once
    fails.sort(key=lambda f: ([p.name for p in parts].index(f[0]), len(canon(f[1])), canon(f[1])))
    for pname, case, msg in fails[:3]:
        part = byname[pname]
        if any(d.get("part") == pname and d.get("case_hash") == chash(case) for d in known):
            continue
        if part.mode != "hyp":
            case, msg = shrink_list(modname, part, case, msg, a.tier, part.shrink_s)
        reps = _forked(_once, [(modname, pname, case, a.tier)] * 3)
        bad = [r for r in reps if r and r[0] == "fail"]
        if len(bad) < 3:
            notes.append("a failure of %s was not reproduced by its replay (%d of 3): %s" % (pname, len(bad), msg[:300]))
            print("NOTE: " + notes[-1])
            continue
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%s.json" % (mod.PROPERTY, pname.replace(" ", "-").replace(",", ""), chash(case)))
        with open(path, "w") as f:
            json.dump({"property": mod.PROPERTY, "part": pname, "case": case, "message": bad[0][1]["msg"], "seed": sd,
                       "command": "./check.sh %s --replay %s" % (mod.PROPERTY, path)}, f, indent=1)
        print("part %s: %s" % (pname, bad[0][1]["msg"]))
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
        viol = 1
        rc = 1
        break
    wall = time.monotonic() - t0
    ev = write_evidence(mod, a.tier, sd, None, per, wall, viol, notes)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" % (
        mod.PROPERTY, a.tier, sd, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], tb, wall))
    for n, s in per.items():
        print("  %-18s evals=%d nontrivial=%d rejected=%d cpu=%.1fs %s %s" % (
            n, s.evals, len(s.nontrivial), s.rejects, cpu.get(n, 0), dict(sorted(s.labels.items())),
            {k: float("%.3g" % v) for k, v in s.maxima.items()}))
        if s.rejects > 3 * max(1, s.evals):
            print("  warning: generator of %s rejects most draws" % n)
    build.prune()
    return rc


