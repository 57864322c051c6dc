"""Driver shared by all checks: enumerate a finite space completely, execute the
real code on every element, compare, write evidence, report violations."""
from __future__ import annotations

import argparse
import ctypes
import importlib
import json
import math
import multiprocessing as mp
import os
import pickle
import select
import signal
import sys
import time
import traceback
import warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
sys.dont_write_bytecode = True

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))

EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.json")
# Seconds after which a quick run stops and reports what it covered: far above what any check
# needs, so that a much slower machine still gets an answer. Once something is wrong, stop sooner.
BUDGET, BUDGET_BAD, STUCK = 660.0, 240.0, 180.0


class Violation(Exception):
    """The property does not hold for the case under evaluation."""


class Known(Exception):
    """A violation that carries the key of a possibly listed finding."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


class Result:
    """What one case covered."""

    __slots__ = ("evals", "keys", "states", "transitions", "traces", "known")

    def __init__(self):
        self.evals = 0
        self.keys = set()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.known = []

    def see(self, *vals):
        """Record one observed outcome (rounded, hashed)."""
        self.evals += 1
        k = sig(vals)
        if k is not None:
            self.keys.add(k)


def sig(vals):
    """Hash of an observed outcome; None when trivial (all zero / empty)."""
    import numpy as np

    out, nz = [], False
    stack = list(vals)[::-1]
    while stack:
        v = stack.pop()
        if isinstance(v, (list, tuple)):
            stack.extend(list(v)[::-1])
            continue
        if hasattr(v, "detach"):
            v = v.detach().cpu().numpy()
        if isinstance(v, (str, bytes, bool, type(None))):
            out.append(str(v))
            nz = nz or bool(v)
            continue
        a = np.asarray(v, dtype=float).ravel()
        if a.size and np.any(a != 0):
            nz = True
        out.append(tuple(float("%.8g" % x) for x in a[:64]))
    if not nz:
        return None
    return hash(tuple(out))


def close(a, b, rtol=1e-9, atol=0.0, scale=None):
    """max |a-b| within rtol*|b| + tiny*scale + atol. Returns (ok, err)."""
    import numpy as np

    a = np.asarray(a.detach().cpu().numpy() if hasattr(a, "detach") else a, dtype=float)
    b = np.asarray(b.detach().cpu().numpy() if hasattr(b, "detach") else b, dtype=float)
    if a.shape != b.shape:
        return False, f"shape {a.shape} != {b.shape}"
    if a.size == 0:
        return True, 0.0
    if not np.all(np.isfinite(a)):
        return False, "non-finite value"
    s = np.abs(b).max() if scale is None else scale
    tol = rtol * np.abs(b) + 0.01 * rtol * s + atol
    d = np.abs(a - b)
    i = int(np.argmax(d - tol))
    if np.any(d > tol):
        return False, f"got {a.ravel()[i]!r} want {b.ravel()[i]!r} (|diff| {d.ravel()[i]:.3e})"
    return True, float(d.max())


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def need_close(a, b, what, rtol=1e-9, atol=0.0, scale=None):
    ok, err = close(a, b, rtol, atol, scale)
    if not ok:
        raise Violation(f"{what}: {err}")


# ----------------------------------------------------------------------------
_MOD = None


def _init(modname):
    global _MOD
    import torch

    torch.set_num_threads(1)
    warnings.simplefilter("ignore")
    _MOD = importlib.import_module(modname)


def _one(args):
    idx, case = args
    res = Result()
    try:
        _MOD.evaluate(case, res)
        bad = None
    except Known as e:
        bad = ("known", e.key, e.msg)
    except Violation as e:
        bad = ("violation", None, str(e))
    except Exception as e:  # the code under test failed where it has to work
        bad = ("violation", None, "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6)))
    return (idx, bad, res.evals, res.keys, res.states, res.transitions, res.traces, res.known)


def _many(part):
    return [_one(a) for a in part]


def load_known(prop):
    if not os.path.exists(KNOWN):
        return {}
    data = json.load(open(KNOWN))
    return {f["key"]: f for f in data.get("known", []) if f["property"] == prop}


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if hasattr(x, "tolist"):
        return x.tolist()
    if isinstance(x, float) and not math.isfinite(x):
        return str(x)
    return x if isinstance(x, (str, int, float, bool, type(None))) else repr(x)


HANG = "the calculation hangs"
LIMIT = 150.0  # seconds for one forked process


def fork_call(fn, limit=None):
    """fn() in a forked process -> its pickled result as bytes, b"" when the process died, None when it exceeds the time limit.
    The process ends with its parent."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            try:
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
            except Exception:
                pass
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    end, data = time.time() + (LIMIT if limit is None else limit), []
    try:
        while True:
            if not select.select([r], [], [], max(0.0, end - time.time()))[0]:
                os.kill(pid, signal.SIGKILL)
                return None
            b = os.read(r, 1 << 20)
            if not b:
                return b"".join(data)
            data.append(b)
    finally:
        os.close(r)
        os.waitpid(pid, 0)


def run(mod, tier, seed, procs=None):
    global LIMIT

    t0 = time.time()
    if tier == "thorough":
        LIMIT = 3600.0
    prop = mod.PROPERTY
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    rp = os.path.join(EVID, "replay", f"{prop}.json")
    if os.path.exists(rp):
        os.remove(rp)
    viol, found = [], {}
    try:
        cases = list(mod.space(tier))
    except Violation as e:  # the executions the space is built from already break the property
        cases, viol = ["preparation"], [(0, str(e))]
    order = list(range(len(cases))) if not viol else []
    known = load_known(prop)
    procs = procs or min(8, os.cpu_count() or 1)
    ev = trans = states = traces = done = 0
    keys = set()
    pending = set(order)
    chunk = max(1, min(getattr(mod, "CHUNK", 64), len(cases) // (procs * 6) or 1))
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, initializer=_init, initargs=(mod.__name__,)) as pool:
        parts = [[(i, cases[i]) for i in order[p:p + chunk]] for p in range(0, len(order), chunk)]
        it, ready = pool.imap_unordered(_many, parts), []
        while True:
            try:
                if tier == "quick" and not ready:
                    if time.time() - t0 > (BUDGET_BAD if viol else BUDGET):
                        raise StopIteration
                    ready = it.next(timeout=STUCK)
                elif not ready:
                    ready = it.next()
            except mp.TimeoutError:
                viol.append((min(pending), f"no result within {STUCK:.0f} s: the code hangs or its process died"))
                pool.terminate()
                break
            except StopIteration:
                if done < len(cases):
                    pool.terminate()
                break
            idx, bad, e, k, s, tr, tv, kn = ready.pop()
            pending.discard(idx)
            done += 1
            ev += e
            keys |= k
            states += s
            trans += tr
            traces += tv
            for key, msg in kn:
                if key in known:
                    found.setdefault(key, msg)
                else:
                    viol.append((idx, msg))
            if bad:
                kind, key, msg = bad
                if kind == "known" and key in known:
                    found.setdefault(key, msg)
                else:
                    viol.append((idx, msg))
                    if len(viol) >= 20:
                        pool.terminate()
                        break
    wall = time.time() - t0
    viol.sort()
    cov = {}
    level = mod.LEVEL
    first = [jsonable(cases[i]) for i in sorted({0, len(cases) // 3, len(cases) // 2, len(cases) - 1})] if cases else []
    if level == "model_checking":
        cov = dict(states=states, transitions=trans, traces_validated_against_impl=traces,
                   executions=ev, distinct_outcomes=len(keys), samples=first)
    else:
        cov = dict(evaluations=ev, distinct_nontrivial=len(keys), rule=mod.RULE, samples=first)
    cov["cases"] = done
    cov["space_size"] = len(cases)
    cov["exhaustive"] = bool(done == len(cases))
    cov["bounds"] = mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
    extra = getattr(mod, "extra_coverage", None)
    if extra:
        cov.update(extra(cases))
    doc = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
               assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(viol))
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(doc, f, indent=1)
    for key, msg in sorted(found.items()):
        print(f"KNOWN-FINDING: property={prop} {known[key]['what']} [{key}]")
    print(f"{prop} {tier}: cases={done}/{len(cases)} executions={ev} distinct={len(keys)} "
          f"states={states} transitions={trans} wall={wall:.1f}s violations={len(viol)}")
    if viol:
        with open(rp, "w") as f:
            json.dump(dict(property=prop, check=mod.__name__, tier=tier,
                           violations=[dict(index=i, case=jsonable(cases[i]), message=m) for i, m in viol[:20]]), f, indent=1)
        for i, m in viol[:3]:
            print(f"  case {i}: {json.dumps(jsonable(cases[i]))[:600]}\n    {m[:1200]}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(rp, ROOT)}")
        return 1
    if done != len(cases):
        print(f"stopped by the time budget after {done} of {len(cases)} cases; the property held on all of them")
    return 0


def replay(path):
    doc = json.load(open(path))
    mod = importlib.import_module(doc["check"])
    _init(doc["check"])
    try:
        cases = list(mod.space(doc["tier"]))
    except Violation as e:
        print("preparation ->", e)
        return 1
    rc = 0
    for v in doc["violations"]:
        r = _one((v["index"], cases[v["index"]]))
        print(v["index"], json.dumps(jsonable(cases[v["index"]]))[:800])
        print("   ->", r[1])
        rc |= r[1] is not None
    return int(rc)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--procs", type=int, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    import torch

    torch.set_num_threads(1)
    if a.property.upper() == "C16":
        from . import locks

        locks.install(os.path.realpath(os.path.join(REPO, "src", "tad_dftd4")) + os.sep)
    import tad_dftd4

    src = os.path.realpath(tad_dftd4.__file__)
    if not src.startswith(os.path.realpath(os.path.join(REPO, "src")) + os.sep):
        print(f"wrong tree under test: {src}")
        return 2
    if a.replay:
        return replay(a.replay)
    mod = importlib.import_module(f"mc.checks.{a.property.lower()}")
    return run(mod, a.tier, int(os.environ.get("VERIF_SEED", "1")), a.procs)
