"""C26: a calculation that fails at any point leaves everything usable.

Fault injection with all crash points: every operation is run once for each of
its calls into torch, with that call failing (out of memory, or an interrupt by
the user). Cold runs start in a process in which nothing was called before, warm
ones reuse objects. Afterwards the same objects and others are used again and have
to give the results of a fresh process."""
from __future__ import annotations

import gc
import os
import sys
import warnings


import torch
from torch.overrides import TorchFunctionMode

from .. import harness
from ..harness import Violation, need
from . import c07, c25

PROPERTY = "C26"
LEVEL = "model_checking"
RULE = ""
CHUNK = 1
OPS = [
    "e_h2o", "e_h2o_f32", "e_nacl_d4s", "e_batch", "e_batch_d4s", "e_grad", "e_inference_h2o", "e_nograd_d4", "props_f32", "params_energy",
    "disp_shared", "disp_shared_other", "disp_shared_batch", "exact_shared", "model_shared", "model_shared_energy", "model_convert", "model_d4s_derivs",
    "model_gfn2", "zero_damp", "damp_direct",
]
AFTER = ["e_nacl_d4s", "e_h2o_f32", "disp_shared", "model_shared", "zero_damp", "e_h2o", "exact_shared", "params_d4", "damp_direct", "e_batch"]
LEAK = ["energy_d4", "gradient_d4s", "shared_calculator_undiff", "shared_exact", "shared_damping", "shared_model", "properties", "calculator_dropped"]
BOUNDS = {
    "quick": "21 operations x every line of the package that calls torch, each time it runs, as crash point (before or after the call takes effect, out of memory and user interrupt alternating) x cold and warm process; after each crash the operation is repeated and "
    "5 others run; 8 operations x every crash point: nothing of the failed call stays alive",
    "thorough": "as quick with both failures before and after the call at every crash point and 10 other operations afterwards, and all pairs of crash points (k, then each of 12 others) of 8 operations",
}
ASSUMPTIONS = ["failures happen at calls into torch (including tensor attribute access), not between two Python instructions"]
_N: dict = {}
FULL = False
PKG = os.path.join(harness.REPO, "src", "tad_dftd4") + os.sep


class Failed(torch.OutOfMemoryError if hasattr(torch, "OutOfMemoryError") else RuntimeError):
    pass


KIND = dict(memory=Failed, interrupt=KeyboardInterrupt)


class Faults(TorchFunctionMode):
    """Lets the k-th call into torch fail; late: after it was made."""

    def __init__(self, k=None, exc=Failed, late=False):
        super().__init__()
        self.k, self.exc, self.late, self.n, self.hit, self.here = k, exc, late, 0, False, None

    def __torch_function__(self, func, types, args=(), kwargs=None):
        # calls made by one and the same line of the package (through its dependencies) are one point
        f = sys._getframe(1)
        while f is not None and not f.f_code.co_filename.startswith(PKG):
            f = f.f_back
        here = (id(f), f.f_lineno) if f is not None else None
        if here is None or here == self.here:
            return func(*args, **(kwargs or {}))
        self.here = here
        i, self.n = self.n, self.n + 1
        if i == self.k:
            self.hit = True
            if self.late:
                func(*args, **(kwargs or {}))
            raise self.exc(f"injected failure in call {i}")
        return func(*args, **(kwargs or {}))


def count(n):
    from ..histops import OPS as H, World

    w = World()
    with Faults() as f:
        H[n](w)
    return f.n


def count_leak(n):
    c25.names()
    w = c25.World()
    with Faults() as f:
        c25.OPS[n](w)
    return f.n


def space(tier):
    import tad_dftd4.data.wfpair  # noqa: F401  imports only, no calls
    import tad_dftd4.reference.d4.charge_gfn2  # noqa: F401

    global FULL
    FULL = tier == "thorough"
    c07._BASE = c07.baselines()
    c25.names()
    out = []
    for n in OPS:
        try:
            _N[n] = c07.child(lambda: (count(n), 0, 0))[0]
        except Exception:
            _N[n] = 0
        N = _N[n] if isinstance(_N[n], int) else 0
        out.append(("baseline", n, N))
        for warm in (0, 1):
            for lo in range(0, N, 40):
                out.append(("crash", n, warm, lo, min(lo + 40, N), tier == "thorough"))
    for n in LEAK:
        N = c07.child(lambda: (count_leak(n), 0, 0))[0]
        N = N if isinstance(N, int) else 0
        out.append(("baseline", None, N))
        for lo in range(0, N, 40):
            out.append(("leak", n, lo, min(lo + 40, N)))
    if tier == "thorough":
        for n in ("e_h2o", "e_nacl_d4s", "e_batch", "disp_shared", "exact_shared", "model_shared", "zero_damp", "model_shared_energy"):
            N = _N[n] if isinstance(_N[n], int) else 0
            for lo in range(0, N, 8):
                out.append(("pairs", n, lo, min(lo + 8, N)))
    return out


def attempt(w, n, k, kind, late):
    """Run operation n with the k-th torch call failing -> message or None."""
    from ..histops import OPS as H, compare, normalise

    g = c07.gstate()
    f = Faults(k, KIND[kind], late)
    try:
        with f:
            r = H[n](w)
    except BaseException:
        pass  # whatever reaches the caller
    else:
        msg = compare(normalise(r), c07._BASE[n])
        if msg and f.hit:
            return f"{n}: failure ({kind}) in torch call {k} is swallowed and the result is wrong: {msg}"
        if msg:
            return f"{n}: {msg}"
    if c07.gstate() != g:
        return f"{n} failing ({kind}, call {k}) changed global torch state {g} -> {c07.gstate()}"
    return None


def after(w, n, first):
    hist = [f"{n} ({first})"]
    for m in [n, *[a for a in (AFTER if FULL else AFTER[:5]) if a != n]]:
        msg = c07.step(w, m, hist)
        if msg:
            return msg
        hist.append(m)
    return None


def crash(n, warm, points):
    from ..histops import OPS as H, World

    warnings.simplefilter("ignore")
    w = World()
    if warm:
        H[n](w)
    for k, kind, late in points:
        msg = attempt(w, n, k, kind, late)
        if msg:
            return [msg], 1, 1
    msg = after(w, n, "failed in torch call " + ", ".join(f"{k} {'after' if late else 'before'} it by {kind}" for k, kind, late in points))
    return ([msg] if msg else []), (11 if FULL else 6) + len(points), 1


def leak(n, k, kind, late):
    warnings.simplefilter("ignore")
    gc.collect()
    gc.freeze()
    w = c25.World()
    f = Faults(k, KIND[kind], late)
    try:
        with f:
            r = c25.OPS[n](w)
        del r
    except BaseException:
        pass
    msg = c25.settle(w)
    if msg:
        return [f"{n} failed ({kind}) in torch call {k}: still alive: {msg}"], 1, 1
    return [], 2, 1


def evaluate(case, res):
    kind = case[0]
    if kind == "baseline":
        need(case[2] > 0, f"{case[1]}: fails when its torch calls are observed")
        if case[1]:
            need(not (isinstance(c07._BASE[case[1]], tuple) and c07._BASE[case[1]][0] == "failed"), f"{case[1]} fails in a fresh process: {c07._BASE[case[1]]}")
        res.states += 1
        res.see(str(case))
        return
    if kind == "crash":
        _, n, warm, lo, hi, full = case
        for k in range(lo, hi):
            todo = [(a, b) for a in KIND for b in (False, True)] if full else [("memory", False), ("interrupt", True)] if k % 2 else [("interrupt", False), ("memory", True)]
            for a, late in todo if full else todo[warm : warm + 1]:
                run(lambda: crash(n, warm, [(k, a, late)]), res, (n, warm, k, a, late))
    elif kind == "pairs":
        _, n, lo, hi = case
        N = _N[n]
        for k in range(lo, hi):
            for j in range(0, N, max(1, N // 12)):
                run(lambda: crash(n, 0, [(k, "memory", False), (j, "interrupt", True)]), res, (n, k, j))
    else:
        _, n, lo, hi = case
        for k in range(lo, hi):
            run(lambda: leak(n, k, "interrupt" if k % 2 else "memory", False), res, (n, k))


def run(fn, res, key):
    bad, tr, tv = c07.child(fn)
    if bad:
        raise Violation(bad[0])
    res.states += tr
    res.transitions += tr
    res.traces += tv
    res.see(str(key))
