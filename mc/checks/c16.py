"""C16: concurrent calculations do not interfere.

Stateless model checking of the real code with real threads under the controlled
scheduler of mc/sched.py. A schedule is a list of context switches at executed
source lines of the package; every schedule runs in its own process forked from
a pristine one (modules imported, nothing called), first cold and then again warm,
and every result is compared with that of the call alone."""
from __future__ import annotations

import itertools
import multiprocessing as mp
import os
import pickle
import warnings

from ..harness import Violation, fork_call

PROPERTY = "C16"
LEVEL = "model_checking"
RULE = ""
BOUNDS = {
    "quick": "2 threads, 39 operations; 22 core pairs: every source-line switch point of the first thread (with used objects; every 8th also on first use in a new process); all 39^2 ordered pairs: first-use switches at every write to shared state found by a "
    "monitored run (at most 40) and in the middle, all pairs of such writes for two switches; parameter and damping operations: bytecode granularity (150 points each) and two-switch schedules on a 14x14 grid of lines; "
    "operations without shared objects also as the very first calls of a process, with switches at the writes (at most 24) of a first call against itself and 4 others; "
    "3 threads on 4 triples of core operations on a 10x10 grid",
    "thorough": "all ordered pairs with every single switch point, core pairs with all two-switch schedules on a 1/19 grid, core pairs at bytecode granularity on a 1/7 grid",
}
ASSUMPTIONS = [
    "a context switch inside a C function of torch behaves like one before or after the line that calls it",
    "two threads and up to two preemptions (three threads with two) are representative",
]
CHUNK = 1
CORE = [
    ("e_h2o", "e_h2o_cation"), ("e_h2o_f32", "e_h2o"), ("e_h2o", "e_h2o_f32"), ("e_batch", "e_h2o"), ("e_nacl_d4s", "e_h2o"),
    ("disp_shared", "disp_shared_other"), ("disp_shared_other", "disp_shared"), ("disp_shared_batch", "disp_shared"),
    ("exact_shared", "exact_shared"), ("model_shared_energy", "model_shared"), ("zero_damp", "e_h2o"), ("e_h2o", "zero_damp"),
    ("model_d4s_derivs", "e_batch_d4s"), ("props", "props_f32"), ("params_energy", "params_d4"), ("converted_disp", "disp_shared_other"),
    ("e_nograd_d4", "e_nograd_nacl"), ("e_nograd_nacl", "e_nograd_d4"), ("e_nograd_h2o", "e_nograd_hcn_d4s"), ("e_inference", "e_inference_h2o"),
    ("e_func", "e_func_hcn"), ("e_grad", "e_h2o"),
]
SMALL = ["params_d4", "params_doi", "params_default", "damp_direct"]
TRIPLES = [("e_h2o", "e_h2o_f32", "e_nacl_d4s"), ("disp_shared", "disp_shared_other", "disp_shared_batch"), ("params_d4", "params_energy", "params_default"), ("model_shared", "model_shared_energy", "model_convert")]
SHARED = ("disp", "opts", "disp_opts", "exact", "model", "model_s", "zero", "rational")
EXCLUDE = {"e_defdouble", "disp_terms"}  # change global or shared state on purpose
CAP = 40
LAZY = ["e_h2o", "e_nacl_d4s", "e_batch", "props"]  # partners of the first calls of a process
LCAP = 24
_BASE, _N, _W, _L = {}, {}, {}, {}


def names():
    from ..histops import HISTONLY, OPS

    return [n for n in OPS if n not in EXCLUDE and n not in HISTONLY]


def world(lazy=False):
    """Shared objects of one schedule, constructed but not used (lazy: only the arguments, no objects of the package)."""
    import torch

    import tad_dftd4 as d4
    from tad_dftd4.damping import RationalDamping, ZeroDamping
    from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact

    from ..histops import D, SYS, World

    w = World()
    if lazy:
        for s in SYS:
            w.sys(s), w.sys(s, torch.float32)
        return w
    w.get("disp", lambda: DispD4(dtype=D))
    o = w.get("opts", lambda: dict(wf=torch.full((3, 3), 4.5, dtype=D), ga=2.5, gc=1.5))
    w.get("disp_opts", lambda: DispD4(model="d4s", model_kwargs=o, dtype=D))
    w.get("exact", lambda: DispD4Exact(model="d4s", dtype=D))
    w.get("model", lambda: d4.D4Model(w.sys("H2O")[0], dtype=D))
    w.get("model_s", lambda: d4.D4SModel(w.sys("NaCl2-")[0], dtype=D))
    w.get("zero", ZeroDamping)
    w.get("rational", RationalDamping)
    return w


def tstate():
    import torch

    return dict(dtype=str(torch.get_default_dtype()), rng=int(torch.random.get_rng_state().sum()), det=torch.are_deterministic_algorithms_enabled(),
                nt=torch.get_num_threads(), anomaly=torch.is_anomaly_enabled(), prec=torch.get_float32_matmul_precision(), cwd=os.getcwd(), env=hash(tuple(sorted(os.environ.items()))))


def child(fn):
    data = fork_call(fn, 600.0)
    return pickle.loads(data) if data else None


def base_one(n):
    """Result, number of switch points and shared-state write points of an operation alone."""
    from ..histops import OPS, normalise
    from ..sched import Sched, instrument, shared_state

    def plain():
        return normalise(OPS[n](world()))

    def count(opc):
        if opc:
            instrument(opcodes=True)
        w = world()
        s = Sched([lambda: OPS[n](w)], [(0, None)])
        s.run()
        return s.count[0]

    def writes(lazy=False):
        w = world(lazy)
        last, pts = [None], []

        def look():
            st = shared_state([o for o, _ in w.obj.values()])
            st.update(tstate())
            return st

        def probe(tid, k):
            st = look()
            if last[0] is not None and any(last[0].get(p, "-") != v for p, v in st.items() if p in last[0] or not p.startswith("shared")):
                pts.append(k)
            last[0] = st

        s = Sched([lambda: OPS[n](w)], [(0, None)], patience=120.0, limit=300.0, probe=probe)
        s.run()
        if lazy and any(k in w.obj for k in SHARED):
            return None
        return pts

    return n, child(plain), child(lambda: count(False)), (child(lambda: count(True)) if n in SMALL else 0), child(writes) or [], child(lambda: writes(True))


def thin(ks, cap):
    """At most cap of the points: the first of every run of neighbours, then evenly spaced ones."""
    if len(ks) <= cap:
        return ks
    first = [k for i, k in enumerate(ks) if i == 0 or k - ks[i - 1] > 3][: cap // 2]
    rest = [ks[int(i * (len(ks) - 1) / (cap - len(first) - 1))] for i in range(cap - len(first))]
    return sorted(set(first) | set(rest))


def grid(n, step):
    return list(range(1, n + 1, step))


def space(tier):
    global _BASE
    warnings.simplefilter("ignore")
    import torch

    from .. import histops  # noqa: F401
    from ..sched import instrument, load_all

    load_all()
    torch.func.grad(lambda t: t)(torch.tensor(1.0))
    instrument()
    N = names()
    with mp.get_context("fork").Pool(8) as pool:
        for n, b, c, o, wr, lz in pool.imap_unordered(base_one, N, chunksize=1):
            _BASE[n], _N[n] = b, (c or 1, o)
            _W[n] = thin(wr, CAP)
            if lz is not None:
                _L[n] = thin(lz, LCAP)
    out = [("alone", n) for n in N]
    core = CORE if tier == "quick" else list(itertools.product(N, N))

    def add(mode, gran, a, plans, size=24):
        for i in range(0, len(plans), size):
            out.append((mode, gran, a, plans[i:i + size]))

    def single(ks):
        return [[(0, k), (1, None), (0, None)] for k in ks]

    def double(ks, js):
        return [[(0, k), (1, j), (0, None), (1, None)] for k in ks for j in js]

    for a, b in core:
        add("warm", "line", (a, b), single(grid(_N[a][0], 1)), 64)
        if (a, b) in CORE:
            add("cold", "line", (a, b), single(grid(_N[a][0], 8 if tier == "quick" else 1)))
    for a, b in itertools.product(N, N):
        ka = sorted(set(_W[a]) | ({k - 1 for k in _W[a] if k > 1} if tier == "thorough" or (a, b) in CORE else set()) | {_N[a][0] // 2 + 1})
        add("cold", "line", (a, b), single(ka))
        add("cold", "line", (a, b), double(_W[a][:8], _W[b][:8]))
    for a in sorted(_L):
        for b in sorted({a, *LAZY} if tier == "quick" else set(_L)):
            add("lazy", "line", (a, b), single(_L[a]))
            add("lazy", "line", (a, b), double(_L[a][:3], _L.get(b, [])[:3]))
    for a, b in itertools.product(SMALL, SMALL):
        add("warm", "opcode", (a, b), single(grid(_N[a][1], 1 if tier == "thorough" else max(1, _N[a][1] // 150))), 80)
        na, nb = _N[a][0], _N[b][0]
        sa, sb = (1, 1) if tier == "thorough" else (max(3, na // 14), max(3, nb // 14))
        add("warm", "line", (a, b), double(grid(na, sa), grid(nb, sb)), 100)
    for t in TRIPLES:
        n0, n1 = _N[t[0]][0], _N[t[1]][0]
        s0, s1 = max(29, n0 // 10), max(29, n1 // 10)
        add("warm", "line", t, [[(0, k), (1, j), (2, None), (1, None), (0, None)] for k in grid(n0, s0) for j in grid(n1, s1)])
    if tier == "thorough":
        for a, b in CORE:
            add("warm", "line", (a, b), double(grid(_N[a][0], 19), grid(_N[b][0], 19)))
            add("warm", "opcode", (a, b), single(grid(_N[a][0] * 8, 7)))
    return out


def one_schedule(w, ops, plan, phase):
    """-> (message or None, switch points, context switches)"""
    from ..histops import OPS, compare, normalise
    from ..sched import Sched

    g = tstate()
    s = Sched([(lambda n=n: normalise(OPS[n](w))) for n in ops], plan, patience=0.1)
    ok = s.run()
    pts, sw = sum(s.count), s.switches
    tag = f"threads {ops}, schedule {plan}, {phase}"
    if not ok:
        return f"{tag}: deadlock", pts, sw
    for n, r, e in zip(ops, s.result, s.error):
        if e is not None:
            return f"{tag}: {n} raised {type(e).__name__}: {e}", pts, sw
        msg = compare(r, _BASE[n])
        if msg:
            return f"{tag}: {n} differs from the same call alone: {msg}", pts, sw
    msg = w.changed()
    if msg:
        return f"{tag}: {msg}", pts, sw
    if tstate() != g:
        return f"{tag}: global state changed {g} -> {tstate()}", pts, sw
    del w.kept[:]
    return None, pts, sw


def afterwards(w, ops, plan):
    from ..histops import OPS, compare, normalise

    for n in ops:
        try:
            msg = compare(normalise(OPS[n](w)), _BASE[n])
        except Exception as e:
            msg = f"raised {type(e).__name__}: {e}"
        if msg:
            return f"threads {ops}, schedule {plan}: later call {n}: {msg}"
    return None


def run_cold(ops, plan, lazy=False):
    w = world(lazy)
    pts = sw = 0
    for phase in ("first use", "second use"):
        msg, p, s = one_schedule(w, ops, plan, phase)
        pts, sw = pts + p, sw + s
        if msg:
            return msg, pts, sw
    return afterwards(w, ops, plan), pts, sw


def run_warm(ops, plans, opc):
    from ..sched import instrument

    if opc:
        instrument(opcodes=True)
    w = world()
    pts = sw = 0
    for plan in plans:
        msg, p, s = one_schedule(w, ops, plan, "shared world")
        pts, sw = pts + p, sw + s
        if msg:
            return msg, pts, sw
    return afterwards(w, ops, plans[-1]), pts, sw


def evaluate(case, res):
    warnings.simplefilter("ignore")
    from ..histops import OPS, compare, normalise

    if case[0] == "alone":
        b = _BASE[case[1]]
        if b is None:
            raise Violation(f"{case[1]} fails alone")
        r = child(lambda: normalise(OPS[case[1]](world())))
        msg = compare(r, b) if r is not None else "fails"
        if msg:
            raise Violation(f"{case[1]} alone is not reproducible: {msg}")
        res.see(case[1])
        res.states += 1
        res.traces += 1
        return
    mode, gran, ops, plans = case
    if mode == "warm":
        todo = [child(lambda: run_warm(ops, plans, gran == "opcode"))]
    else:
        todo = (child(lambda p=p: run_cold(ops, p, mode == "lazy")) for p in plans)
    for r in todo:
        if r is None:
            raise Violation(f"threads {ops}, schedules {plans}: process died")
        msg, pts, sw = r
        res.states += pts
        res.transitions += sw
        if msg:
            raise Violation(msg)
    for plan in plans:
        res.see(str(ops), str(plan), mode, gran)
    res.traces += len(plans)


def extra_coverage(cases):
    return dict(schedules=sum(len(c[3]) for c in cases if c[0] != "alone"), switch_points={n: v[0] for n, v in _N.items()}, shared_writes={n: len(v) for n, v in _W.items() if v}, first_call_writes={n: len(v) for n, v in _L.items()})
