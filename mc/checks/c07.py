"""C07: results depend only on the arguments, never on earlier calls.

Stateless model checking of call histories: the state is everything the process
remembers; the transitions are public calls. Every history runs in its own
process forked from a pristine one (modules imported, nothing called), and every
single result is compared with the result of the same call in a fresh interpreter."""
from __future__ import annotations

import itertools
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import harness
from ..harness import HANG, Violation, fork_call, need

PROPERTY = "C07"
LEVEL = "model_checking"
RULE = ""
BOUNDS = {
    "quick": "53 operations; all histories (a,b,a) over all ordered pairs, all histories of length 3 over 12 core operations, 53 rotations of the full sequence run twice; "
    "streams of 1339 different systems (every fourth element pair) through the functions, a shared calculator, model and damping function and of all parameter sets, in 4 orders (forward, backward, every call repeated, alternating with one system); 16 configurations x each argument edited in place between calls, all sequences of length 3 over 3 contents; 279 kinds of calls x all 64 subsets of the optional parameters x forms of the arguments: nothing about any argument changes and results are overwritten between calls; each history in its own process; baselines from 53 fresh interpreters",
    "thorough": "streams of all 5356 element pairs, all 53^3 histories of length 3, all histories of length 4 over 12 core operations, all 53^2 (a, b, full rotation) histories",
}
ASSUMPTIONS = ["forking a process that only imported the package is equivalent to starting a new one (checked against fresh interpreters for each operation)"]
CHUNK = 2
CORE = ["e_h2o", "e_h2o_f32", "e_batch", "e_nacl_d4s", "e_inference", "e_grad", "params_d4", "params_energy", "disp_terms", "model_shared", "fail_param", "zero_damp"]
_BASE = None


def names():
    from ..histops import OPS

    return list(OPS)


_CODE = """
import sys, pickle
sys.path.insert(0, {root!r})
import mc.harness, torch, warnings
warnings.simplefilter("ignore")
torch.set_num_threads(1)
from mc.histops import OPS, World, normalise
sys.stdout.buffer.write(pickle.dumps(normalise(OPS[{op!r}](World()))))
"""


def baselines():
    """Result of every operation as the only call of a fresh interpreter."""
    procs, out = [], {}
    todo = names()
    while todo or procs:
        while todo and len(procs) < 8:
            n = todo.pop(0)
            procs.append((n, subprocess.Popen([sys.executable, "-c", _CODE.format(root=harness.ROOT, op=n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
        n, p = procs.pop(0)
        o, e = p.communicate()
        out[n] = pickle.loads(o) if p.returncode == 0 else ("failed", e.decode()[-600:])
    return out


def space(tier):
    global _BASE
    import torch

    import tad_dftd4.data.wfpair  # noqa: F401  imports only, no calls
    import tad_dftd4.reference.d4.charge_gfn2  # noqa: F401

    torch.func.grad(lambda t: t)(torch.tensor(1.0))
    _BASE = baselines()
    N = names()
    out = [("fresh", n) for n in N]
    out += [("edit", k, w) for k, ws in EDIT.items() for w in ws]
    from ..keepargs import CASES

    out += [("keep", c) for c in CASES]
    out += [("stream", k, i, o) for o in ORDERS for k, n in STREAMS.items() for i in (range(n) if tier == "thorough" else [0])]
    for i in range(len(N)):
        rot = N[i:] + N[:i]
        out.append(("hist", rot + rot[::-1]))
    for a, b in itertools.product(N, N):
        out.append(("hist", [a, b, a]))
    if tier == "quick":
        for a, b in itertools.product(CORE, CORE):
            out.append(("tree", [a, b], CORE, 1))
    else:
        for a, b in itertools.product(N, N):
            out.append(("tree", [a, b], N, 1))
            i = N.index(b)
            out.append(("hist", [a, b] + N[i + 1:] + N[:i]))
        for a, b in itertools.product(CORE, CORE):
            out.append(("tree", [a, b], CORE, 2))
    return out


def gstate():
    import torch

    return (
        torch.get_default_dtype(), torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.get_num_threads(),
        torch.are_deterministic_algorithms_enabled(), torch.random.get_rng_state().sum().item(), str(torch.get_default_device()),
    )


def step(w, n, hist):
    from ..histops import OPS, compare, normalise

    g = gstate()
    try:
        r = normalise(OPS[n](w))
    except Exception as e:
        return f"after {hist}: {n} raised {type(e).__name__}: {e}"
    msg = compare(r, _BASE[n])
    if msg:
        return f"after {hist}: {n} differs from the same call in a fresh process: {msg}"
    if gstate() != g:
        return f"after {hist}: {n} changed global torch state {g} -> {gstate()}"
    msg = w.changed()
    if msg:
        return f"after {hist + [n]}: {msg}"
    return None


def child(fn, limit=None):
    """Run fn in a forked process, return its (picklable) result."""
    data = fork_call(fn, limit)
    if not data:
        return [HANG if data is None else "child process died"], 0, 0
    return pickle.loads(data)


def run_history(ops):
    from ..histops import World

    w, hist = World(), []
    for n in ops:
        msg = step(w, n, hist)
        if msg:
            return [msg], len(hist) + 1, 1
        hist.append(n)
    return [], len(ops), 1


def run_tree(prefix, alphabet, depth):
    from ..histops import World

    w, hist = World(), []
    for n in prefix:
        msg = step(w, n, hist)
        if msg:
            return [msg], len(hist) + 1, 1
        hist.append(n)

    def expand(hist, d):
        bad, tr, tv = [], 0, 0
        for n in alphabet:
            def leaf(n=n):
                msg = step(w, n, hist)
                if msg:
                    return [msg], 1, 1
                if d > 1:
                    b, t, v = expand(hist + [n], d - 1)
                    return b, t + 1, v
                return [], 1, 1

            b, t, v = child(leaf)
            bad += b
            tr += t
            tv += v
            if bad:
                break
        return bad, tr, tv

    b, t, v = expand(hist, depth)
    return b, t + len(prefix), v


# -- long streams of different inputs -----------------------------------------------
def stream_inputs(kind, part):
    """A long list of different inputs of one kind of call."""
    if kind == "params":
        from tad_dftd4.damping.parameters.loader import get_params  # noqa: F401
        import tomli

        out = []
        for m in ("d4", "d3"):
            t = tomli.load(open(os.path.join(harness.REPO, "src/tad_dftd4/damping/parameters", m + ".toml"), "rb"))
            for f, sec in t["parameter"].items():
                out += [(m, f, v) for v in sec.get(m, {})]
        return out[part::STREAMS["params"]]
    pairs = [(a, b) for a in range(1, 104) for b in range(1, a + 1)]
    return pairs[part::STREAMS[kind]]


STREAMS = dict(batch=4, disp=4, func=4, exact=4, model=4, props=4, damp=4, params=1)
ORDERS = [("again",), ("forward", "backward"), ("alternating",)]


def stream_call(kind, ctx):
    """-> function of one input; objects in ctx live as long as the stream."""
    import torch

    import tad_dftd4 as d4
    from tad_dftd4.damping import RationalDamping, ZeroDamping
    from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact

    D = torch.double
    p = dict(s6=1.0, s8=1.2, s9=1.0, a1=0.4, a2=5.0)

    def system(a, b):
        r = 2.5 + 0.02 * (a + b) + 0.001 * a
        return torch.tensor([a, b, 1]), torch.tensor([[0.0, 0, 0], [0, 0, r], [0, 1.9, 0.3]], dtype=D)

    if kind == "params":
        def f(i):
            q = d4.get_params(method=i[0], functional=i[1], variant=i[2])
            out = sorted(q.items())
            q.clear()
            return [v for _, v in out if not isinstance(v, str)]
    elif kind == "func":
        def f(i):
            z, x = system(*i)
            return d4.dftd4(z, x, (sum(i) % 3) - 1.0, dict(p), model="d4s" if sum(i) % 2 else "d4").tolist()
    elif kind in ("disp", "exact"):
        calc = ctx.setdefault("c", DispD4(model="d4s", dtype=D) if kind == "disp" else DispD4Exact(dtype=D))

        def f(i):
            z, x = system(*i)
            return calc.calculate(z, x, (sum(i) % 3) - 1.0, dict(p)).tolist()
    elif kind == "props":
        def f(i):
            return [t.sum(-1).tolist() if t.ndim > 1 else t.tolist() for t in d4.get_properties(*system(*i), (sum(i) % 3) - 1.0)]
    elif kind == "batch":
        def f(i):
            z, x = system(*i)
            z2, x2 = system(i[1], 104 - i[0])
            z2[2] = 0
            return d4.dftd4(torch.stack([z, z2]), torch.stack([x, x2]), torch.tensor([0.0, 1.0], dtype=D), dict(p)).tolist()
    elif kind == "model":
        mod = ctx.setdefault("m", d4.D4Model(torch.tensor([8, 1, 79]), dtype=D))
        mods = ctx.setdefault("ms", d4.D4SModel(torch.tensor([8, 1, 79]), dtype=D))

        def f(i):
            cn, q = torch.tensor([i[0] / 40, i[1] / 90, 2.0], dtype=D), torch.tensor([i[1] / 200, -0.1, 0.3], dtype=D)
            return [t for m in (mod, mods) for g in [m.weight_references(cn, q)] for t in (m.get_atomic_c6(g).tolist(), m.get_polarizabilities(g).tolist())]
    else:
        ra, ze = ctx.setdefault("d", (RationalDamping(), ZeroDamping()))

        def f(i):
            r, r0 = torch.linspace(1.0, 1.0 + i[0] / 9, 3, dtype=D), torch.full((3,), 3.0 + i[1] / 20, dtype=D)
            return [ra(r, r0, 6, a1=0.4, a2=5.0).tolist(), ra(r, r0, 8, a1=0.4, a2=4.0).tolist(), ze(r, r0, 8, rs8=1.0, alp=14.0).tolist()]
    return f


def run_stream(kind, part, order):
    import torch

    torch.set_num_threads(1)
    ins = stream_inputs(kind, part)
    idx = list(range(len(ins)))
    if order == "backward":
        idx = idx[::-1]
    elif order == "again":  # every input a second time directly afterwards and at the end
        idx = [j for i in idx for j in (i, i)] + idx
    elif order == "alternating":  # a fixed input between all others
        idx = [j for i in idx for j in (0, i)]
    out = {}
    f = stream_call(kind, {})
    for n, i in enumerate(idx):
        r = flat(f(ins[i]))
        if i in out and not np.allclose(out[i], r, rtol=1e-12, atol=1e-18):
            return f"{kind} {order}: call {n} with {ins[i]} gives {r}, an earlier one {out[i]}"
        out[i] = r
    return [out[i] for i in range(len(ins))]


def flat(v):
    return np.array([x for x in _walk(v)], float)


def _walk(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from _walk(x)
    else:
        yield v


def stream_case(kind, part, orders, res):
    ins, got = stream_inputs(kind, part), {}
    for order in orders:
        r = child(lambda: (run_stream(kind, part, order), 0, 0))[0]
        if isinstance(r, str) or r == ["child process died"]:
            raise Violation(f"stream {kind} {part} {order}: {r}")
        got[order] = r
        res.traces += 1
        res.transitions += len(r)
        res.states += len(r)
        for i, (a, b) in enumerate(zip(got[orders[0]], r)):
            need(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-18), f"{kind} call with {ins[i]} depends on the calls before it: {a} {orders[0]}, {b} {order}")
            res.see(kind, a)


# -- arguments edited in place between calls --------------------------------------------
EDIT = {
    "dftd4": "zxpqru", "dftd4 d4s": "zxpqru", "dftd4 eeq": "zxcpru", "zero": "zxpqru", "disp": "zxpqru", "disp d4s": "zxcpru", "exact": "zxpqru", "own": "zxpqru", "d3atm": "zxpqru", "props": "zxcu",
    "model energy": "xpqru", "model s energy": "xpqru", "model": "nq", "model s": "nq", "two": "xprku", "three": "xpkvu",
}  # configuration -> arguments that are edited


def edit_args():
    import torch

    D = torch.double
    z = torch.tensor([[8, 1, 1, 6], [7, 17, 3, 1]])
    x = torch.tensor([[[0.0, 0, -0.7], [-1.4, 0.2, 0.4], [1.5, 0.1, 0.3], [0.3, 3.9, 0.2]], [[0.0, 0, 0.1], [3.1, 0.2, 0.4], [-3.2, 0.1, 0.3], [0.3, 1.9, 0.2]]], dtype=D)
    return dict(
        z=z, x=x, c=torch.tensor([0.0, 1.0], dtype=D),
        p={k: torch.tensor(v, dtype=D) for k, v in dict(s6=1.0, s8=0.9, s9=1.1, s10=0.2, a1=0.4, a2=4.8, alp=14.0, rs6=1.1, rs8=1.0, rs9=1.2, bet=1.5).items()},
        q=torch.tensor([[-0.4, 0.2, 0.2, 0.0], [0.3, -0.5, 0.9, 0.3]], dtype=D), r=torch.tensor([[2.6, 2.0, 2.0, 3.1], [2.9, 3.8, 5.0, 2.0]], dtype=D),
        v=torch.full((2, 4, 4), 5.0, dtype=D), u=torch.tensor([3.0, 3.0, 20.0, 3.0], dtype=D),
        n=torch.tensor([[1.6, 0.8, 0.7, 1.1], [2.0, 0.9, 0.8, 1.0]], dtype=D), k=torch.full((2, 4, 4), 7.0, dtype=D),
    )


def edit_change(a, what, version):
    """Give argument `what` its content number `version`, in place."""
    import torch

    src = edit_args()
    if what == "p":
        for i, k in enumerate(sorted(a["p"])):
            a["p"][k].copy_(src["p"][k] * (1 + 0.03 * version * (i + 1)))
    elif what == "z":
        a["z"].copy_(torch.tensor([[[8, 1, 1, 6], [7, 17, 3, 1]], [[16, 1, 9, 6], [7, 35, 3, 1]], [[6, 8, 1, 1], [1, 7, 17, 3]]][version]))
    else:
        t = a[what]
        d = torch.linspace(0.15, 0.35, t.numel(), dtype=t.dtype).reshape(t.shape)
        t.copy_(src[what] + version * d * (src[what].abs() + 0.1))


def edit_call(cfg, a, ctx):
    import torch

    import tad_dftd4 as d4
    from tad_dftd4.damping import OptimisedPowerDamping, ZeroDamping
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d3 import D3ATM
    from tad_dftd4.dispersion.d4 import D4ATMApprox, DispD4, DispD4Exact
    from tad_dftd4.dispersion.threebody import get_atm_dispersion
    from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2

    D = torch.double

    def keep(k, f):
        if k not in ctx:
            ctx[k] = f()
        return ctx[k]

    cu = keep("cut", lambda: d4.Cutoff(dtype=D))
    cu.disp2, cu.disp3, cu.cn, cu.cn_eeq = a["u"].clone()  # one object, other cutoffs
    p = {k: v for k, v in a["p"].items() if not k.startswith("rs")} if cfg.startswith("dftd4") else a["p"]
    if cfg.startswith("dftd4") or cfg == "zero":
        kw = dict(q=None if "eeq" in cfg else a["q"], r4r2=a["r"], cutoff=cu, model="d4s" if "d4s" in cfg else "d4")
        if cfg == "zero":
            kw["damping_function"] = keep("f", ZeroDamping)
            p = {k: v for k, v in p.items() if k != "s10"}
        return [d4.dftd4(a["z"], a["x"], a["c"], p, **kw)]
    if cfg in ("disp", "disp d4s", "exact", "own", "d3atm"):
        def make():
            if cfg in ("own", "d3atm"):
                d = Disp(dtype=D)
                if cfg == "own":
                    d.register(TwoBodyTerm(damping_fn=OptimisedPowerDamping()))
                d.register(D3ATM(charge_dependent=True))
                d.register(D4ATMApprox(charge_dependent=True))
                return d
            return DispD4Exact(dtype=D) if cfg == "exact" else DispD4("d4s" if "d4s" in cfg else "d4", dtype=D)

        if cfg == "own":
            p = {k: v for k, v in p.items() if k != "s10"}
        return [keep("d", make).calculate(a["z"], a["x"], a["c"], p, q=None if "d4s" in cfg else a["q"], r4r2=a["r"], cutoff=cu)]
    if cfg == "props":
        return list(d4.get_properties(a["z"], a["x"], a["c"], cu))
    if cfg.startswith("model"):
        cls = d4.D4SModel if " s" in cfg else d4.D4Model
        m = keep("m", lambda: cls(a["z"], dtype=D))
        if "energy" in cfg:
            return [d4.dftd4(a["z"], a["x"], a["c"], p, q=a["q"], r4r2=a["r"], cutoff=cu, model=m)]
        g = m.weight_references(a["n"], a["q"])
        return [g, m.get_atomic_c6(g), m.get_polarizabilities(g)]
    if cfg == "two":
        return [dispersion2(a["z"], a["x"], p, a["k"], a["r"], cutoff=a["u"][0])]
    return [get_atm_dispersion(a["z"], a["x"], a["k"].unsqueeze(-1) + a["k"].unsqueeze(-2), a["v"], a["u"][1], s9=p["s9"], alp=p["alp"])]


def edit_run(cfg, what, seq):
    """Results of the calls with the contents `seq` of argument `what` in the same objects."""
    import torch

    torch.set_num_threads(1)
    a, ctx, out = edit_args(), {}, []
    for v in seq:
        edit_change(a, what, v)
        out.append([t.double().tolist() for t in edit_call(cfg, a, ctx)])
    return out


def edit_case(cfg, what, res):
    ref = {v: child(lambda: (edit_run(cfg, what, [v]), 0, 0))[0][0] for v in range(3)}
    for seq in itertools.product(range(3), repeat=3):
        got = child(lambda: (edit_run(cfg, what, seq), 0, 0))[0]
        need(len(got) == 3 and not isinstance(got[0], str), f"{cfg}: {got}")
        for i, v in enumerate(seq):
            need(all(np.allclose(x, y, rtol=1e-12, atol=1e-18, equal_nan=True) for x, y in zip(got[i], ref[v])), f"{cfg}: argument '{what}' edited in place to the contents {seq[: i + 1]}: the last call does not see its content")
        res.states += 3
        res.transitions += 3
        res.traces += 1
        res.see(cfg, what, str(seq))


def evaluate(case, res):
    if case[0] == "edit":
        return edit_case(*case[1:], res)
    if case[0] == "keep":
        from ..keepargs import run

        msg, n, _ = child(lambda: (*run(case[1]), 0))
        if msg:
            raise Violation(msg if isinstance(msg, str) else str(msg))
        res.traces += 1
        res.transitions += n
        res.states += n
        res.see(str(case))
        return
    if case[0] == "stream":
        return stream_case(*case[1:], res)
    if case[0] == "fresh":
        n = case[1]
        need(not (isinstance(_BASE[n], tuple) and _BASE[n][0] == "failed"), f"{n} fails in a fresh process: {_BASE[n]}")
        bad, tr, tv = child(lambda: run_history([n]))
        ops = [n]
    elif case[0] == "hist":
        ops = case[1]
        bad, tr, tv = child(lambda: run_history(ops))
    else:
        ops = case[1]
        bad, tr, tv = child(lambda: run_tree(*case[1:]))
    res.states += tr
    res.transitions += tr
    res.traces += tv
    res.see(str(case))
    if bad:
        raise Violation(bad[0])
