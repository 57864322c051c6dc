"""C25: evaluations keep nothing alive.

Exploration of call histories: every operation creates its arguments, evaluates
and drops everything it got. Afterwards no argument, result or tensor saved for a
backward pass may still be alive, and repeating the history must not change the
number of live tensors."""
from __future__ import annotations

import contextlib
import gc
import itertools
import os
import pickle
import warnings
import weakref

import numpy as np
import torch

from ..harness import HANG, Violation, fork_call
from ..systems import PARAMS, SYS

PROPERTY = "C25"
LEVEL = "model_checking"
RULE = ""
BOUNDS = {
    "quick": "35 operations; all histories of length 1 and 2 (each in its own process, run 4 times) and 7 rotations of the full sequence; monitored: weak references to all arguments, results and tensors saved for backward, number of live tensors, "
    "size of all tensors that stay alive",
    "thorough": "additionally 35 rotations and all histories of length 3 over 14 operations",
}
ASSUMPTIONS = ["memory held only by C++ objects that are neither tensors known to Python nor saved for backward is not seen"]
CHUNK = 4
D, F = torch.double, torch.float32


class Mark:
    """Stands for a tensor saved for backward."""

    __slots__ = ("t", "__weakref__")

    def __init__(self, t):
        self.t = t


class World:
    def __init__(self):
        self.refs, self.marks, self.shared = [], [], {}

    def watch(self, what, *ts):
        for t in ts:
            try:
                self.refs.append((what, weakref.ref(t)))
            except TypeError:  # no weak references to objects with slots
                pass

    def sys(self, name, dt=D, grad=False):
        z, x, c = SYS[name]
        z, x = torch.tensor(z), torch.tensor(np.array(x, float), dtype=dt, requires_grad=grad)
        c = torch.tensor(float(c), dtype=dt)
        self.watch(f"arguments of {name}", z, x, c)
        return z, x, c

    def batch(self, dt=D, grad=False):
        z = torch.tensor([[8, 1, 1, 0, 0], [7, 1, 1, 1, 1]])
        x = torch.zeros(2, 5, 3, dtype=dt)
        x[0, :3] = torch.tensor(np.array(SYS["H2O"][1], float), dtype=dt)
        x[1] = torch.tensor(np.array(SYS["NH4+"][1], float), dtype=dt)
        x.requires_grad_(grad)
        c = torch.tensor([0.0, 1.0], dtype=dt)
        self.watch("batch arguments", z, x, c)
        return z, x, c

    def param(self, key="tpssh", dt=D, grad=False):
        p = {k: torch.tensor(float(v), dtype=dt, requires_grad=grad) for k, v in PARAMS[key].items()}
        self.watch("parameters", *p.values())
        return p

    def hooks(self):
        def pack(t):
            m = Mark(t.detach())
            self.marks.append(weakref.ref(m))
            return m

        return torch.autograd.graph.saved_tensors_hooks(pack, lambda m: m.t)

    def get(self, key, make):
        if key not in self.shared:
            self.shared[key] = make()
        return self.shared[key]


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def _ops():
    import tad_dftd4 as d4
    from tad_dftd4.damping import OptimisedPowerDamping, RationalDamping, ZeroDamping
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d3 import D3ATM
    from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact
    from tad_dftd4.dispersion.threebody import get_atm_dispersion
    from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2

    for m in ("d4", "d4s"):
        for dt, tag in ((D, ""), (F, "_f32")):
            def energy(w, m=m, dt=dt):
                return d4.dftd4(*w.sys("H2O", dt), w.param(dt=dt), model=m)

            def gradient(w, m=m, dt=dt):
                z, x, c = w.sys("HCN", dt, True)
                p = w.param("s10", dt, True)
                e = d4.dftd4(z, x, c, p, model=m).sum()
                return torch.autograd.grad(e, [x, *p.values()], allow_unused=True)

            def undiff(w, m=m, dt=dt):  # graph built, never used
                z, x, c = w.sys("NaCl2-", dt, True)
                return d4.dftd4(z, x, c, w.param("tpssh", dt, True), model=m)

            for n, f in (("energy", energy), ("gradient", gradient), ("undiff", undiff)):
                OPS[f"{n}_{m}{tag}"] = f

        def second(w, m=m):
            z, x, c = w.sys("LiH", D, True)
            (g,) = torch.autograd.grad(d4.dftd4(z, x, c, w.param(), model=m).sum(), x, create_graph=True)
            return torch.autograd.grad((g**2).sum(), x)

        def batch(w, m=m):
            z, x, c = w.batch(grad=True)
            return torch.autograd.grad(d4.dftd4(z, x, c, w.param(), model=m).sum(), x)

        OPS[f"second_{m}"] = second
        OPS[f"batch_{m}"] = batch

    @op
    def backward_leaf(w):
        z, x, c = w.sys("H2O", D, True)
        d4.dftd4(z, x, c, w.param()).sum().backward()
        return x.grad

    @op
    def no_grad(w):
        with torch.no_grad():
            return d4.dftd4(*w.sys("H2O"), w.param())

    @op
    def inference(w):
        with torch.inference_mode():
            return d4.dftd4(*w.sys("H2O"), w.param(), model="d4s")

    @op
    def func_grad(w):
        z, x, c = w.sys("H2O")
        p = w.param()
        return torch.func.grad(lambda y: d4.dftd4(z, y, c, p).sum())(x)

    @op
    def properties(w):
        z, x, c = w.sys("NH4+", D, True)
        r = d4.get_properties(z, x, c)
        return torch.autograd.grad(r[2].sum() + r[3].sum(), x)

    @op
    def properties_batch(w):
        return d4.get_properties(*w.batch())

    @op
    def failed(w):
        for kw in (dict(q=torch.zeros(7, dtype=D)), dict(r4r2=torch.zeros(2, dtype=D)), dict(model="d9")):
            z, x, c = w.sys("H2O", D, True)
            w.watch("rejected argument", *[v for v in kw.values() if isinstance(v, torch.Tensor)])
            try:
                d4.dftd4(z, x, c, w.param(), **kw)
            except ValueError:
                pass
        try:
            d4.dftd4(*w.sys("H2O", D, True), dict(s6=1.0))
        except TypeError:
            pass

    class Stop(BaseException):
        pass

    def bad(*a, **k):
        raise RuntimeError("callback")

    def interrupted(*a, **k):
        raise Stop

    @op
    def failed_callback(w):
        from tad_mctc.ncoord import cn_d4

        d = w.get("disp", lambda: DispD4(dtype=D))
        for f in (bad, interrupted):
            for kw in (dict(cn_function=f), dict(counting_function=f), dict(damping_function=type("Own", (RationalDamping,), dict(__call__=f))())):
                try:
                    d4.dftd4(*w.sys("H2O", D, True), w.param(grad=True), **kw)
                except (RuntimeError, Stop):
                    pass
            t = type("Term", (TwoBodyTerm,), dict(calculate=f))()
            d.register(t)
            try:
                d.calculate(*w.sys("HCN", D, True), w.param(grad=True))
            except (RuntimeError, Stop):
                pass
            finally:
                d.deregister(t)
            d.cn_fn = f
            try:
                d.calculate(*w.sys("HCN", D, True), w.param(grad=True))
            except (RuntimeError, Stop):
                pass
            finally:
                d.cn_fn = cn_d4
        gc.collect()  # the classes made here

    @op
    def shared_calculator(w):
        d = w.get("disp", lambda: DispD4(dtype=D))
        z, x, c = w.sys("HCN", D, True)
        return torch.autograd.grad(d.calculate(z, x, c, w.param()).sum(), x)

    @op
    def shared_calculator_undiff(w):
        d = w.get("disp", lambda: DispD4(dtype=D))
        z, x, c = w.sys("UF3Cs", D, True)
        return d.calculate(z, x, c, w.param(grad=True))

    @op
    def shared_exact(w):
        d = w.get("exact", lambda: DispD4Exact("d4s", dtype=D))
        z, x, c = w.sys("HCN", D, True)
        return d.calculate(z, x, c, w.param(grad=True))

    @op
    def shared_charges(w):
        d = w.get("disp", lambda: DispD4(dtype=D))
        z, x, c = w.sys("HCN", D, True)
        q, r4 = torch.tensor([0.1, 0.2, -0.3], dtype=D, requires_grad=True), torch.tensor([2.0, 2.5, 2.6], dtype=D, requires_grad=True)
        w.watch("charges", q, r4)
        return torch.autograd.grad(d.calculate(z, x, c, w.param(), q=q, r4r2=r4).sum(), [x, q, r4])

    @op
    def shared_damping(w):
        f = w.get("zero", ZeroDamping)
        p = dict(w.param(grad=True), rs6=torch.tensor(1.1, dtype=D, requires_grad=True), rs8=torch.tensor(1.0, dtype=D, requires_grad=True))
        w.watch("damping parameters", p["rs6"], p["rs8"])
        return d4.dftd4(*w.sys("H2O", D, True), p, damping_function=f)

    @op
    def direct_damping(w):
        f = w.get("rational", RationalDamping)
        r, a = torch.linspace(1.0, 9.0, 5, dtype=D, requires_grad=True), torch.tensor(0.4, dtype=D, requires_grad=True)
        w.watch("damping arguments", r, a)
        return f(r, r.detach() + 2.0, 6, a1=a, a2=5.0), f(r, r.detach() + 2.0, 8, a1=a, a2=5.0)

    @op
    def shared_model(w):
        m = w.get("model", lambda: d4.D4SModel(torch.tensor([8, 1, 1]), dtype=D))
        cn, q = torch.tensor([1.5, 0.9, 0.8], dtype=D, requires_grad=True), torch.tensor([-0.4, 0.2, 0.2], dtype=D, requires_grad=True)
        w.watch("model arguments", cn, q)
        g = m.weight_references(cn, q)
        return g, m.get_atomic_c6(g), m.get_weighted_pols(g)

    @op
    def model_energy(w):
        z, x, c = w.sys("H2O", D, True)
        m = d4.D4Model(z, wf=torch.tensor(5.0, dtype=D, requires_grad=True), dtype=D)
        w.watch("model tensors", m.wf, m.rc6)
        return d4.dftd4(z, x, c, w.param(), model=m)

    @op
    def calculator_dropped(w):
        z, x, c = w.sys("H2O", D, True)
        d = Disp("d4s", dtype=D)
        d.register(TwoBodyTerm(damping_fn=OptimisedPowerDamping()))
        d.register(D3ATM(charge_dependent=True))
        t, u = d.terms
        w.watch("terms", t, u)
        w.watch("calculator", d)
        return d.calculate(z, x, c, dict(w.param(), bet=1.5)), d.type(F)

    @op
    def standalone(w):
        z, x, c = w.sys("H2O", D, True)
        c6, r4, c9, ra = (torch.full(s, 3.0, dtype=D, requires_grad=True) for s in ((3, 3), (3,), (3, 3, 3), (3, 3)))
        cut = d4.Cutoff(dtype=D)
        w.watch("term arguments", c6, r4, c9, ra, cut, cut.disp3)
        return dispersion2(z, x, w.param(), c6, r4, cutoff=cut.disp2), get_atm_dispersion(z, x, c9, ra, cut.disp3)

    @op
    def cutoffs(w):
        cut = d4.Cutoff(disp2=torch.tensor(7.0, dtype=D), dtype=D)
        w.watch("cutoffs", cut, cut.disp2, cut.cn_eeq)
        return d4.dftd4(*w.sys("UF3Cs"), w.param(), cutoff=cut)

    @op
    def lookup(w):
        p = d4.get_params(method="d4", functional="pbe")
        z, x, c = w.sys("H2O", D, True)
        return d4.dftd4(z, x, c, p)


def names():
    if not OPS:
        _ops()
    return list(OPS)


def space(tier):
    import tad_dftd4.data.wfpair  # noqa: F401
    import tad_dftd4.reference.d4.charge_gfn2  # noqa: F401

    N = names()
    out = [("hist", [n]) for n in N]
    out += [("hist", [a, b]) for a, b in itertools.product(N, N) if a != b]
    out += [("hist", N[i:] + N[:i]) for i in range(0, len(N), 5 if tier == "quick" else 1)]
    if tier == "thorough":
        C = [n for n in N if "_f32" not in n][:7] + [n for n in N if n.startswith("shared")]
        out += [("hist", list(t)) for t in itertools.product(C, repeat=3) if len(set(t)) == 3]
    return out


def once(w, hist):
    for n in hist:
        with w.hooks() if "func" not in n else contextlib.nullcontext():  # torch.func allows no hooks
            r = OPS[n](w)
        rs = [t for t in (r if isinstance(r, (tuple, list)) else (r,)) if isinstance(t, torch.Tensor)]
        w.watch(f"result of {n}", *rs)
        del r, rs


def settle(w):
    """-> description of something that is still alive, or None."""
    gc.collect()
    for what, ref in w.refs:
        if ref() is not None:
            return what
    n = sum(m() is not None for m in w.marks)
    if n:
        return f"{n} tensors saved for backward"
    del w.refs[:], w.marks[:]
    return None


def live():
    gc.collect()
    ts = [o for o in gc.get_objects() if isinstance(o, torch.Tensor)]
    return len(ts), sum(t.element_size() * t.nelement() for t in ts)


def run(hist):
    warnings.simplefilter("ignore")
    torch.set_num_threads(1)
    gc.collect()
    gc.freeze()  # what exists now is not looked at again
    w = World()
    for i in range(2):
        once(w, hist)
        msg = settle(w)
        if msg:
            return f"after {hist} (repetition {i}) still alive: {msg}"
    a = live()
    for i in range(2):
        once(w, hist)
        msg = settle(w)
        if msg:
            return f"after {hist} (repetition {i + 2}) still alive: {msg}"
    b = live()
    if b != a:
        return f"{hist}: (tensors, bytes) alive grow from {a} to {b} when the calls are repeated"
    return b


def child(fn):
    def safe():
        try:
            return fn()
        except Exception as e:
            return f"{type(e).__name__}: {e}"

    data = fork_call(safe)
    return pickle.loads(data) if data else HANG if data is None else "process died"


def evaluate(case, res):
    names()
    hist = case[1]
    r = child(lambda: run(hist))
    if isinstance(r, str):
        raise Violation(r)
    res.states += 5 * len(hist)
    res.transitions += 4 * len(hist)
    res.traces += 1
    res.see(str(hist), r[0])
