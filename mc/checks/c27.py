"""C27: user-supplied functions and classes take part in a calculation.

Exploration of nested calls: an outer calculation with a user-supplied callable is
stopped at each invocation of that callable, there an inner operation (any public
call, also on the very objects in use, or another calculation with callbacks) runs
to completion or fails, and the outer one continues. Outer and inner results are
compared with those of fresh processes."""
from __future__ import annotations

import itertools
import warnings

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.damping import RationalDamping, ZeroDamping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.base import DispTerm
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm

from tad_mctc.ncoord import cn_d3, cn_d4, erf_count

from .. import refmodel as R
from ..harness import Violation, need
from ..systems import SYS
from . import c07

PROPERTY = "C27"
LEVEL = "model_checking"
RULE = ""
CHUNK = 2
KINDS = ["cn", "count", "damp", "term", "atm", "model", "models", "zero", "hook"]
OUTER = ["dftd4", "disp", "exact", "batch", "grad"]
BOUNDS = {
    "quick": "9 kinds of callables x 5 outer calculations x every invocation of the callable x 51 inner operations; all pairs of nested outer calculations (recursion depth 2), depth 3 over 3 kinds; "
    "errors of every callable at every invocation (13 exception types), followed by 6 other operations; every overridable method and callable scaled in 8 systems and batches x 2 models x 3 calculators, against the reference; arguments seen by callables compared with the reference for 8 systems x 2 models x 3 precisions and forms",
    "thorough": "additionally depth 3 over all kinds and two inner operations at every invocation",
}
D = torch.double
SKIP = {"e_defdouble", "fail_param"}  # change process-wide settings for a moment


class Boom(Exception):
    pass


# -- outer calculations ------------------------------------------------------------------
def outer(w, cfg, kind, cb):
    """Evaluate configuration cfg with a callable of the given kind that calls cb()."""
    z, x, c = w.batch(("H2O", "NH4+")) if cfg == "batch" else w.sys("H2O")
    p = w.param("tpssh")
    if cfg == "grad":
        x = x.clone().requires_grad_(True)
    kw, reg, model = {}, None, "d4"
    cnf, cof, damp = cn_d4, erf_count, None
    if kind == "cn":
        def cnf(*a, **k):
            cb()
            r = cn_d4(*a, **k)
            cb()
            return r
    elif kind == "count":
        def cof(*a, **k):
            cb()
            return erf_count(*a, **k)
    elif kind == "damp":
        class Mine(RationalDamping):
            def __call__(self, *a, **k):
                cb()
                return super().__call__(*a, **k)

        damp = Mine()
    elif kind == "zero":
        class Mine0(ZeroDamping):
            def __call__(self, *a, **k):
                cb()
                r = super().__call__(*a, **k)
                cb()
                return r

        damp = Mine0()
        p = dict(p, rs6=1.1, rs8=1.0)
    elif kind == "term":
        class T(TwoBodyTerm):
            def calculate(self, *a, **k):
                cb()
                r = super().calculate(*a, **k)
                cb()
                return r

        reg = T(charge_dependent=False)
    elif kind == "atm":
        class A(D4ATMExact if cfg == "exact" else D4ATMApprox):
            def get_c9(self, *a, **k):
                cb()
                return super().get_c9(*a, **k)

            def get_radii(self, *a, **k):
                cb()
                return super().get_radii(*a, **k)

        reg = A()
    elif kind in ("model", "models"):
        class D4Mine(d4.D4Model if kind == "model" else d4.D4SModel):
            def weight_references(self, *a, **k):
                cb()
                r = super().weight_references(*a, **k)
                cb()
                return r

            def get_atomic_c6(self, *a, **k):
                cb()
                return super().get_atomic_c6(*a, **k)

        model = D4Mine(z, dtype=D)
    elif kind == "hook":
        x = x.clone().requires_grad_(True)

        def hook(g):
            with torch.enable_grad():  # off during the backward pass
                cb()

        x.register_hook(hook)
    if cfg in ("dftd4", "batch", "grad") and reg is None:
        if damp is not None:
            kw["damping_function"] = damp
        e = d4.dftd4(z, x, c, p, model=model, cn_function=cnf, counting_function=cof, **kw)
    elif cfg == "disp" and reg is None and kind in ("damp", "zero", "hook", "model", "models", "cn", "count"):
        if kind in ("damp", "zero"):
            f = Disp(dtype=D)
            f.register(TwoBodyTerm(damping_fn=damp))
            f.register(D4ATMApprox())
            e = f.calculate(z, x, c, p)
        elif kind == "hook":
            e = w.get("disp", lambda: DispD4(dtype=D)).calculate(z, x, c, p)  # the object the inner operations use
        else:
            e = DispD4(model, cn_fn=cnf, cn_fn_kwargs=dict(counting_function=cof), dtype=D).calculate(z, x, c, p)
    else:
        if cfg == "disp":
            f = w.get("disp", lambda: DispD4(dtype=D))  # the object the inner operations use
            f.register(reg)
            try:
                e = f.calculate(z, x, c, p)
            finally:
                f.deregister(reg)
        else:
            f = (DispD4Exact if cfg == "exact" else DispD4)(model, cn_fn=cnf, cn_fn_kwargs=dict(counting_function=cof), dtype=D)
            if damp is not None:
                f.terms[0] = TwoBodyTerm(damping_fn=damp)
            if reg is not None:
                f.register(reg)
            e = f.calculate(z, x, c, p)
    if cfg == "grad" or kind == "hook":
        (g,) = torch.autograd.grad(e.sum(), x)
        return [e.detach(), g]
    return [e]


def arr(r):
    return [t.detach().double().numpy() for t in r]


def plain(cfg, kind):
    """-> (results, number of invocations) without nested calls."""
    from ..histops import World

    warnings.simplefilter("ignore")
    n = [0]

    def cb():
        n[0] += 1

    return arr(outer(World(), cfg, kind, cb)), n[0]


_REF: dict = {}


def usable(cfg, kind, inner):
    """Shared calculator with an extra term: inner operations on it would see the term."""
    return not (cfg == "disp" and kind in ("term", "atm") and inner in USES_DISP)


USES_DISP: set = set()


def uses_disp(n):
    from ..histops import OPS, World

    warnings.simplefilter("ignore")
    w = World()
    OPS[n](w)
    return "disp" in w.obj


def space(tier):
    import tad_dftd4.data.wfpair  # noqa: F401  imports only, no calls
    import tad_dftd4.reference.d4.charge_gfn2  # noqa: F401

    c07._BASE = c07.baselines()
    for cfg, k in itertools.product(OUTER, KINDS):
        _REF[cfg, k] = c07.child(lambda: (plain(cfg, k), 0, 0))[0]
    N = [n for n in c07.names() if n not in SKIP]
    USES_DISP.update(n for n in N if c07.child(lambda: (_safe(lambda: uses_disp(n)), 0, 0))[0] is True)
    out = []
    for cfg, k in itertools.product(OUTER, KINDS):
        out.append(("calls", cfg, k))
        out.append(("fail", cfg, k))
        for i in range(0, len(N), 17):
            out.append(("op", cfg, k, N[i:i + 17]))
        out.append(("nest", cfg, k))
    three = KINDS if tier == "thorough" else ["cn", "damp", "model"]
    for t in itertools.product(three, repeat=3):
        out.append(("deep", t))
    for s in ("H2O", "NH4+", "NaCl2-", "UF3Cs", "HCN", "He", "AuPtH", "water2"):
        for m in ("d4", "d4s"):
            out.append(("args", s, m))
    for m in ("d4", "d4s"):
        out += [("used", t, m) for t in [(s,) for s in SINGLE] + PAIRS]
    if tier == "thorough":
        for cfg, k in itertools.product(OUTER, KINDS):
            for a in N:
                out.append(("two", cfg, k, a, N[::3]))
    return out


def same(r, ref):
    return len(r) == len(ref) and all(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-14) for a, b in zip(r, ref))


def nested(cfg, kind, at, inner):
    """Outer calculation; invocation `at` of the callable (None: all) runs inner(world) -> message."""
    from ..histops import World

    warnings.simplefilter("ignore")
    w, i, msgs = World(), [0], []
    g0 = c07.gstate()

    def cb():
        i[0] += 1
        g = c07.gstate()
        if kind != "hook" and g != g0:
            msgs.append(f"the callable sees the torch state {g} instead of {g0}")
        if at is None or i[0] - 1 == at:
            msgs.append(inner(w))

    r = arr(outer(w, cfg, kind, cb))
    for m in msgs:
        if m:
            return f"{kind} callable of {cfg}: {m}"
    if not same(r, _REF[cfg, kind][0]):
        return f"{cfg} with a {kind} callable that calls the library gives {r} instead of {_REF[cfg, kind][0]}"
    if c07.gstate() != g0:
        return f"{cfg} {kind}: torch state changed"
    msg = w.changed()
    return f"{cfg} {kind}: {msg}" if msg else None


def run_op(n):
    def f(w):
        from ..histops import OPS, compare, normalise

        msg = compare(normalise(OPS[n](w)), c07._BASE[n])
        return f"inner operation {n} differs: {msg}" if msg else None

    return f


def run_outer(cfg, kind, inner=None):
    """An inner calculation that has a callable itself."""

    def f(w):
        msgs = []
        r = arr(outer(w, cfg, kind, (lambda: msgs.append(inner(w))) if inner else (lambda: None)))
        for m in msgs:
            if m:
                return m
        return None if same(r, _REF[cfg, kind][0]) else f"inner {cfg} with {kind} callable differs"

    return f


ERRORS = [TypeError, ValueError, KeyError, AttributeError, IndexError, RuntimeError, NotImplementedError, AssertionError, ImportError, StopIteration, MemoryError, KeyboardInterrupt]


def failing(cfg, kind, at, exc=Boom):
    """The callable raises at its invocation `at`; the error reaches the caller and everything works afterwards."""
    from ..histops import World

    warnings.simplefilter("ignore")
    w, i = World(), [0]
    g0 = c07.gstate()

    def cb():
        i[0] += 1
        if i[0] - 1 == at:
            raise exc("from the user")

    try:
        outer(w, cfg, kind, cb)
    except BaseException as e:
        seen = e
        while seen is not None and not isinstance(seen, Boom) and "from the user" not in str(seen):
            seen = seen.__cause__ or seen.__context__
        if seen is None:
            return f"{cfg}: the error of the {kind} callable is replaced by {type(e).__name__}: {e}"
    else:
        return f"{cfg}: the {exc.__name__} of the {kind} callable is lost"
    if i[0] != at + 1:
        return f"{cfg}: calculation goes on after the {exc.__name__} of the {kind} callable"
    if c07.gstate() != g0:
        return f"{cfg}: torch state changed after an error of the {kind} callable"
    r = arr(outer(w, cfg, kind, lambda: None))
    if not same(r, _REF[cfg, kind][0]):
        return f"{cfg}: different result after an error of the {kind} callable"
    if exc is not Boom:
        return None
    hist = [f"{cfg} with failing {kind} callable"]
    for n in ("e_h2o", "disp_shared", "e_nacl_d4s", "zero_damp", "model_shared", "exact_shared"):
        msg = c07.step(w, n, hist)
        if msg:
            return msg
        hist.append(n)
    return None


def child(fn):
    return c07.child(lambda: (_safe(fn), 0, 0), 60.0)[0]


def _safe(fn):
    try:
        return fn()
    except Exception as e:
        import traceback

        return f"{type(e).__name__}: {e}\n{traceback.format_exc()[-500:]}"


def go(fn, res, key, n=2):
    msg = child(fn)
    if msg:
        raise Violation(str(msg) if isinstance(msg, str) else str(msg[0]))
    res.states += n
    res.transitions += n
    res.traces += 1
    res.see(str(key))


# -- arguments of the callables --------------------------------------------------------------
def args_case(s, m, res):
    z, x, c = SYS[s]
    p = dict(s6=1.0, s8=1.1, s9=0.9, a1=0.41, a2=4.9, alp=14.0)
    for dt, form in ((D, "default"), (torch.float32, "default"), (D, "override")):
        Z, X = torch.tensor(z), torch.tensor(np.array(x, float), dtype=dt)
        seen = {}
        tol = dict(rtol=1e-9, atol=1e-12) if dt is D else dict(rtol=2e-4, atol=2e-4)
        cut = d4.Cutoff(disp2=7.0, disp3=5.0, cn=20.0, cn_eeq=4.0, dtype=dt) if form == "override" else None
        r4 = torch.linspace(2.0, 4.0, len(z), dtype=dt) if form == "override" else None
        rv = torch.full((len(z), len(z)), 5.5, dtype=dt) if form == "override" else None

        class Probe(DispTerm):
            def calculate(self, numbers, positions, param, cn, model, q, r4r2, rvdw, cutoff):
                seen["term"] = dict(numbers=numbers, positions=positions, param=param, cn=cn, model=model, q=q, r4r2=r4r2, rvdw=rvdw, cutoff=cutoff)
                return torch.full_like(r4r2, 0.25)

        def cnf(numbers, positions, **kw):
            seen["cn"] = (numbers, positions, kw)
            return cn_d3(numbers, positions) * 0.9

        for qdep in (True, False):
            disp = Disp(m, cn_fn=cnf, cn_fn_kwargs=dict(flag=3, other="x"), dtype=dt)
            disp.register(Probe(RationalDamping(), qdep))
            disp.register(Probe(RationalDamping(), False))
            e = disp.calculate(Z, X, c, p, cutoff=cut, r4r2=r4, rvdw=rv)
            what = f"{s} {m} {dt} {form} charge dependent {qdep}"
            need(np.allclose(e.numpy(), 0.5) and e.dtype == dt, f"{what}: energies of user-defined terms are not added up: {e}")
            n_, x_, kw = seen["cn"]
            need(torch.equal(n_, Z) and torch.equal(x_, X) and x_.dtype == dt and kw == dict(flag=3, other="x"), f"{what}: coordination number function got {seen['cn']}")
            t = seen["term"]
            need(torch.equal(t["numbers"], Z) and torch.equal(t["positions"], X), f"{what}: geometry")
            need(all(abs(float(t["param"][a]) - v) < 1e-6 for a, v in p.items()), f"{what}: parameters {t['param']}")
            need(np.allclose(t["cn"], np.array(cn_d3(Z, X) * 0.9), **tol), f"{what}: coordination numbers")
            need(type(t["model"]) is (d4.D4Model if m == "d4" else d4.D4SModel) and torch.equal(t["model"].numbers, Z) and t["model"].dtype == dt, f"{what}: model {t['model']}")
            if qdep:
                need(t["q"] is not None and np.allclose(t["q"], R.dep_q(z, x, float(c), 4.0 if cut is not None else R.CNEEQ), rtol=0, atol=1e-8 if dt is D else 1e-3), f"{what}: charges {t['q']}")
            need(np.allclose(t["r4r2"], np.array(r4 if r4 is not None else R.T["r4r2"][np.array(z)]), **tol) and t["r4r2"].dtype == dt, f"{what}: r4r2")
            need(np.allclose(t["rvdw"], np.array(rv if rv is not None else R.T["rvdw"][np.ix_(z, z)]), **tol), f"{what}: rvdw")
            cc = [float(v) for v in (t["cutoff"].disp2, t["cutoff"].disp3, t["cutoff"].cn, t["cutoff"].cn_eeq)]
            need(cc == ([7.0, 5.0, 20.0, 4.0] if cut is not None else [60.0, 40.0, 30.0, 25.0]), f"{what}: cutoffs {cc}")
            res.states += 2
            res.transitions += 2
            res.see(what, t["cn"], t["r4r2"])
        if dt is D:
            q = torch.linspace(-0.3, 0.2, len(z), dtype=D)
            disp = Disp(m, cn_fn=cnf, dtype=dt)
            disp.register(Probe(RationalDamping(), True))
            disp.calculate(Z, X, c, p, q=q)
            need(torch.equal(seen["term"]["q"], q), f"{s} {m}: explicit charges are not handed to the terms as given")
            need(seen["cn"][2] == {}, f"{s} {m}: options {seen['cn'][2]}")
            for k, ref in (("pairs", None),):
                class Dm(RationalDamping):
                    def __call__(self, distances, radii, order, *a, **kw):
                        seen.setdefault("orders", []).append(order)
                        seen["kw"] = kw
                        seen["r"], seen["r0"] = distances, radii
                        return super().__call__(distances, radii, order, *a, **kw)

                seen["orders"] = []
                d4.dftd4(Z, X, c, p, model=m, q=q, damping_function=Dm())
                need({6, 8} <= set(seen["orders"]) <= {6, 8, 10}, f"{s}: orders {seen['orders']}")
                off = ~np.eye(len(z), dtype=bool)
                need(np.allclose(np.array(seen["r"])[off], R.dist(x)[off], rtol=1e-9), f"{s}: distances handed to the damping function")
                r4d = R.T["r4r2"][np.array(z)]
                need(np.allclose(np.array(seen["r0"])[off], 3 * np.outer(r4d, r4d)[off], rtol=1e-6), f"{s}: radii handed to the damping function")
                need(all(float(seen["kw"][a]) == p[a] for a in ("a1", "a2")), f"{s}: parameters handed to the damping function {seen['kw']}")
                res.see(s, m, str(sorted(set(seen["orders"]))))


# -- what the callables return is used ---------------------------------------------------------
def own_model(base, name, f):
    """Model whose method `name` returns f times the built-in result."""
    def method(self, *a, **k):
        r = getattr(base, name)(self, *a, **k)
        return tuple(t * f for t in r) if isinstance(r, tuple) else r * f

    return type("D4Mine", (base,), {name: method})


SINGLE = ["H2O", "NaCl2-", "AuPtH", "water2", "HCN"]
PAIRS = [("H2O", "NaCl2-"), ("HCN", "AuPtH"), ("He", "water2")]
PU = dict(s6=1.0, s8=1.1, s9=0.9, a1=0.41, a2=4.9, alp=14.0)


def parts(names, m, atm, **kw):
    """Reference energies of the two terms, padded."""
    n = max(len(SYS[s][0]) for s in names)
    e2, e3 = np.zeros((len(names), n)), np.zeros((len(names), n))
    for i, s in enumerate(names):
        z, x, c = SYS[s]
        k = {a: v(z, x) if callable(v) else v for a, v in kw.items()}
        e2[i, :len(z)] = R.energy(z, x, c, PU, model=m, terms="2", **k)
        e3[i, :len(z)] = R.energy(z, x, c, PU, model=m, terms="3", atm=atm, **k)
    return e2, e3


def used(names, m, res):
    n = max(len(SYS[s][0]) for s in names)
    Z = torch.zeros(len(names), n, dtype=torch.long)
    X = torch.zeros(len(names), n, 3, dtype=D)
    for i, s in enumerate(names):
        z, x, _ = SYS[s]
        Z[i, :len(z)] = torch.tensor(z)
        X[i, :len(z)] = torch.tensor(np.array(x, float))
    C = torch.tensor([float(SYS[s][2]) for s in names], dtype=D)
    if len(names) == 1:
        Z, X, C = Z[0], X[0], C[0]
    base = d4.D4Model if m == "d4" else d4.D4SModel

    def energies(model=m, cn_fn=cn_d4, count=erf_count, damp=None, q=None):
        """All ways to use these callables -> (name, energies, kind of three-body term)."""
        kw = {} if damp is None else dict(damping_function=damp)
        yield "dftd4", d4.dftd4(Z, X, C, PU, model=model, cn_function=cn_fn, counting_function=count, **kw), "approx"
        for cls, a in ((DispD4, "approx"), (DispD4Exact, "exact")):
            c = cls(model, cn_fn=cn_fn, cn_fn_kwargs=dict(counting_function=count), dtype=D)
            if damp is not None:
                c.deregister(TwoBodyTerm())
                c.register(TwoBodyTerm(damping_fn=damp))
            yield cls.__name__, c.calculate(Z, X, C, PU), a

    def compare(what, it, f2, f3, **kw):
        for name, e, a in it:
            e2, e3 = parts(names, m, a, **kw)
            want = f2 * e2 + f3[a] * e3
            if len(names) == 1:
                want = want[0]
            need(np.allclose(e.detach().numpy(), want, rtol=1e-8, atol=1e-15), f"{names} {m} {name}: what {what} returns is not used: {e.tolist()} instead of {want.tolist()}")
            res.states += 1
            res.transitions += 1
            res.see(str(names), m, what, name, e)

    def model(name, f):
        return own_model(base, name, f)(Z, dtype=D)

    compare("get_atomic_c6", energies(model("get_atomic_c6", 1.7)), 1.7, dict(approx=1.7 ** 1.5, exact=1.0))
    compare("weight_references", energies(model("weight_references", 1.3)), 1.69, dict(approx=1.3 ** 3, exact=1.3 ** 3))
    compare("get_weighted_pols", energies(model("get_weighted_pols", 1.4)), 1.0, dict(approx=1.0, exact=1.4 ** 3))

    class Mine(RationalDamping):
        def __call__(self, *a, **k):
            return super().__call__(*a, **k) * 1.6

    compare("the damping function", energies(damp=Mine()), 1.6, dict(approx=1.0, exact=1.0))

    def cn_fn(numbers, positions, **k):
        return cn_d3(numbers, positions) * 0.9

    compare("the coordination number function", energies(cn_fn=cn_fn), 1.0, dict(approx=1.0, exact=1.0), cn=lambda z, x: R.dep_cn(z, x, cn_fn))

    def count(*a, **k):
        return erf_count(*a, **k) * 0.8

    compare("the counting function", energies(count=count), 1.0, dict(approx=1.0, exact=1.0), cn=lambda z, x: R.dep_cn(z, x, lambda *a: cn_d4(*a, counting_function=count)))

    class T(TwoBodyTerm):
        def calculate(self, *a, **k):
            return super().calculate(*a, **k) * 2.5

    for cls, a, bse in ((DispD4, "approx", D4ATMApprox), (DispD4Exact, "exact", D4ATMExact)):
        class A(bse):
            def get_c9(self, *a, **k):
                return super().get_c9(*a, **k) * 1.9

        for terms, f2, f3 in (((T, A), 2.5, 1.9), ((A, T, A), 2.5, 3.8), ((T, T), 5.0, 0.0), ((bse, A), 0.0, 2.9), ((), 0.0, 0.0)):
            c = Disp(m, dtype=D)
            for t in terms:
                c.register(t())
            compare(f"terms {[t.__name__ for t in terms]}", [("Disp", c.calculate(Z, X, C, PU), a)], f2, {a: f3})
    # attached to the graph, nothing copied, parameters of the user's own
    pp = {k: torch.tensor(v, dtype=D, requires_grad=True) for k, v in dict(PU, mine=1.25).items()}
    pp["text"] = "as given"
    Y = X.clone().requires_grad_(True)
    r4, rv = torch.full(Z.shape, 2.5, dtype=D, requires_grad=True), torch.full((*Z.shape, Z.shape[-1]), 5.5, dtype=D, requires_grad=True)
    q = torch.full(Z.shape, 0.1, dtype=D, requires_grad=True)
    seen = {}

    class G(DispTerm):
        def calculate(self, **k):
            seen.update(k)
            return k["cn"] * k["q"] * k["r4r2"] + k["rvdw"].sum(-1) * k["param"]["mine"] * k["param"]["s6"] + k["positions"].sum(-1) + k["model"].get_atomic_c6(k["model"].weight_references(k["cn"], k["q"])).sum(-1) * 0

    c = Disp(m, dtype=D)
    c.register(G(RationalDamping(), True))
    for given in (q, None):
        e = c.calculate(Z, Y, C, pp, r4r2=r4, rvdw=rv, q=given)
        qq = seen["q"]
        ref = cn_d4(Z, Y) * qq * r4 + rv.sum(-1) * pp["mine"] * pp["s6"] + Y.sum(-1)
        need(torch.allclose(e, ref, rtol=1e-10, atol=1e-12), f"{names} {m}: a user-defined term got other values")
        need(set(pp) <= set(seen["param"]) and seen["param"]["text"] == "as given", f"{names} {m}: parameters {sorted(seen['param'])} instead of {sorted(pp)}")
        leaves = [Y, r4, rv, pp["mine"], pp["s6"]] + ([q] if given is not None else [])
        got = torch.autograd.grad(e.sum(), leaves, retain_graph=True, allow_unused=True)
        want = torch.autograd.grad(ref.sum(), leaves, retain_graph=True)
        for i, (a, b) in enumerate(zip(got, want)):
            need(a is not None and torch.allclose(a, b, rtol=1e-8, atol=1e-10), f"{names} {m}: argument {i} of a user-defined term is not attached to the graph of the caller's tensor")
        if given is None:
            need(qq.requires_grad, f"{names} {m}: charges handed to a term are not attached to the graph")
        else:
            need(torch.equal(qq, q), f"{names} {m}: charges handed to a term are not those given")
        res.see(str(names), m, "graph", given is None, e)


def evaluate(case, res):
    kind = case[0]
    if kind == "used":
        return used(case[1], case[2], res)
    if kind == "args":
        return args_case(case[1], case[2], res)
    if kind == "deep":
        a, b, c = case[1]
        for cfg in ("dftd4", "disp"):
            go(lambda: nested(cfg, a, None, run_outer("batch", b, run_outer("exact", c, run_op("e_h2o_f32")))), res, (case, cfg), 4)
        return
    cfg, k = case[1:3]
    ref = _REF[cfg, k]
    if kind == "calls":
        need(isinstance(ref, (tuple, list)) and len(ref) == 2 and isinstance(ref[1], int), f"{cfg} with a {k} callable fails: {ref}")
        need(ref[1] > 0, f"{cfg}: the {k} callable is never called")
        need(all(np.isfinite(a).all() and np.abs(a).max() > 0 for a in ref[0]), f"{cfg} {k}: {ref[0]}")
        if k in ("cn", "count", "damp", "model", "hook") and cfg != "exact":  # these only repeat what is built in
            r, _ = _REF[cfg, "hook"]
            need(np.allclose(ref[0][0], r[0], rtol=1e-9, atol=1e-15), f"{cfg}: a {k} callable that repeats the built-in one changes the energy")
        res.see(case[1:], ref[0])
        return
    n = ref[1] if isinstance(ref, (tuple, list)) and len(ref) == 2 and isinstance(ref[1], int) else 0
    if kind == "fail":
        for at in range(n):
            go(lambda: failing(cfg, k, at), res, (case, at), 8)
            for exc in ERRORS:
                go(lambda: failing(cfg, k, at, exc), res, (case, at, exc.__name__), 2)
    elif kind == "op":
        for o in case[3]:
            if not usable(cfg, k, o):
                continue
            go(lambda: nested(cfg, k, None, run_op(o)), res, (case[:3], o))
            if o in c07.CORE:
                for at in range(n):
                    go(lambda: nested(cfg, k, at, run_op(o)), res, (case[:3], o, at))
    elif kind == "two":
        for o in case[4]:
            if usable(cfg, k, o) and usable(cfg, k, case[3]):
                def inner(w, o=o):
                    return run_op(case[3])(w) or run_op(o)(w)

                go(lambda: nested(cfg, k, None, inner), res, (case[:4], o), 3)
    else:
        for cfg2, k2 in itertools.product(OUTER, KINDS):
            if cfg == "disp" and k in ("term", "atm") and cfg2 == "disp":
                continue  # the same calculator with the extra term
            go(lambda: nested(cfg, k, None, run_outer(cfg2, k2)), res, (case, cfg2, k2))
