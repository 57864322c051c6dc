"""C13: precision follows the input; conversions preserve results."""
from __future__ import annotations

import itertools
from functools import lru_cache

import numpy as np
import torch
from tad_mctc.ncoord import cn_d3, cn_d4, exp_count

import tad_dftd4 as d4
from tad_dftd4.damping import ZeroDamping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d4 import D4ATMApprox, DispD4, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm

from .. import refmodel as R
from ..drive import D, F, model_inst, num, pack, pos
from ..harness import Violation, need, need_close
from ..systems import SYS, TPSSH

PROPERTY = "C13"
LEVEL = "exploration"
RULE = (
    "Full product of position type x default type x kinds of charge, parameters and cutoffs x interface x system, each compared in type and value with the double-precision "
    "reference model; all conversion chains up to the bound on models, cutoffs and calculators, compared with freshly built objects, original re-evaluated afterwards. "
    "Non-trivial: non-zero result; distinct: 8 digits."
)
BOUNDS = {
    "quick": "2 position types x 2 default types x 9 charge kinds (integer and fractional) x 5 parameter kinds x 6 cutoff kinds x 7 interfaces x 3 systems (one padded batch); chains of length <= 2 over 6 conversions for 12 models, 5 cutoffs, 9 calculators, 2 start types, 2 default types",
    "thorough": "as quick with 6 systems and chains of length <= 3",
}
CHUNK = 4

CK = ("int", "float", "tF", "tD", "tI", "t1", "frac", "fracD", "fracF")
FRAC = 0.3
PK = ("float", "int", "tF", "tD", "mix")
XK = ("none", "num", "F", "D", "tensorF", "int")
FN = ("dftd4", "dftd4s", "zero", "disp", "exact", "props", "noparam")
CONV = ("type F", "type D", "to F", "to D", "cpu", "cpu()")
BASE = dict(s6=1.0, s8=1.859, s9=0.75, a1=0.4429, a2=4.6023, s10=0.3, alp=14.1)
ZBASE = dict(s6=1.0, s8=1.2, rs6=1.123, rs8=0.97, alp=14.0)
CUT = dict(disp2=7.5, disp3=6.25, cn_eeq=5.25)
QSYS = ("H2O", "NaCl2-", "batch")
TSYS = QSYS + ("NH4+", "UF3Cs", "AuPtH")
BATCH = ("HCN", "OH-", "LiH")
BCH = 1.0


def space(tier):
    out = []
    for s, fn, dt, dd, x in itertools.product(QSYS if tier == "quick" else TSYS, FN, "fd", "fd", XK):
        out.append(("mix", s, fn, dt, dd, x))
    L = 2 if tier == "quick" else 3
    for m, i, dt, dd in itertools.product(("d4", "d4s"), range(len(MOPT)), "fd", "fd"):
        out.append(("model", m, i, dt, dd, L))
    for k, dt, dd in itertools.product(range(5), "fd", "fd"):
        out.append(("cutoff", k, dt, dd, L))
    for c, dt, dd in itertools.product(range(len(CALCS)), "fd", "fd"):
        out.append(("calc", c, dt, dd, L))
    for dt in "fd":
        out.append(("default", dt))
    return out


T = {"f": F, "d": D}


class default_dtype:
    def __init__(self, dt):
        self.dt = dt

    def __enter__(self):
        self.old = torch.get_default_dtype()
        torch.set_default_dtype(self.dt)

    def __exit__(self, *a):
        torch.set_default_dtype(self.old)


def f32(p):
    return {k: float(np.float32(v)) for k, v in p.items()}


@lru_cache(maxsize=None)
def reference(s, fn, pk, cut, frac=0.0):
    """Reference energies (or properties) for the parameter values as the code receives them."""
    base = ZBASE if fn in ("zero", "noparam") else BASE
    if fn == "noparam":
        base = dict(rs6=1.1, rs8=1.0)
    p = f32(base) if pk == "tF" else dict(base)
    if pk == "mix":
        p = {k: (float(np.float32(v)) if i % 3 == 1 else v) for i, (k, v) in enumerate(base.items())}
    names = BATCH if s == "batch" else (s,)
    out = []
    for n in names:
        z, x, c = SYS[n]
        c = (BCH if s == "batch" else float(c)) + (FRAC if frac else 0.0)
        if frac == 2:
            c = float(np.float32(c))
        kw = dict(cut=CUT) if cut else {}
        if fn == "props":
            cn, q = R.dep_cn(z, x), R.dep_q(z, x, c, CUT["cn_eeq"] if cut else R.CNEEQ)
            gw = R.weights(z, cn, q)
            out.append((cn, q, R.atomic_c6(z, gw), R.weighted_pols(z, gw)[:, 0]))
        else:
            out.append(R.energy(z, x, c, p, model="d4s" if fn == "dftd4s" else "d4", kind="zero" if fn in ("zero", "noparam") else "rational",
                                atm="exact" if fn == "exact" else "approx", **kw))
    return out


def padded(rs, s):
    if s != "batch":
        return rs[0]
    n = max(len(r) for r in rs)
    return np.stack([np.pad(r, [(0, n - len(r))] * r.ndim) for r in rs])


def system(s, dt):
    if s != "batch":
        z, x, c = SYS[s]
        return num(z), pos(x, dt), float(c)
    zz, _ = pack([SYS[n][0] for n in BATCH])
    xx, _ = pack([[list(map(float, r)) for r in SYS[n][1]] for n in BATCH], fill=[0.0, 0.0, 0.0])
    return num(zz), pos(xx, dt), BCH


def mkcharge(kind, c, dt, z):
    if kind == "int":
        return int(c)
    if kind == "float":
        return float(c)
    if kind == "tI":
        return torch.tensor(int(c))
    if kind == "t1":
        return torch.full(z.shape[:-1], c, dtype=dt)
    if kind == "frac":
        return c + FRAC
    if kind.startswith("frac"):
        c = c + FRAC
    return torch.tensor(c, dtype=F if kind.endswith("F") else D)


def mkparam(kind, p):
    if kind == "float":
        return dict(p)
    if kind == "int":
        return {k: int(v) if float(v).is_integer() else v for k, v in p.items()}
    if kind == "mix":
        return {k: (v, torch.tensor(v, dtype=F), torch.tensor(v, dtype=D))[i % 3] for i, (k, v) in enumerate(p.items())}
    return {k: torch.tensor(v, dtype=F if kind == "tF" else D) for k, v in p.items()}


def mkcut(kind):
    if kind == "none":
        return None
    if kind == "num":
        return d4.Cutoff(**CUT)
    if kind == "tensorF":
        return d4.Cutoff(**{k: torch.tensor(v, dtype=F) for k, v in CUT.items()})
    if kind == "int":
        return d4.Cutoff(disp2=60, disp3=40, cn_eeq=25, cn=30)
    return d4.Cutoff(**CUT, dtype=F if kind == "F" else D)


def tol(dt):
    return dict(rtol=1e-9, atol=1e-14) if dt == D else dict(rtol=2e-4, atol=2e-8)


def evaluate(case, res):
    if case[0] == "mix":
        _, s, fn, dts, dds, x = case
        dt = T[dts]
        z, xyz, ch = system(s, dt)
        for ck in CK:
            for pk in PK:
                if fn == "props" and pk != "float":
                    continue
                what = f"{case} charge {ck} param {pk}"
                with default_dtype(T[dds]):
                    c = mkcharge(ck, ch, dt, z)
                    cut = mkcut(x)
                    base = dict(rs6=1.1, rs8=1.0) if fn == "noparam" else ZBASE if fn == "zero" else BASE
                    p = mkparam(pk, base)
                    if fn in ("dftd4", "dftd4s"):
                        r = [d4.dftd4(z, xyz, c, p, model=fn[3:], cutoff=cut)]
                    elif fn in ("zero", "noparam"):
                        r = [d4.dftd4(z, xyz, c, p, damping_function=ZeroDamping(), cutoff=cut)]
                    elif fn in ("disp", "exact"):
                        r = [(DispD4 if fn == "disp" else DispD4Exact)(dtype=dt).calculate(z, xyz, c, p, cutoff=cut)]
                    else:
                        r = d4.get_properties(z, xyz, c, cutoff=cut)
                    need(torch.get_default_dtype() == T[dds], f"{what}: default type changed")
                ref = reference(s, fn, pk, x not in ("none", "int"), dict(frac=1, fracD=1, fracF=2).get(ck, 0))
                want = [padded(ref, s)] if fn != "props" else [padded([q[i] for q in ref], s) for i in range(4)]
                for i, (a, b) in enumerate(zip(r, want)):
                    need(a.dtype == dt, f"{what}: result {i} has type {a.dtype}")
                    t = tol(dt)
                    if dt == F and fn == "props":
                        t = dict(rtol=1e-4, atol=2e-5)
                    elif dt == F:
                        t = dict(rtol=2e-4, atol=2e-4 * np.abs(b).max())
                    need_close(a, b, f"{what} result {i}", **t)
                res.see(r)
    elif case[0] == "default":
        # objects without an explicit type take the default type
        dt = T[case[1]]
        z, xyz, ch = system("H2O", dt)
        with default_dtype(dt):
            for m in (d4.D4Model(z), d4.D4SModel(z), d4.Cutoff(), DispD4(), DispD4Exact(), Disp()):
                need(m.dtype == dt, f"{type(m).__name__} has {m.dtype} under default {dt}")
            need(d4.D4Model(z).rc6.dtype == dt and d4.D4Model(z).weight_references().dtype == dt, "model tensors")
            need(d4.D4SModel(z).rc6.dtype == dt and d4.D4SModel(z).weight_references().dtype == dt, "model tensors")
            e = DispD4().calculate(z, xyz, 0, TPSSH)
            need(e.dtype == dt, "calculator")
            res.see(e)
    else:
        # conversion chains
        kind, k = case[0], case[1]
        dt0, dd, L = T[case[-3]], T[case[-2]], case[-1]
        chains = [c for n in range(1, L + 1) for c in itertools.product(CONV, repeat=n)]
        with default_dtype(dd):
            make, observe = dict(model=model_kit, cutoff=cutoff_kit, calc=calc_kit)[kind](*case[1:-3])
            fresh = {t: observe(make(t), t) for t in (F, D)}
            if kind == "model":
                for t in (F, D):
                    absolute(k, case[2], fresh[t], t, f"{case}: {t}")
            obj = make(dt0)
            first = observe(obj, dt0)
            need_same(first, fresh[dt0], f"{case}: fresh object", dt0, tight=True)
            for ch in chains:
                o, t, seen32 = obj, dt0, dt0 == F
                for c in ch:
                    n = o
                    if c == "cpu":
                        n = o.to(device=torch.device("cpu"))
                    elif c == "cpu()":
                        n = o.cpu()
                    else:
                        t = F if c.endswith("F") else D
                        n = o.type(t) if c.startswith("type") else o.to(dtype=t)
                    o = n
                    seen32 = seen32 or t == F
                what = f"{case} chain {ch}"
                need(o.dtype == t, f"{what}: type {o.dtype}")
                need(type(o) is type(obj), f"{what}: class {type(o)}")
                need_same(observe(o, t), fresh[t], what, F if seen32 else t)
                res.see(observe(o, t)[0], str(ch))
                for bad in (torch.int32, torch.long, torch.bool, torch.complex64, torch.uint8):
                    for f in (lambda: o.type(bad), lambda: o.to(dtype=bad)):
                        try:
                            f()
                        except Exception:
                            pass
                        else:
                            raise Violation(f"{what}: conversion to {bad} accepted")
            need(obj.dtype == dt0, f"{case}: original type changed to {obj.dtype}")
            need_same(observe(obj, dt0), first, f"{case}: original after all conversions", dt0, tight=True)


def need_same(a, b, what, dt, tight=False):
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(y, torch.Tensor):
            need(x.dtype == y.dtype and x.shape == y.shape, f"{what}: observation {i} {x.dtype} {tuple(x.shape)} != {y.dtype} {tuple(y.shape)}")
            if tight:
                need_close(x, y, f"{what}: observation {i}", rtol=1e-12 if y.dtype == D else 1e-6)
            else:
                need_close(x, y, f"{what}: observation {i}", **(dict(rtol=1e-10, atol=1e-14) if dt == D else dict(rtol=5e-4, atol=2e-4 * float(y.double().abs().max()))))
        else:
            need(x == y, f"{what}: observation {i} {x} != {y}")


# -- kits: constructor for a type, observation of an object -------------------
MOPT = (
    dict(), dict(ga=2.1, gc=1.7), dict(wf=4.3), dict(ref_charges="gfn2"), dict(rc6=True), dict(batch=True),
)


SC = 4.0 / 3.0


def absolute(key, i, obs, t, what):
    """A model observed in type t against the reference model with the same options."""
    o = dict(MOPT[i])
    if o.pop("batch", False):
        return
    z = SYS["NaCl2-"][0]
    sc = SC if o.pop("rc6", False) else 1.0
    cn, q = (np.array(v if t == D else np.float32(v), float) for v in ([0.8, 1.9, 0.4], [-0.7, 0.6, -0.9]))
    ref = o.pop("ref_charges", "eeq")
    gw = R.weights(z, cn, q, model=key, ref=ref, **o)
    o.pop("wf", None)
    if sc != 1.0:
        o["ga"] = 1.0
    want = [gw, R.atomic_c6(z, gw, ref=ref, **o) * sc, R.rc6(z, ref=ref, **o) * sc]
    for a, b, n in zip((obs[0], obs[2], obs[5]), want, ("weights", "c6", "rc6")):
        need(a.dtype == t, f"{what}: {n} has type {a.dtype}")
        need_close(a, b, f"{what}: {n} against the reference", **(dict(rtol=1e-9, atol=1e-13) if t == D else dict(rtol=5e-4, atol=1e-4 * np.abs(b).max())))


def model_kit(key, i):
    o = dict(MOPT[i])
    z = num(SYS["NaCl2-"][0]) if not o.pop("batch", False) else num([[17, 11, 17], [8, 1, 0]])
    rc = o.pop("rc6", False)

    def make(t):
        kw = dict(o)
        if rc:
            kw["rc6"] = model_inst(key, z, t, ga=1.0).rc6 * SC
        if "wf" in kw and key == "d4s":
            kw["wf"] = torch.full((*z.shape, z.shape[-1]), kw["wf"], dtype=t)
        return model_inst(key, z, t, **kw)

    def observe(m, t):
        cn = torch.tensor([0.8, 1.9, 0.4], dtype=t).expand(z.shape)
        q = torch.tensor([-0.7, 0.6, -0.9], dtype=t).expand(z.shape)
        g, dq = m.weight_references(cn, q, with_dgwdq=True)
        x = pos(SYS["NaCl2-"][1], t).expand(*z.shape, 3)
        e = d4.dftd4(z, x, -1, TPSSH, model=m, q=q)
        return [g, dq, m.get_atomic_c6(g), m.get_weighted_pols(g), m.get_polarizabilities(g), m.rc6, m.wf, e,
                m.numbers.is_floating_point(), m.numbers.tolist(), float(m.ga), float(m.gc), m.ref_charges, str(m.dtype), m.weight_references()]

    return make, observe


CUTS = (dict(), dict(disp2=7.5, disp3=5.5, cn=9.25, cn_eeq=4.5), dict(disp2=8, disp3=5), dict(disp2="t", disp3="t"), dict(disp2="t", cn_eeq=3.5))


def cutoff_kit(k):
    def make(t):
        return d4.Cutoff(**{n: torch.tensor(6.5, dtype=t) if v == "t" else v for n, v in CUTS[k].items()}, dtype=t)

    def observe(c, t):
        z, x, ch = system("UF3Cs", t)
        return [d4.dftd4(z, x, ch, TPSSH, cutoff=c), c.disp2, c.disp3, c.cn, c.cn_eeq, str(c.dtype)]

    return make, observe


def _reg(d):
    d.register(TwoBodyTerm(charge_dependent=False))
    d.register(D4ATMApprox(charge_dependent=True))
    return d


CALCS = (
    lambda t, z: DispD4(dtype=t),
    lambda t, z: DispD4(model="d4s", dtype=t),
    lambda t, z: DispD4Exact(model="D4S", dtype=t),
    lambda t, z: DispD4(model_kwargs=dict(ga=2.1, wf=4.3), dtype=t),
    lambda t, z: DispD4(model=d4.D4Model(z, ga=2.6, dtype=t), dtype=t),
    lambda t, z: DispD4Exact(model=d4.D4SModel(z, dtype=t), dtype=t),
    lambda t, z: DispD4(cn_fn=cn_d3, dtype=t),
    lambda t, z: DispD4(cn_fn=cn_d4, cn_fn_kwargs=dict(counting_function=exp_count), dtype=t),
    lambda t, z: _reg(Disp(model="d4s", dtype=t)),
)


def calc_kit(c):
    z0, _, _ = system("NaCl2-", D)

    def make(t):
        return CALCS[c](t, z0)

    def observe(d, t):
        z, x, ch = system("NaCl2-", t)
        return [d.calculate(z, x, ch, TPSSH), d.calculate(z, x * 1.2, 0, BASE), d.get_model(z).rc6, len(d.terms), str(d.dtype)]

    return make, observe
