"""C21: atomic data tables."""
from __future__ import annotations

import itertools

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4 import data
from tad_dftd4.data.wfpair import WFPAIR
from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact
from tad_dftd4.reference import d4 as refd4
from tad_dftd4.reference.d4 import charge_eeq, charge_gfn2

from .. import refmodel as R
from ..drive import D, F, num, pos
from ..harness import Violation, need, need_close
from ..systems import SYS, TPSSH

PROPERTY = "C21"
LEVEL = "exploration"
RULE = (
    "Every entry of every table in every precision and default type against the frozen copy; every element driven through the public interfaces so that each of its reference systems, charges, "
    "expectation value and weighting factors decides a result; every unsupported element x interface. Distinct: table rows and results with 8 digits."
)
BOUNDS = {
    "quick": "16 tables, all entries, 3 precisions x 2 default types; 103 (86) elements x 2 reference charge sets x 2 models x all reference systems x 7 charges x 2 precisions; 15+18 unsupported elements x 12 interfaces x 3 positions; tables re-read after 30 public calls and after the caller overwrote returned copies",
    "thorough": "as quick, plus the reference C6 of all 103^2 element pairs x 2 reference charge sets in both precisions",
}
CHUNK = 4
MODTAB = [(refd4, n) for n in ("refcovcn", "refalpha", "refascale", "refscount", "refsys", "refc", "secscale", "secalpha")] + [(charge_eeq, "clsq"), (charge_eeq, "clsh"), (charge_gfn2, "refq"), (charge_gfn2, "refh")]
GOLD = dict(refq="gfnq", refh="gfnh")


def space(tier):
    out = [("module", i) for i in range(len(MODTAB))]
    out += [("func", n, dd) for n in ("R4R2", "WFPAIR", "GAM", "ZEFF", "COV") for dd in "fd"]
    for z, ref, m in itertools.product(range(0, 104), ("eeq", "gfn2"), ("d4", "d4s")):
        if ref == "eeq" or z <= 86:
            out.append(("element", z, ref, m))
    for z in range(1, 104):
        out.append(("pairs", z))
    for z in [*range(87, 122), 127, 200]:
        out.append(("unsupported", z))
    out.append(("after",))
    if tier == "thorough":
        for z in range(1, 104):
            out.append(("rc6", z))
    return out


def table(n):
    return getattr(*MODTAB[n])


def check_module(i):
    mod, n = MODTAB[i]
    t = getattr(mod, n)
    g = R.T[GOLD.get(n, n)]
    need(tuple(t.shape) == g.shape, f"{n}: shape {tuple(t.shape)}")
    need_close(t.to(D), g, n, rtol=1e-12)
    need(not t.requires_grad, f"{n} requires gradients")
    return t


def funcs(n):
    if n == "R4R2":
        return data.R4R2, R.T["r4r2"]
    if n == "WFPAIR":
        return WFPAIR, R.T["wfpair"]
    if n == "GAM":
        return data.GAM, R.T["gam"]
    if n == "COV":
        return data.COV_D3, None
    return None, None


def evaluate(case, res):
    kind = case[0]
    if kind == "module":
        t = check_module(case[1])
        n = MODTAB[case[1]][1]
        for row in t:
            res.see(n, row)
        if n == "refc":
            need(bool((t[1:].sum(-1) > 0).all()) and not t[0].any(), "reference systems per element")
            need(bool(((t == 0) | (t == 1) | (t == 3)).all()), "Gaussian counts")
        if n == "refcovcn":
            need(bool((t >= 0).all()) and t.dtype == D, "reference coordination numbers are not double precision")
    elif kind == "func":
        _, n, dd = case
        torch.set_default_dtype(F if dd == "f" else D)
        try:
            if n == "ZEFF":
                z = data.ZEFF()
                need_close(z.to(D), R.T["zeff"], n, rtol=1e-12)
                need(not z.is_floating_point(), f"{n} {z.dtype}")
                res.see(z)
                return
            fn, g = funcs(n)
            for dt in (F, D, None, torch.float16):
                if dt is None and n in ("GAM", "COV"):
                    continue  # default type is the dependency's choice
                want = torch.get_default_dtype() if dt is None else dt
                for kw in ({}, dict(device=torch.device("cpu")), dict(device=None)):
                    t = fn(dtype=dt, **kw) if dt is not None else fn(**kw)
                    need(t.dtype == want, f"{n} {dt}: {t.dtype}")
                    tol = {F: 2e-6, D: 1e-12, torch.float16: 4e-3}[want]
                    if g is not None:
                        need(tuple(t.shape) == g.shape, f"{n}: shape {tuple(t.shape)}")
                        need_close(t.to(D), g, f"{n} {dt} {kw}", rtol=tol)
                    need(bool(torch.isfinite(t).all()) and not t.requires_grad, f"{n}: not finite")
                    for row in t[:104]:
                        res.see(n, row)
                    # copies belong to the caller
                    t.mul_(2.0)
                    u = fn(dtype=dt)
                    if g is not None:
                        need_close(u.to(D), g, f"{n} {dt} after the caller changed a copy", rtol=tol)
            if n == "WFPAIR":
                t = fn(dtype=D)
                need(bool((t == t.mT).all()), "weighting factors are not symmetric")
                need(bool((t[1:, 1:] > 0).all()) and not t[0].any() and not t[:, 0].any(), "weighting factors")
            if n == "R4R2":
                t = fn(dtype=D)
                need(bool((t[1:] > 0).all()) and float(t[0]) == 0.0, "expectation values")
        finally:
            torch.set_default_dtype(F)
    elif kind == "element":
        _, z, ref, m = case
        n = R.T["refcovcn"][z]
        qs = (-1.0, -0.4, 0.0, 0.3, 0.9, 1.7, -2.5)
        for dt in (D, F):
            zz = num([[z] * 7] * 7)
            cn = torch.tensor(np.tile(n, (7, 1)), dtype=dt)
            q = torch.tensor(np.tile(np.array(qs)[:, None], (1, 7)), dtype=dt)
            mod = (d4.D4Model if m == "d4" else d4.D4SModel)(zz, ref_charges=ref, dtype=dt)
            g = mod.weight_references(cn, q)
            for i, qv in enumerate(qs):
                w = R.weights([z] * 7, n, np.full(7, qv), m, ref)
                tol = dict(rtol=1e-9, atol=1e-13) if dt == D else dict(rtol=5e-4, atol=1e-6)
                need_close(g[i], w, f"{case} {dt} charge {qv}: weights", **tol)
                res.see(g[i])
            al = R.alpha_ref(z, ref)
            one = (d4.D4Model if m == "d4" else d4.D4SModel)(num([z]), ref_charges=ref, dtype=dt)
            for r in range(7):
                u = torch.zeros(1, 7, dtype=dt)
                u[0, r] = 1.0
                p = one.get_weighted_pols(u if m == "d4" else u.unsqueeze(0))
                need_close(p[0], al[r], f"{case} {dt} polarizability of reference {r}", rtol=1e-9 if dt == D else 5e-5, atol=1e-6 * max(al.max(), 1e-30) if dt == F else 0.0)
                res.see(p)
            if z == 0:
                need(not g.any() and not one.rc6.any(), f"{case}: the dummy element interacts")
            else:
                need(bool((al.sum() > 0)) and bool((g.sum(-1) > 0).all()), f"{case}: no reference system")
    elif kind == "pairs":
        z1 = case[1]
        z = num([[z1, k] for k in range(0, 104)])
        x = pos([[[0, 0, 0], [2.0, 3.0, 4.1]]] * 104)
        zq = torch.zeros(104, 2, dtype=D)
        zq[:, 0] = 0.2
        zq[1:, 1] = -0.1
        for m in ("d4", "d4s"):
            e = d4.dftd4(z, x, 0, TPSSH, model=m, q=zq).numpy()
            need(not e[0].any(), f"{case} {m}: the dummy element interacts")
            for k in range(1, 104):
                w = R.energy([z1, k], x[k].numpy(), 0, TPSSH, model=m, q=zq[k].numpy())
                need_close(e[k], w, f"{case} {m} partner {k}", rtol=1e-8)
                res.see(m, e[k])
        r4 = DispD4(dtype=D).get_r4r2(z)
        need_close(r4, R.T["r4r2"][z.numpy()], f"{case} r4r2", rtol=1e-12)
        need_close(DispD4(dtype=D).get_rvdw(z), np.stack([R.T["rvdw"][np.ix_(t, t)] for t in z.numpy()]), f"{case} rvdw", rtol=1e-12)
        need_close(d4.D4SModel(z, dtype=D).wf, np.stack([R.T["wfpair"][np.ix_(t, t)] for t in z.numpy()]), f"{case} weighting factors", rtol=1e-12)
    elif kind == "unsupported":
        z1 = case[1]
        for zs in ([z1, 1], [6, z1], [z1]):
            z = num(zs)
            x = pos([[0, 0, 0], [0.5, 0, 3.0]][: len(zs)])
            q = torch.zeros(len(zs), dtype=D)
            calls = dict(
                gfn=lambda: d4.D4Model(z, ref_charges="gfn2", dtype=D), gfns=lambda: d4.D4SModel(z, ref_charges="gfn2", dtype=D),
                gfne=lambda: DispD4(model_kwargs=dict(ref_charges="gfn2"), dtype=D).calculate(z, x, 0, TPSSH),
                gfnw=lambda: d4.D4Model(z, ref_charges="gfn2", rc6=torch.ones(len(zs), len(zs), 7, 7, dtype=D), dtype=D).weight_references(),
            )
            if z1 > 103:
                calls |= dict(
                    e=lambda: d4.dftd4(z, x, 0, TPSSH), es=lambda: d4.dftd4(z, x, 0, TPSSH, model="d4s"), eq=lambda: d4.dftd4(z, x, 0, TPSSH, q=q),
                    props=lambda: d4.get_properties(z, x), calc=lambda: DispD4(dtype=D).calculate(z, x, 0, TPSSH), exact=lambda: DispD4Exact(dtype=D).calculate(z, x, 0, TPSSH),
                    model=lambda: d4.D4Model(z, dtype=D), models=lambda: d4.D4SModel(z, dtype=D), batch=lambda: d4.dftd4(torch.stack([z, z * 0 + 1]), torch.stack([x, x]), 0, TPSSH),
                    weights=lambda: d4.D4Model(z, rc6=torch.ones(len(zs), len(zs), 7, 7, dtype=D), dtype=D).weight_references(),
                    r4r2=lambda: d4.dftd4(z, x, 0, TPSSH, q=q, r4r2=q + 2.0, rvdw=torch.ones(len(zs), len(zs), dtype=D)),
                )
            for n, f in calls.items():
                try:
                    r = f()
                except Exception:
                    res.see(str((zs, n)))
                    continue
                raise Violation(f"{case} {zs} {n}: accepted, result {r}")
    elif kind == "after":
        from ..histops import OPS, World

        w = World()
        for n, f in OPS.items():
            f(w)
            for i in range(len(MODTAB)):
                check_module(i)
            need_close(data.R4R2(dtype=D), R.T["r4r2"], f"after {n}", rtol=1e-12)
            need_close(WFPAIR(dtype=D), R.T["wfpair"], f"after {n}", rtol=1e-12)
            res.see(n)
    else:
        z1 = case[1]
        for ref, dt in itertools.product(("eeq", "gfn2"), (D, F)):
            top = 103 if ref == "eeq" else 86
            if z1 > top:
                continue
            zs = [[z1, k] for k in range(1, top + 1)]
            rc = d4.D4Model(num(zs), ref_charges=ref, dtype=dt).rc6
            for k, t in enumerate(zs):
                need_close(rc[k], R.rc6(t, ref), f"{case} {ref} {dt} {t}", rtol=1e-9 if dt == D else 1e-4)
                res.see(rc[k])
