"""C05: cutoffs select exactly the pairs and triples in range."""
from __future__ import annotations

import itertools
from functools import lru_cache

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d3 import D3ATM
from tad_dftd4.dispersion.d4 import D4ATMApprox, DispD4, DispD4Exact
from tad_dftd4.dispersion.threebody import get_atm_dispersion
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2

from .. import refmodel as R
from ..drive import D, DAMP, F, num, pack, pos
from ..harness import Known, need, need_close
from ..systems import PARAMS, SYS, TPSSH

PROPERTY = "C05"
LEVEL = "exploration"
RULE = (
    "For each system every region of each cutoff relative to the sorted pair distances (below, exactly at, between, above) is enumerated, as a full product of the "
    "two- and three-body cutoffs; the energy is constant inside a region, so the enumeration is complete for the system. Oracle: explicit pair and triple "
    "loops of the NumPy model. Non-trivial: non-zero energy; distinct: energies differ in 8 digits."
)
BOUNDS = {
    "quick": "9 integer geometries (3-5 atoms, exact distances up to 120 bohr) x all disp2 regions x all disp3 regions x {d4, d4s}; 6 parameter sets; 8 calculators; 4 cutoff forms; "
    "batches; default cutoffs probed at 60 and 40 bohr +-1e-6; stand-alone functions; cn and cn_eeq regions of 5 molecules",
    "thorough": "as quick with all calculators and parameter sets for every region, plus batches of all pairs of geometries x all region pairs",
}
ASSUMPTIONS = ["EEQ charges and D4 coordination numbers of the dependencies are correct for the cutoff handed to them"]
CHUNK = 16

GEO = {
    # integer coordinates, integer (exactly representable) or clearly separated distances
    "345": ([18, 10, 36], [[0, 0, 0], [3, 0, 0], [0, 4, 0]]),
    "51213": ([6, 36, 8], [[0, 0, 0], [5, 0, 0], [0, 12, 0]]),
    "line": ([10, 18, 2], [[0, 0, 0], [0, 0, 4], [0, 0, 10]]),
    "rect": ([18, 10, 36, 54], [[0, 0, 0], [6, 0, 0], [0, 8, 0], [6, 8, 0]]),
    "box4": ([36, 6, 1, 18], [[0, 0, 0], [8, 0, 0], [0, 15, 0], [0, 0, 6]]),
    "five": ([18, 10, 36, 2, 16], [[0, 0, 0], [9, 0, 0], [0, 12, 0], [9, 12, 0], [0, 0, 20]]),
    "far": ([36, 54, 18], [[0, 0, 0], [45, 0, 0], [0, 60, 0]]),
    "wide": ([54, 36, 18, 54], [[0, 0, 0], [72, 0, 0], [0, 96, 0], [72, 96, 0]]),  # everything beyond the default cutoffs
    "obtuse": ([18, 36, 54], [[0, 0, 0], [7, 0, 0], [-5, 0, 1]]),
}
PSETS = {
    "tpssh": TPSSH,
    "s6": dict(s6=1.0, s8=0.0, s9=0.0, a1=0.4, a2=5.0),
    "s8": dict(s6=0.0, s8=1.0, s9=0.0, a1=0.4, a2=5.0),
    "s10": dict(s6=0.0, s8=0.0, s9=0.0, s10=1.0, a1=0.4, a2=5.0),
    "s9": dict(s6=0.0, s8=0.0, s9=1.0, a1=0.4, a2=5.0),
    "all": PARAMS["s10"],
}
CALC = ("dftd4", "DispD4", "exact", "disp+d3atm", "zero", "op", "givenq", "float32")


def regions(xyz):
    """Representatives of all regions of a cutoff: [(value, exact?)]."""
    r = R.dist(xyz)
    u = sorted({round(v, 9) for v in r[np.triu_indices(len(xyz), 1)]})
    out = [0.0, u[0] * 0.5]
    for i, v in enumerate(u):
        if abs(v - round(v)) < 1e-9:
            out += [round(v) - 1e-6, float(round(v)), round(v) + 1e-6]
        else:
            out += [v - 1e-6, v + 1e-6]
        if i + 1 < len(u):
            out.append(0.5 * (v + u[i + 1]))
    return out + [u[-1] + 3.0]


def short(xyz):
    """One representative below, at/above each distance."""
    r = R.dist(xyz)
    u = sorted({round(v, 9) for v in r[np.triu_indices(len(xyz), 1)]})
    out = [0.0]
    for v in u:
        out.append(float(round(v)) if abs(v - round(v)) < 1e-9 else v + 1e-6)
    return out + [1e6, float("inf")]


def space(tier):
    out = []
    for g, (z, x) in GEO.items():
        for a, b in itertools.product(regions(x), regions(x)):
            for m in ("d4", "d4s"):
                out.append(("reg", g, a, b, m, "tpssh", "dftd4", "float"))
        for a, b in itertools.product(short(x), short(x)):
            for p in PSETS:
                for c in CALC:
                    if tier == "quick" and not (p in ("tpssh", "all") or c == "dftd4"):
                        continue
                    for m in ("d4", "d4s"):
                        out.append(("reg", g, a, b, m, p, c, "float"))
        for a, b in itertools.product(short(x)[:-2], short(x)[:-2]):
            if a == int(a) and b == int(b):
                for f in ("int", "tensor", "tensor32", "default-dtype", "converted"):
                    out.append(("reg", g, a, b, "d4", "all", "dftd4", f))
        for a in regions(x):
            for ps in ("s6", "s8", "s10", "all"):
                for dm in ("rational", "op", "zero"):
                    out.append(("alone2", g, a, ps, dm))
            out.append(("alone3", g, a))
    names = list(GEO)
    for a, b in itertools.product(names, names):
        ra = sorted(set(short(GEO[a][1]) + short(GEO[b][1])))
        pairs = itertools.product(ra, ra) if tier == "thorough" else [(v, w) for v, w in zip(ra, ra[::-1])] + [(v, v) for v in ra]
        for v, w in pairs:
            for m in ("d4", "d4s"):
                out.append(("batch", a, b, v, w, m))
    for d in (-1e-6, 0.0, 1e-6, -5.0, 5.0):
        for c in ("dftd4", "DispD4", "exact", "Cutoff()", "alone2"):
            for m in ("d4", "d4s"):
                out.append(("def2", d, c, m))
                for side in (0, 1, 2):
                    out.append(("def3", d, c, m, side))
    for s in ("H2O", "NH4+", "UF3Cs", "mix8", "C6H6"):
        for c in regions(SYS[s][1]):
            for m in ("d4", "d4s"):
                out.append(("cneeq", s, c, m))
            out.append(("cneeq-props", s, c, None))
        for c in short(SYS[s][1])[:-1]:
            out.append(("cn", s, c))
    for k in range(3):
        out.append(("attrs", k))
    return out


def mkcut(a, b, form, dt, **kw):
    if form == "int":
        return d4.Cutoff(int(a), int(b), dtype=dt, **kw)
    if form == "tensor":
        return d4.Cutoff(disp2=torch.tensor(a, dtype=dt), disp3=torch.tensor(b, dtype=dt), dtype=dt, **kw)
    if form == "tensor32":
        return d4.Cutoff(disp2=torch.tensor(a, dtype=F), disp3=torch.tensor(b, dtype=F), dtype=dt, **kw)
    if form == "default-dtype":
        return d4.Cutoff(disp2=a, disp3=b, **kw)
    if form == "converted":
        return d4.Cutoff(disp2=a, disp3=b, dtype=F, **kw).type(torch.double)
    return d4.Cutoff(disp2=a, disp3=b, dtype=dt, **kw)


ZP = dict(rs6=1.1, rs8=1.0, a1=0.4, a2=5.0, alp=14.0)


@lru_cache(maxsize=None)
def depq(g):
    z, x = GEO[g]
    return R.dep_q(z, x, 0.0)


def want(g, a, b, m, p, c):
    z, x = GEO[g]
    kw = dict(model=m, cut=dict(disp2=a, disp3=b), q=depq(g))
    pp = PSETS[p]
    if c == "exact":
        kw["atm"] = "exact"
    elif c == "disp+d3atm":
        kw["atm"] = "d3"
    elif c == "zero":
        kw["kind"] = "zero"
        pp = {**{k: v for k, v in pp.items() if k != "s10"}, **ZP}
    elif c == "op":
        kw["kind"] = "op"
        pp = {**{k: v for k, v in pp.items() if k != "s10"}, "bet": 2.0}
    elif c == "givenq":
        kw["q"] = np.linspace(-0.3, 0.4, len(z))
    return R.energy(z, x, 0.0, pp, **kw), pp


def evaluate(case, res):
    kind = case[0]
    if kind == "reg":
        _, g, a, b, m, p, c, form = case
        z, x = GEO[g]
        dt = F if c == "float32" else D
        ref, pp = want(g, a, b, m, p, c)
        Z, X = num(z), pos(x, dt)
        cut = mkcut(a, b, form, dt)
        if c in ("dftd4", "float32"):
            e = d4.dftd4(Z, X, 0, pp, model=m, cutoff=cut)
        elif c == "givenq":
            e = d4.dftd4(Z, X, 0, pp, model=m, cutoff=cut, q=torch.linspace(-0.3, 0.4, len(z), dtype=D))
        elif c == "DispD4":
            e = DispD4(model=m, dtype=D).calculate(Z, X, 0, pp, cutoff=cut)
        elif c == "exact":
            e = DispD4Exact(model=m, dtype=D).calculate(Z, X, 0, pp, cutoff=cut)
        elif c == "disp+d3atm":
            d = Disp(model=m, dtype=D)
            d.register(TwoBodyTerm())
            d.register(D3ATM())
            e = d.calculate(Z, X, 0, pp, cutoff=cut)
        else:
            e = d4.dftd4(Z, X, 0, pp, model=m, cutoff=cut, damping_function=DAMP[c]())
        if dt == F:
            if any(np.isfinite(v) and v != int(v) for v in (a, b)):
                return
            need_close(e, ref, f"{case}", rtol=2e-4, scale=100 * np.abs(ref).max(), atol=1e-12 if g in ("far", "wide") else 1e-9)
        else:
            need_close(e, ref, f"{case}", rtol=1e-8, atol=1e-20 if g in ("far", "wide") else 1e-15)
        res.see(e)
    elif kind == "alone2":
        _, g, a, ps, dm = case
        z, x = GEO[g]
        pp = dict(PSETS[ps])
        if dm != "rational":
            pp.pop("s10", None)
            pp.update(ZP if dm == "zero" else dict(bet=2.0))
        c6 = R.atomic_c6(z, R.weights(z, R.dep_cn(z, x), depq(g)))
        mat = R.two_body_matrix(z, x, pp, c6, a, dm)
        args = (num(z), pos(x), pp, torch.tensor(c6, dtype=D), torch.tensor(R.T["r4r2"][z], dtype=D),
                torch.tensor(R.T["rvdw"][np.ix_(z, z)], dtype=D))
        got = dispersion2(*args, damping_function=DAMP[dm](), cutoff=torch.tensor(a, dtype=D), as_matrix=True)
        need_close(got, -mat, f"{case} matrix", rtol=1e-9)
        got = dispersion2(*args, damping_function=DAMP[dm](), cutoff=torch.tensor(a, dtype=D))
        need_close(got, -0.5 * mat.sum(1), f"{case}", rtol=1e-9)
        res.see(got)
    elif kind == "alone3":
        _, g, a = case
        z, x = GEO[g]
        n = len(z)
        c9 = 10.0 + np.add.outer(np.add.outer(np.arange(n), np.arange(n)), np.arange(n)) ** 2
        rad = 4.0 + 0.1 * np.add.outer(np.arange(n), np.arange(n))
        got = get_atm_dispersion(num(z), pos(x), torch.tensor(c9, dtype=D), torch.tensor(rad, dtype=D), torch.tensor(a, dtype=D))
        need_close(got, R.atm_energy(x, c9, rad, a), f"{case}", rtol=1e-9)
        res.see(got)
    elif kind == "batch":
        _, ga, gb, v, w, m = case
        zs, mask = pack([GEO[ga][0], GEO[gb][0]])
        xs, _ = pack([GEO[ga][1], GEO[gb][1]], [0.0, 0.0, 0.0])
        e = d4.dftd4(num(zs), pos(xs), 0, PSETS["all"], model=m, cutoff=mkcut(v, w, "float", D))
        for i, g in enumerate((ga, gb)):
            need_close(e[i][torch.tensor(mask[i])], want(g, v, w, m, "all", "dftd4")[0], f"{case} row {i}", rtol=1e-8, atol=1e-15)
        res.see(e)
    elif kind in ("def2", "def3"):
        d, c, m = case[1:4]
        if kind == "def2":
            z, x = [36, 54], [[0, 0, 0], [0, 60.0 + d, 0]]
        else:
            # triangle with one side at 40 + d and the other two (24, 32 / 25, 25) well inside
            side = case[4]
            s = 40.0 + d
            pts = [[0, 0, 0], [s, 0, 0], [14.4, 19.2, 0]]
            z = [36, 54, 18]
            x = [None] * 3
            for i, pnt in zip(((0, 1, 2), (1, 2, 0), (0, 2, 1))[side], pts):
                x[i] = pnt
        q = np.zeros(len(z))
        Z, X, Q = num(z), pos(x), torch.zeros(len(z), dtype=D)
        p = PSETS["s6"] if kind == "def2" else PSETS["s9"]
        kw = dict(model=m, q=q, cut=dict(disp2=60.0, disp3=40.0))
        if c == "dftd4":
            e = d4.dftd4(Z, X, 0, p, model=m, q=Q)
        elif c == "Cutoff()":
            e = d4.dftd4(Z, X, 0, p, model=m, q=Q, cutoff=d4.Cutoff())
        elif c == "alone2":
            if kind == "def3":
                return
            c6 = R.atomic_c6(z, R.weights(z, R.dep_cn(z, x), q))
            e = dispersion2(Z, X, p, torch.tensor(c6, dtype=D), torch.tensor(R.T["r4r2"][z], dtype=D))
            kw["model"] = "d4"
        else:
            e = (DispD4 if c == "DispD4" else DispD4Exact)(model=m, dtype=D).calculate(Z, X, 0, p, q=Q)
            if c == "exact":
                kw["atm"] = "exact"
        ref = R.energy(z, x, 0.0, p, **kw)
        need(bool(np.abs(ref).max() > 0) == (d <= 0), "reference does not straddle the default cutoff")
        need_close(e, ref, f"{case}", rtol=1e-8)
        res.see(e, d)
    elif kind == "cneeq":
        _, s, c, m = case
        z, x, ch = SYS[s]
        e = d4.dftd4(num(z), pos(x), ch, TPSSH, model=m, cutoff=d4.Cutoff(cn_eeq=c, dtype=D))
        ref = R.energy(z, x, float(ch), TPSSH, model=m, q=R.dep_q(z, x, ch, c))
        need_close(e, ref, f"{case}", rtol=1e-8)
        res.see(e)
    elif kind == "cneeq-props":
        _, s, c, _m = case
        z, x, ch = SYS[s]
        _, q, c6, _ = d4.get_properties(num(z), pos(x), ch, cutoff=d4.Cutoff(cn_eeq=c, dtype=D))
        rq = R.dep_q(z, x, ch, c)
        need_close(q, rq, f"{case} charges", rtol=1e-8, atol=1e-12)
        need_close(c6, R.atomic_c6(z, R.weights(z, R.dep_cn(z, x), rq)), f"{case} c6", rtol=1e-8)
        res.see(q)
    elif kind == "cn":
        _, s, c = case
        z, x, ch = SYS[s]
        n = len(z)
        r = R.dist(x)
        cn = np.zeros(n)
        for i in range(n):
            for j in range(n):
                if i != j and r[i, j] <= c:
                    cn[i] += R.dep_cn([z[i], z[j]], [x[i], x[j]])[0]
        ref = R.energy(z, x, float(ch), TPSSH, cn=cn)
        full = R.energy(z, x, float(ch), TPSSH)
        e = d4.dftd4(num(z), pos(x), ch, TPSSH, cutoff=d4.Cutoff(cn=c, dtype=D)).numpy()
        res.see(e, c)
        if np.abs(e - ref).max() <= 1e-8 * np.abs(ref).max():
            return
        if np.abs(e - full).max() <= 1e-8 * np.abs(full).max():
            raise Known("cn-cutoff-ignored", f"Cutoff(cn={c}) has no effect on {s}")
        need_close(e, ref, f"{case}", rtol=1e-8)
    else:
        k = case[1]
        for dt in (D, F):
            c = d4.Cutoff(dtype=dt) if k else d4.Cutoff()
            need([float(v) for v in (c.disp2, c.disp3, c.cn, c.cn_eeq)] == [60.0, 40.0, 30.0, 25.0], f"default cutoffs {c.disp2, c.disp3, c.cn, c.cn_eeq}")
            c = d4.Cutoff(1, 2.5, torch.tensor(3.0), 4, dtype=dt)
            need([float(v) for v in (c.disp2, c.disp3, c.cn, c.cn_eeq)] == [1.0, 2.5, 3.0, 4.0], "positional cutoffs")
            for nm in ("disp2", "disp3", "cn", "cn_eeq"):
                c = d4.Cutoff(**{nm: 7}, dtype=dt)
                v = {o: float(getattr(c, o)) for o in ("disp2", "disp3", "cn", "cn_eeq")}
                w = dict(disp2=60.0, disp3=40.0, cn=30.0, cn_eeq=25.0)
                w[nm] = 7.0
                need(v == w, f"Cutoff({nm}=7) -> {v}")
                need(getattr(c, nm).dtype == dt, "dtype of the cutoff")
        res.see(k + 1)
