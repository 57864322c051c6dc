"""C17: equivalent ways of choosing the model."""
from __future__ import annotations

import itertools

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.dispersion import Disp
from tad_dftd4.model.d4s import D4SDebug
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm

from .. import refmodel as R
from ..drive import D, F, num, pack, pos
from ..harness import need, need_close
from ..systems import PARAMS, SYS, TPSSH, big_cluster

PROPERTY = "C17"
LEVEL = "exploration"
RULE = (
    "Full product of systems x model x option sets x selection routes (every letter case of the name, keyword options, fresh / preloaded / reused / converted instances, functional interface and "
    "calculators), each compared with the reference model; D4S with uniform factors against D4 for every form of the factor; all systems from the elements whose pair factors are all 6. "
    "Non-trivial: non-zero energy; distinct: 8 digits."
)
BOUNDS = {
    "quick": "20 systems and 3 padded batches x {d4, d4s} x 24 option sets (and 72 more with options 0 for 6 systems) x up to 17 routes; 7 uniform factors x 5 forms x 20 systems; all ordered triples over the largest set of elements with pair factor 6; clusters of 24 and 40 atoms; 5^3 geometry sequences per instance",
    "thorough": "as quick with clusters up to 90 atoms, 6 further parameter sets and 5^4 geometry sequences",
}
CHUNK = 2
GA, GC, WF, REF = (None, 2.5), (None, 1.4), (None, 4.5, "t"), ("eeq", "gfn2")
BATCHES = (("H2O", "NH4+"), ("UF3Cs", "He", "OH-"), ("AuPtH", "mix8", "HCN"))
ZSYS = ("H2O", "NH4+", "UF3Cs", "AuPtH", "mix8", BATCHES[1])
CLS = {"d4": d4.D4Model, "d4s": d4.D4SModel}


def optsets():
    for ga, gc, wf, ref in itertools.product(GA, GC, WF, REF):
        yield dict(ga=ga, gc=gc, wf=wf, ref=ref)
    # options that are zero are options too
    for ga, gc, wf, ref in itertools.product((*GA, 0.0, 0), (*GC, 0.0), (*WF, 0.0), REF):
        if any(not isinstance(o, str) and o is not None and o == 0 for o in (ga, gc, wf)):
            yield dict(ga=ga, gc=gc, wf=wf, ref=ref)


def six():
    """A maximal set of elements whose pair factors are all 6 (greedy, deterministic)."""
    w = R.T["wfpair"]
    out = []
    for z in range(1, 104):
        if w[z, z] == 6.0 and all(w[z, y] == 6.0 for y in out):
            out.append(z)
    return out


def space(tier):
    out = []
    ps = ["tpssh"] if tier == "quick" else list(PARAMS)[:7]
    for s, m, i, p in itertools.product(list(SYS) + list(BATCHES), ("d4", "d4s"), range(len(list(optsets()))), ps):
        if i >= 24 and s not in ZSYS:
            continue
        zs = SYS[s][0] if isinstance(s, str) else [z for n in s for z in SYS[n][0]]
        if list(optsets())[i]["ref"] == "gfn2" and max(zs) > 86:
            continue
        out.append(("routes", s, m, i, p))
    for n in (24, 40) + ((66, 90) if tier == "thorough" else ()):
        out += [("big", n, m) for m in ("d4", "d4s")]
    for s, w in itertools.product(list(SYS) + list(BATCHES), (6, 4.0, 0.5, 12.5, 6.0, 1.0, 30.0)):
        out.append(("uniform", s, w))
    S = six()
    for a, b in itertools.product(S, S):
        out.append(("six", a, b))
    for m, s in itertools.product(("d4", "d4s"), ("H2O", "NaCl2-", "mix8", "UF3Cs")):
        out.append(("reuse", m, s, 3 if tier == "quick" else 4))
    return out


def spellings(m):
    return ["".join(t) for t in itertools.product(*[(c.lower(), c.upper()) if c.isalpha() else (c,) for c in m])]


def kwargs(o, z):
    """Keyword options of a model, and of the reference model."""
    kw, rk = {}, {}
    for k in ("ga", "gc"):
        if o[k] is not None:
            kw[k] = rk[k] = o[k]
    if o["wf"] is not None:
        kw["wf"] = torch.tensor(3.25, dtype=D) if o["wf"] == "t" else o["wf"]
        rk["wf"] = float(kw["wf"])
    if o["ref"] != "eeq":
        kw["ref_charges"] = rk["ref"] = o["ref"]
    return kw, rk


def load(s):
    """numbers, positions, charge tensor, list of (numbers, positions, charge), masks"""
    if isinstance(s, str):
        z, x, c = SYS[s]
        return num(z), pos(x), torch.tensor(float(c), dtype=D), [(z, x, c)], [np.ones(len(z), bool)]
    sy = [SYS[n] for n in s]
    zz, mask = pack([q[0] for q in sy], layout="middle")
    xx, _ = pack([[list(map(float, r)) for r in q[1]] for q in sy], fill=[0.0] * 3, layout="middle")
    return num(zz), pos(xx), torch.tensor([float(q[2]) for q in sy], dtype=D), sy, list(mask)


def reference(sy, mask, p, m, rk, atm="approx"):
    rows = []
    for (z, x, c), mk in zip(sy, mask):
        r = np.zeros(len(mk))
        r[mk] = R.energy(z, x, c, p, model=m, atm=atm, **rk)
        rows.append(r)
    return rows[0] if len(rows) == 1 else np.array(rows)


def plain(model, kw, exact=False):
    d = Disp(model=model, model_kwargs=kw, dtype=D)
    d.register(TwoBodyTerm())
    d.register(D4ATMExact() if exact else D4ATMApprox())
    return d


def routes(m, z, kw):
    """(label, function of (z, x, c, p) -> energy, exact C9?)"""
    cls = CLS[m]
    f = d4.dftd4
    if not kw:
        for n in spellings(m):
            yield f"name {n}", lambda z, x, c, p, n=n: f(z, x, c, p, model=n), False
        if m == "d4":
            yield "no model", lambda z, x, c, p: f(z, x, c, p), False
            yield "model None", lambda z, x, c, p: f(z, x, c, p, model=None), False
            yield "calculator default", lambda z, x, c, p: DispD4(dtype=D).calculate(z, x, c, p), False
    yield "instance", lambda z, x, c, p: f(z, x, c, p, model=cls(z, dtype=D, **kw)), False
    yield "instance keyword numbers", lambda z, x, c, p: f(z, x, c, p, model=cls(numbers=z, device=None, dtype=D, **kw)), False
    pre = cls(z, dtype=D, **kw)
    yield "instance with rc6", lambda z, x, c, p: f(z, x, c, p, model=cls(z, rc6=pre.rc6.clone(), dtype=D, **kw)), False
    yield "instance with reference rc6", lambda z, x, c, p: f(z, x, c, p, model=cls(z, rc6=pre.rc6, wf=pre.wf.clone(), dtype=D, **{k: v for k, v in kw.items() if k != "wf"})), False
    yield "converted instance", lambda z, x, c, p: f(z, x, c, p, model=cls(z, dtype=D, **kw).to(torch.device("cpu")).type(D)), False
    for n in (spellings(m)[-1], m):
        yield f"options, calculator {n}", lambda z, x, c, p, n=n: DispD4(model=n, model_kwargs=kw, dtype=D).calculate(z, x, c, p), False
    yield "options, plain", lambda z, x, c, p: plain(m, kw).calculate(z, x, c, p), False
    yield "options with rc6", lambda z, x, c, p: plain(m.upper(), {**kw, "rc6": pre.rc6}).calculate(z, x, c, p), False
    yield "plain with instance", lambda z, x, c, p: plain(cls(z, dtype=D, **kw), None).calculate(z, x, c, p), False
    yield "calculator with instance", lambda z, x, c, p: DispD4(cls(z, dtype=D, **kw), dtype=D).calculate(z, x, c, p), False
    yield "get_model", lambda z, x, c, p: f(z, x, c, p, model=DispD4(m, kw, dtype=D).get_model(z)), False
    yield "exact, options", lambda z, x, c, p: DispD4Exact(m, kw, dtype=D).calculate(z, x, c, p), True
    yield "exact, instance", lambda z, x, c, p: DispD4Exact(cls(z, dtype=D, **kw), dtype=D).calculate(z, x, c, p), True
    yield "exact plain", lambda z, x, c, p: plain(m, kw, True).calculate(z, x, c, p), True


def same_kw(a, b):
    return a.keys() == b.keys() and all(float(a[k]) == float(b[k]) if k != "ref_charges" else a[k] == b[k] for k in a)


def evaluate(case, res):
    kind = case[0]
    if kind in ("routes", "big"):
        if kind == "routes":
            _, s, m, i, pn = case
            z, x, c, sy, mask = load(s)
            p = PARAMS[pn]
            o = list(optsets())[i]
        else:
            _, n, m = case
            zz, xx = big_cluster(n)
            z, x, c, sy, mask = num(zz), pos(xx), torch.tensor(1.0, dtype=D), [(zz, xx, 1)], [np.ones(n, bool)]
            p, o = TPSSH, dict(ga=2.7, gc=None, wf=4.5, ref="eeq")
        kw, rk = kwargs(o, z)
        want = {}
        for label, fn, exact in routes(m, z, kw):
            if kind == "big" and exact:
                continue
            if exact not in want:
                want[exact] = reference(sy, mask, p, m, rk, "exact" if exact else "approx")
            keep = dict(kw)
            e = fn(z, x, c, p)
            need_close(e, want[exact], f"{case} {label}", rtol=1e-8, atol=1e-13)
            need(same_kw(kw, keep), f"{case} {label}: options were changed")
            res.see(label, e)
        # options are kept by the instance
        mi = CLS[m](z, dtype=D, **kw)
        need(mi.ga == kw.get("ga", R.GA0) and mi.gc == kw.get("gc", R.GC0) and mi.ref_charges == o["ref"] and torch.equal(mi.numbers, z), f"{case}: options of the instance")
    elif kind == "uniform":
        _, s, w = case
        z, x, c, sy, mask = load(s)
        want = reference(sy, mask, TPSSH, "d4", dict(wf=float(w)))
        shp = (*z.shape, z.shape[-1])
        forms = dict(number=w, t0=torch.tensor(float(w), dtype=D), f32=torch.tensor(float(w), dtype=F), full=torch.full(shp, float(w), dtype=D), view=torch.tensor(float(w), dtype=D).expand(shp))
        for f, v in forms.items():
            e = d4.dftd4(z, x, c, TPSSH, model=d4.D4SModel(z, wf=v, dtype=D))
            need_close(e, want, f"{case} d4s factor as {f}", rtol=1e-8, atol=1e-13)
            res.see(f, e)
            if f in ("number", "t0", "f32"):
                e = d4.dftd4(z, x, c, TPSSH, model=d4.D4Model(z, wf=v, dtype=D))
                need_close(e, want, f"{case} d4 factor as {f}", rtol=1e-8, atol=1e-13)
                e = DispD4("d4s", dict(wf=v), dtype=D).calculate(z, x, c, TPSSH)
                need_close(e, want, f"{case} d4s option as {f}", rtol=1e-8, atol=1e-13)
        if float(w) == 6.0:
            need_close(d4.dftd4(z, x, c, TPSSH), want, f"{case} default d4", rtol=1e-8, atol=1e-13)
            need_close(d4.dftd4(z, x, c, TPSSH, model=D4SDebug(z, dtype=D)), want, f"{case} D4S with all factors at the default of D4", rtol=1e-8, atol=1e-13)
        # the tabulated factors, passed explicitly
        tab = torch.tensor(R.T["wfpair"], dtype=D)[z.unsqueeze(-1), z.unsqueeze(-2)]
        a, b = d4.dftd4(z, x, c, TPSSH, model=d4.D4SModel(z, wf=tab, dtype=D)), d4.dftd4(z, x, c, TPSSH, model="d4s")
        need_close(a, b, f"{case} tabulated factors", rtol=1e-10, atol=1e-15)
    elif kind == "six":
        _, a, b = case
        S = six()
        zs = [[a, b, k] for k in S]
        xs = [[[0, 0, 0], [0.3, 4.2 + 0.1 * (i % 5), 0.1], [3.6, 0.2, 1.0 + 0.05 * i]] for i in range(len(S))]
        ch = torch.tensor([(i % 3) - 1.0 for i in range(len(S))], dtype=D)
        e4, es = d4.dftd4(num(zs), pos(xs), ch, TPSSH), d4.dftd4(num(zs), pos(xs), ch, TPSSH, model="d4s")
        need_close(es, e4, f"{case}", rtol=1e-9, atol=1e-14)
        res.see(e4)
    else:
        _, m, s, L = case
        zz, xx, c = SYS[s]
        z, inst = num(zz), CLS[m](num(zz), dtype=D)
        geo = [np.array(xx, float) * f for f in (1.0, 1.12, 0.94, 1.6)] + [np.array(xx, float) @ np.diag([1.0, -1.3, 1.1])]
        want = [R.energy(zz, g, c, TPSSH, model=m) for g in geo]
        calc = DispD4(inst, dtype=D)
        for t in itertools.product(range(len(geo)), repeat=L):
            for k, g in enumerate(t):
                e = d4.dftd4(z, pos(geo[g]), c, TPSSH, model=inst) if (k + sum(t)) % 2 else calc.calculate(z, pos(geo[g]), c, TPSSH)
                need_close(e, want[g], f"{case} geometries {t} step {k}", rtol=1e-8, atol=1e-13)
        res.see(e)
        res.evals += len(geo) ** L
