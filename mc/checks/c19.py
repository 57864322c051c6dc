"""C19: linearity in the scaling parameters, size consistency, long range."""
from __future__ import annotations

import itertools

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.damping import OptimisedPowerDamping, ZeroDamping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d4 import D4ATMApprox, DispD4, DispD4Exact
from tad_dftd4.dispersion.d3 import D3ATM
from tad_dftd4.dispersion.twobody import TwoBodyTerm

from .. import refmodel as R
from ..drive import D, num, pack, pos
from ..harness import need, need_close
from ..systems import SYS, big_cluster

PROPERTY = "C19"
LEVEL = "exploration"
RULE = (
    "Full grid of scaling factors x systems x interfaces against the combination of the four unit energies (which are compared with the reference model and checked for sign); all ordered pairs "
    "of fragments far apart against the separate energies; all element pairs at several long distances against -s6 C6/R^6; every isolated atom. Non-trivial: non-zero energy; distinct: 8 digits."
)
BOUNDS = {
    "quick": "20 systems and a padded batch x 9 interfaces x 4^4 scaling vectors (numbers and tensors) and each factor alone at 11 magnitudes 1e-9..1e6; 20^2 fragment pairs and 6^3 triples x 2 models; 103*104/2 element pairs x 3 distances x 2 models; 103 atoms x 5 charges x 9 interfaces",
    "thorough": "as quick with 6^4 scaling vectors, 12^3 fragment triples and clusters up to 66 atoms",
}
CHUNK = 2
IF = ("d4", "d4s", "calc", "exact", "exacts", "zero", "op", "inst", "d3atm")
WIDE = (1e-9, 1e-4, 0.03, 5.0, 12.0, 60.0, 1e3, 1e6, -0.02, -12.0, -1e4)
KEYS = ("s6", "s8", "s9", "s10")
BASE = dict(a1=0.43, a2=4.7, alp=14.5)
ZBASE = dict(rs6=1.1, rs8=1.02, alp=14.0, a1=0.43, a2=4.7)
OBASE = dict(a1=0.43, a2=4.7, bet=1.5, alp=14.5)


def space(tier):
    out = []
    g = (0.0, 1.0, -0.5, 2.3) + ((0.07, 100.0) if tier == "thorough" else ())
    for s, i in itertools.product(list(SYS) + ["batch", "cluster24"] + (["cluster66"] if tier == "thorough" else []), IF):
        for a in g:
            out.append(("lin", s, i, a, g))
    for a, b in itertools.product(SYS, SYS):
        out.append(("frag", (a, b)))
    B = ["H2O", "He", "UF3Cs", "NaCl2-", "HCN", "AuPtH", "NH4+", "LrNo", "water2", "Ar3", "CO", "mix8"]
    for t in itertools.product(B[: 6 if tier == "quick" else 12], repeat=3):
        out.append(("frag", t))
    for z in range(1, 104):
        out.append(("long", z))
        out.append(("atom", z))
    return out


def load(s):
    if s == "batch":
        names = ("H2O", "UF3Cs", "He", "mix8")
        zz, _ = pack([SYS[n][0] for n in names])
        xx, _ = pack([[list(map(float, r)) for r in SYS[n][1]] for n in names], fill=[0.0] * 3)
        return num(zz), pos(xx), torch.tensor([float(SYS[n][2]) for n in names], dtype=D), [SYS[n] for n in names]
    if s.startswith("cluster"):
        z, x = big_cluster(int(s[7:]))
        return num(z), pos(x), 0.0, [(z, x, 0)]
    z, x, c = SYS[s]
    return num(z), pos(x), float(c), [SYS[s]]


def call(i, z, x, c, p, **kw):
    if i in ("d4", "d4s"):
        return d4.dftd4(z, x, c, p, model=i, **kw)
    if i == "inst":
        return d4.dftd4(z, x, c, p, model=d4.D4Model(z, ga=2.5, dtype=x.dtype), **kw)
    if i == "zero":
        return d4.dftd4(z, x, c, p, damping_function=ZeroDamping(), **kw)
    if i == "op":
        return d4.dftd4(z, x, c, p, damping_function=OptimisedPowerDamping(), **kw)
    if i == "calc":
        return DispD4(dtype=x.dtype).calculate(z, x, c, p, **kw)
    if i == "d3atm":
        d = Disp("d4", dtype=x.dtype)
        d.register(TwoBodyTerm())
        d.register(D3ATM())
        return d.calculate(z, x, c, p, **kw)
    return DispD4Exact("d4" if i == "exact" else "d4s", dtype=x.dtype).calculate(z, x, c, p, **kw)


def base(i):
    return ZBASE if i == "zero" else OBASE if i == "op" else BASE


def refparts(i, z, x, c, p):
    return R.energy(z, x, c, p, model="d4s" if i in ("d4s", "exacts") else "d4", atm="exact" if "exact" in i else "d3" if i == "d3atm" else "approx",
                    kind=i if i in ("zero", "op") else "rational", ga=2.5 if i == "inst" else R.GA0)


def evaluate(case, res):
    kind = case[0]
    if kind == "lin":
        _, s, i, a, g = case
        z, x, c, sy = load(s)
        keys = KEYS if i not in ("zero", "op") else KEYS[:3]
        b = base(i)
        unit = {}
        for k in keys:
            p = {n: float(n == k) for n in keys if n != "s10" or k == "s10"}
            unit[k] = call(i, z, x, c, {**b, **p}).numpy()
            u = unit[k].reshape(len(sy), -1)
            for r, (zz, xx, cc) in enumerate(sy):
                n = len(zz)
                want = refparts(i, zz, xx, cc, {**b, **p})
                need_close(u[r, :n], want, f"{case} unit {k} system {r}", rtol=1e-8, atol=1e-14)
                if k != "s9" and n > 1 and s != "far":
                    need(bool((u[r, :n] < 0).all()), f"{case} {k}: not attractive {u[r]}")
                if n < 2 or (k == "s9" and n < 3):
                    need(not u[r].any(), f"{case} {k}: energy without partners")
        scale = sum(np.abs(u).max() for u in unit.values())
        for t in itertools.product(g, repeat=len(keys) - 1):
            v = dict(zip(keys, (a, *t)))
            w = sum(v[k] * unit[k] for k in keys)
            p = {k: torch.tensor(f, dtype=D) for k, f in v.items()} if (t.index(max(t)) + len(sy)) % 2 else dict(v)
            e = call(i, z, x, c, {**b, **p})
            need_close(e, w, f"{case} {v}", rtol=1e-10, atol=1e-12 * max(abs(f) for f in v.values()) * scale)
            if "s10" in keys and v["s10"] == 0.0:
                p.pop("s10")
                e = call(i, z, x, c, {**b, **p})
                need_close(e, w, f"{case} {v} without s10", rtol=1e-10, atol=1e-12 * max(abs(f) for f in v.values()) * scale)
            res.see(e)
        # large, small and tiny factors, one at a time
        if a == 1.0:
            for k, f in itertools.product(keys, WIDE):
                for form in (float, lambda t: torch.tensor(t, dtype=D), lambda t: torch.tensor(t, dtype=D, requires_grad=True)):
                    v = {n: 0.6 for n in keys}
                    v[k] = f
                    w = sum(v[n] * unit[n] for n in keys)
                    e = call(i, z, x, c, {**b, **{n: form(t) for n, t in v.items()}})
                    need_close(e, w, f"{case} {v}", rtol=1e-10, atol=1e-12 * max(abs(t) for t in v.values()) * scale)
                    res.see(e)
        # dropping a term from the calculator = factor zero; missing factors are one
        if a == 0.0 and i in ("d4", "d4s", "d3atm"):
            atm = D3ATM if i == "d3atm" else D4ATMApprox
            v = dict(s6=0.9, s8=1.4, s9=0.8)
            for drop in ("2", "3"):
                d = Disp("d4s" if i == "d4s" else "d4", dtype=D)
                d.register(TwoBodyTerm() if drop == "3" else atm())
                p = dict(v, s9=0.0) if drop == "3" else dict(v, s6=0.0, s8=0.0)
                e1, e2 = d.calculate(z, x, c, {**b, **v}), call(i, z, x, c, {**b, **p})
                need_close(e1, e2, f"{case} without term {drop}", rtol=1e-10, atol=1e-12 * scale)
        if a == 1.0:
            for sub in itertools.chain.from_iterable(itertools.combinations(("s6", "s8", "s9"), r) for r in range(4)):
                e = call(i, z, x, c, {**b, **{k: 1.0 for k in sub}})
                need_close(e, unit["s6"] + unit["s8"] + unit["s9"], f"{case} only {sub} given", rtol=1e-10, atol=1e-12 * scale)
    elif kind == "frag":
        names = case[1]
        for m in ("d4", "d4s"):
            p = dict(BASE, s6=1.0, s8=1.3, s9=0.9, s10=0.4)
            z, x, q, e = [], [], [], []
            off = np.array([90.0, 70.0, -80.0]) if len(names) == 2 else np.array([0.0, 95.0, 95.0])
            for k, n in enumerate(names):
                zz, xx, c = SYS[n]
                qq = R.dep_q(zz, xx, c)
                z += zz
                o = k * off if len(names) == 2 else [np.zeros(3), off, np.array([95.0, 95.0, 0.0])][k]
                x += (np.array(xx, float) + o).tolist()
                q.append(qq)
                e.append(R.energy(zz, xx, c, p, model=m, q=qq))
                need_close(d4.dftd4(num(zz), pos(xx), 0, p, model=m, q=torch.tensor(qq, dtype=D)), e[-1], f"{case} {m} fragment {k}", rtol=1e-8, atol=1e-14)
            q, e = np.concatenate(q), np.concatenate(e)
            got = d4.dftd4(num(z), pos(x), 0, p, model=m, q=torch.tensor(q, dtype=D))
            need_close(got, e, f"{case} {m}: not additive", rtol=1e-8, atol=1e-13)
            res.see(got)
            # also interleaved
            o = np.argsort([(i * 7) % 11 for i in range(len(z))], kind="stable")
            got = d4.dftd4(num(z)[o], pos(x)[o], 0, p, model=m, q=torch.tensor(q[o], dtype=D))
            need_close(got, e[o], f"{case} {m}: not additive in another order", rtol=1e-8, atol=1e-13)
    elif kind == "long":
        z1 = case[1]
        zs = [[z1, z2] for z2 in range(1, z1 + 1)]
        for m in ("d4", "d4s"):
            gw = [R.weights(t, np.zeros(2), np.zeros(2), m) for t in zs]
            c6 = np.array([R.atomic_c6(t, w)[0, 1] for t, w in zip(zs, gw)])
            q = torch.zeros(len(zs), 2, dtype=D)
            for r in (300.0, 1000.0, 3000.0):
                xs = [[[0, 0, 0], [0, 0.6 * r, 0.8 * r]]] * len(zs)
                cut = d4.Cutoff(disp2=10000.0, dtype=D)
                for p in (dict(a1=0.4, a2=5.0, s6=1.0, s8=0.0, s9=1.0), dict(a1=0.4, a2=5.0, s6=0.7, s8=1.2, s10=1.0)):
                    e = d4.dftd4(num(zs), pos(xs), 0, p, model=m, q=q, cutoff=cut).numpy()
                    qq = np.array([3.0 * R.T["r4r2"][t[0]] * R.T["r4r2"][t[1]] for t in zs])
                    dev = p.get("s8", 1.0) / p["s6"] * qq / r**2 + p.get("s10", 0.0) / p["s6"] * qq**2 * 1.225 / r**4 + ((0.4 * np.sqrt(qq) + 5.0) / r) ** 6 + 1e-8
                    ratio = e.sum(1) / (-p["s6"] * c6 / r**6)
                    need(bool((np.abs(ratio - 1) <= 1.01 * dev).all()), f"{case} {m} R={r}: ratio {ratio[np.argmax(np.abs(ratio - 1) - dev)]}")
                    need_close(e[:, 0], e[:, 1], f"{case} {m} halves", rtol=1e-10)
                    for row in e:
                        res.see(m, row)
    else:
        z1 = case[1]
        for i in IF:
            b = base(i)
            for c in (0, 1, -1, 2, 0.5):
                e = call(i, num([z1]), pos([[0.3, -7.0, 2.0]]), c, {**b, "s6": 1.0, "s8": 1.0, "s9": 1.0})
                need(e.shape == (1,) and float(e.abs().max()) == 0.0, f"{case} {i} charge {c}: {e}")
            zz = [[z1, 0, 0], [0, z1, 0], [0, 0, z1]]
            e = call(i, num(zz), pos([[[0.3, -7.0, 2.0]] * 3] * 3), torch.tensor([0.0, 1.0, -1.0], dtype=D), {**b, "s9": 2.0})
            need(float(e.abs().max()) == 0.0, f"{case} {i} padded: {e}")
            res.see(str((z1, i)))
