"""C04: rigid motions."""
from __future__ import annotations

import itertools
from functools import lru_cache

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d3 import D3ATM
from tad_dftd4.dispersion.d4 import DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm

from ..drive import D, DAMP, F, num, pack
from ..harness import need, need_close
from ..systems import PARAMS, SYS, big_cluster

PROPERTY = "C04"
LEVEL = "exploration"
RULE = (
    "All 48 signed axis permutations, 40 exact rational rotations and 34 translations on every system x calculators x models; energies and properties "
    "have to be unchanged, the gradient rotated, net force and torque zero. Non-trivial: non-zero outputs; distinct: outputs differ in 8 digits."
)
BOUNDS = {
    "quick": "18 systems x 120 motions x {d4, d4s} for the energy and its gradient; 6 systems x 120 motions x 8 calculators; batches with a different motion per row",
    "thorough": "18 systems x 120 motions x 9 calculators x {d4, d4s}, all pairs of motions in batches of two",
}
CHUNK = 16
ALL = {**SYS, "big40": (*big_cluster(40), 0)}
NAMES = [n for n in ALL if len(ALL[n][0]) > 1]
FEW = ["LiH", "H2O", "NaCl2-", "UF3Cs", "far", "mix8"]
CALC = ("dftd4", "props", "exact", "zero", "mzero", "op", "cutoff", "atm-vdw", "single")


def motions():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = np.zeros((3, 3))
            for i in range(3):
                m[i, p[i]] = s[i]
            out.append((m, np.zeros(3)))
    # rational rotations from integer quaternions (exactly orthogonal over Q)
    qs = [q for q in itertools.product((-1, 0, 1, 2), repeat=4) if 3 <= sum(map(abs, q)) and q > (0, 0, 0, 0)]
    qs = qs[:: max(1, len(qs) // 40)][:40]
    for a, b, c, d in qs:
        n = a * a + b * b + c * c + d * d
        m = np.array([
            [a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
            [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
            [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d],
        ]) / n
        out.append((m, np.array([a, b, d]) * 0.75))
    for t in itertools.product((-1000.0, -3.0, 64.0), repeat=3):
        out.append((np.eye(3), np.array(t)))
    for t in ([1e-3, 0, 0], [0, 7.7, 0], [0, 0, -0.1], [12345.0, 0, 0], [500.0, -900.0, 700.0], [131072.0, 0, 0], [-70000.0, 99000.0, 3.0]):
        out.append((np.eye(3), np.array(t)))
    return out


MOT = motions()


def space(tier):
    out = []
    nm = len(MOT)
    for s in NAMES:
        for k in range(nm):
            for m in ("d4", "d4s"):
                for c in CALC if tier == "thorough" else ("dftd4",):
                    out.append(("one", s, k, c, m))
    if tier == "quick":
        for s in FEW:
            for k in range(nm):
                for i, c in enumerate(CALC[1:]):
                    out.append(("one", s, k, c, ("d4", "d4s")[(k + i) % 2]))
    for a in range(nm):
        for b in range(nm) if tier == "thorough" else ((a * 7 + 3) % nm, (a * 11 + 50) % nm):
            for m in ("d4", "d4s"):
                out.append(("batch", ("H2O", "NaCl2-"), (a, b), "dftd4", m))
    for s in NAMES:
        for c in CALC:
            for m in ("d4", "d4s"):
                out.append(("net", s, 0, c, m))
    return out


def run(c, model, z, x, ch):
    T = PARAMS["tpssh"]
    if c == "props":
        cn, q, c6, al = d4.get_properties(z, x, ch)
        return [cn, q, c6, al], c6.sum() + (q * q).sum() + (cn * cn).sum()
    if c in ("dftd4", "single"):
        e = d4.dftd4(z, x, ch, PARAMS["s10"], model=model)
    elif c == "exact":
        e = DispD4Exact(model=model, dtype=x.dtype).calculate(z, x, ch, T)
    elif c == "zero":
        e = d4.dftd4(z, x, ch, dict(rs6=1.1, rs8=1.0, a1=0.4, a2=5.0, alp=14.0), model=model, damping_function=DAMP["zero"]())
    elif c == "mzero":
        e = d4.dftd4(z, x, ch, dict(rs6=1.1, rs8=1.0, a1=0.4, a2=5.0, alp=14.0, bet=0.02), model=model, damping_function=DAMP["mzero"]())
    elif c == "op":
        e = d4.dftd4(z, x, ch, dict(a1=0.4, a2=5.0, bet=2.0), model=model, damping_function=DAMP["op"]())
    elif c == "cutoff":
        e = d4.dftd4(z, x, ch, T, model=model, cutoff=d4.Cutoff(disp2=7.91, disp3=6.33, cn_eeq=4.13, dtype=D))
    else:
        disp = Disp(model=model, dtype=D)
        disp.register(TwoBodyTerm(charge_dependent=False))
        disp.register(D3ATM(damping_fn=DAMP["zero"](), charge_dependent=True))
        e = disp.calculate(z, x, ch, dict(T, rs9=1.3))
    return [e], e.sum()


def full(c, m, z, x, ch):
    dt = F if c == "single" else D
    x = torch.tensor(np.array(x, float), dtype=dt, requires_grad=True)
    o, tot = run(c, m, num(z), x, torch.tensor(ch, dtype=dt))
    (g,) = torch.autograd.grad(tot, x)
    return [v.detach().double().numpy() for v in o], g.double().numpy()


@lru_cache(maxsize=None)
def base(s, c, m):
    z, x, ch = ALL[s]
    return full(c, m, z, x, float(ch))


def tol(x, c, t):
    """Coordinates are rounded to eps*|x|: scale the tolerance with the translation."""
    r = max(1.0, float(np.abs(x).max()))
    if c == "single":
        return 5e-3 * max(1.0, r / 20)
    return (1e-8 if r < 2e4 else 1e-7) * max(1.0, r / 100)


def evaluate(case, res):
    kind, s, k, c, m = case
    if kind == "net":
        z, x, ch = ALL[s]
        o, g = base(s, c, m)
        x = np.array(x, float)
        sc = np.abs(g).max() + 1e-12
        t = 1e-9 if c != "single" else 1e-3
        need(np.abs(g.sum(0)).max() <= t * sc * len(z), f"{s} {c} {m}: net force {g.sum(0)}")
        tq = np.cross(x, g).sum(0)
        need(np.abs(tq).max() <= t * sc * len(z) * (np.abs(x).max() + 1), f"{s} {c} {m}: net torque {tq}")
        res.see(o, g)
        return
    if kind == "one":
        z, x, ch = ALL[s]
        Q, t = MOT[k]
        if c == "single" and np.abs(t).max() > 500:
            return
        y = np.array(x, float) @ Q.T + t
        (o, g), (o0, g0) = full(c, m, z, y, float(ch)), base(s, c, m)
        rt = tol(y, c, t)
        for i, (a, b) in enumerate(zip(o, o0)):
            need_close(a, b, f"{s} motion {k} {c} {m} output {i}", rtol=rt, atol=1e-12)
        need_close(g, g0 @ Q.T, f"{s} motion {k} {c} {m} gradient", rtol=rt * 10, scale=np.abs(g0).max() * 10, atol=1e-12 + 1e-14 * np.abs(y).max())
        res.see(o, g)
        return
    zs = [ALL[n][0] for n in s]
    ys = [np.array(ALL[n][1], float) @ MOT[i][0].T + MOT[i][1] for n, i in zip(s, k)]
    o, g = full(c, m, zs, np.stack(ys), [float(ALL[n][2]) for n in s])
    for i, n in enumerate(s):
        o0, g0 = base(n, c, m)
        rt = tol(ys[i], c, 0)
        need_close(o[0][i], o0[0], f"batch row {i} motions {k} {m}", rtol=rt, atol=1e-12)
        need_close(g[i], g0 @ MOT[k[i]][0].T, f"batch row {i} motions {k} {m} gradient", rtol=rt * 10, scale=np.abs(g0).max() * 10, atol=1e-12 + 1e-14 * np.abs(ys[i]).max())
    res.see(o, g)
