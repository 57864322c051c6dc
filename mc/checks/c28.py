"""C28: every system and batch size, from empty to large."""
from __future__ import annotations

import itertools
from functools import lru_cache

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.damping import ZeroDamping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d3 import DispD3BJ
from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm

from .. import refmodel as R
from ..drive import D, F, num, pos
from ..harness import need, need_close
from ..systems import PARAMS, SYS, big_cluster

PROPERTY = "C28"
LEVEL = "exploration"
RULE = (
    "Every number of atoms, every number of systems and every batch shape up to the bound is evaluated with all calculators, models and precisions; sizes against the reference model, batches row by row against "
    "the systems alone (energies, properties, gradients), empty ones against their documented shapes. Distinct: 8 digits."
)
BOUNDS = {
    "quick": "all sizes 0-72 and 25 more up to 257 atoms x 2 models, two-body energies and properties of 9 sizes up to 513 (double) and 1-40 (single; exact C9 and van der Waals radii, zero damping, properties); all batch sizes 0-72 and 15 more up to 1025 x 2 models x 4 calculators; "
    "all batch shapes with rank up to 3 and lengths 0-3 x 0-3 atoms; batches of one n-atom system and an atom, n up to 60",
    "thorough": "all sizes up to 280 atoms (two-body: 500 and 8 more up to 600), exact C9 up to 72 atoms, all batch sizes up to 600 and 1023-1025, 2047-2049, batch shapes of lengths 0-4",
}
CHUNK = 2
ROW = ["H2", "H2O", "NaCl2-", "He", "HCN"]
LONG = (96, 99, 100, 101, 127, 128, 129, 191, 192, 193, 255, 256, 257, 500, 512)
CALC = ("dftd4", "exact", "d3", "zero", "props")


def space(tier):
    q = tier == "quick"
    out = []
    ns = list(range(0, 73)) + ([81, 96, 97, 99, 100, 101, 112, 113, 125, 127, 128, 129, 144, 145, 150, 176, 192, 193, 200, 201, 216] if q else list(range(73, 217)))
    for n in (513, 512, 400, 300, 257, 256, 255, 225, 224) if q else (600, 577, 576, 520, 513, 512, 511, *range(500, 216, -1)):
        for m, c in itertools.product(("d4", "d4s"), ("two", "props")):
            if c == "two" or m == "d4" and n <= 300:
                out.append(("size", n, m, c, "double"))
    for n in (257, 256, 255, 240) if q else range(280, 216, -1):
        out.append(("size", n, "d4", "dftd4", "double"))
    for n in ns[::-1]:
        for m in ("d4", "d4s"):
            out.append(("size", n, m, "dftd4", "double"))
    for n in range(0, 41 if q else 73):
        for m, c in itertools.product(("d4", "d4s"), CALC):
            if c != "dftd4":
                out.append(("size", n, m, c, "double"))
            out.append(("size", n, m, c, "single"))
    bs = list(range(0, 73)) + [*LONG, 1023, 1024, 1025] if q else [*range(0, 601), 1023, 1024, 1025, 2047, 2048, 2049]
    for b in bs[::-1]:
        for m in ("d4", "d4s"):
            out.append(("batch", b, m, "dftd4"))
            if b <= 130:
                for c in CALC[1:]:
                    out.append(("batch", b, m, c))
    L = range(4 if q else 5)
    for r in (0, 1, 2, 3):
        for s in itertools.product(L, repeat=r):
            out.append(("shape", s))
    for n in range(1, 61):
        out.append(("pair", n))
    return out


def calc(c, m, z, x, ch):
    p = PARAMS["s10"]
    if c == "dftd4":
        return d4.dftd4(z, x, ch, p, model=m)
    if c == "two":
        f = Disp(m, dtype=x.dtype)
        f.register(TwoBodyTerm())
        return f.calculate(z, x, ch, p)
    if c == "exact":
        return DispD4Exact(model=m, dtype=x.dtype).calculate(z, x, ch, p)
    if c == "d3":
        return DispD3BJ(model=m, dtype=x.dtype).calculate(z, x, ch, dict(p, rs9=1.1))
    if c == "zero":
        return d4.dftd4(z, x, ch, dict(rs6=1.1, rs8=1.0, a1=0.4, a2=5.0, alp=14.0), model=m, damping_function=ZeroDamping())
    cn, q, c6, al = d4.get_properties(z, x, ch)
    return torch.cat([cn.unsqueeze(-1), q.unsqueeze(-1), al.unsqueeze(-1), c6], -1)


def reference(c, m, z, x, ch):
    p = PARAMS["s10"]
    if c == "two":
        return R.energy(z, x, ch, p, model=m, terms="2")
    if c == "exact":
        return R.energy(z, x, ch, p, model=m, atm="exact")
    if c == "d3":
        return R.energy(z, x, ch, dict(p, rs9=1.1), model=m, atm="d3", qdep2=False)
    if c == "zero":
        return R.energy(z, x, ch, dict(rs6=1.1, rs8=1.0, a1=0.4, a2=5.0, alp=14.0), model=m, kind="zero")
    if c == "props":
        cn, q = R.dep_cn(z, x), R.dep_q(z, x, ch)
        w = R.weights(z, cn, q)
        return np.concatenate([cn[:, None], q[:, None], R.weighted_pols(z, w)[:, :1], R.atomic_c6(z, w)], 1)
    return R.energy(z, x, ch, p, model=m)


def grads(c, m, z, x, ch):
    x = x.clone().requires_grad_(True)
    e = calc(c, m, z, x, ch)
    if e.numel() == 0 and not e.requires_grad:
        return e.detach(), torch.zeros_like(x)
    w = torch.arange(1, e.shape[-1] + 1, dtype=x.dtype) if c == "props" else torch.ones(e.shape[-1], dtype=x.dtype)
    (g,) = torch.autograd.grad((e * (w if c != "props" else 1.0)).sum(), x)
    return e.detach(), g


@lru_cache(maxsize=None)
def alone(s, c, m):
    z, x, ch = SYS[s]
    e, g = grads(c, m, num(z), pos(x), torch.tensor(float(ch), dtype=D))
    return e.numpy(), g.numpy()


def evaluate(case, res):
    kind = case[0]
    if kind == "size":
        _, n, m, c, dt = case
        dt = D if dt == "double" else F
        z, x = big_cluster(n)
        zz, xx = torch.tensor(z, dtype=torch.long), torch.tensor(x, dtype=dt).reshape(n, 3)
        if n == 0:
            e, g = grads(c, m, zz, xx, torch.tensor(0.0, dtype=dt))
            need(tuple(e.shape) == ((0,) if c != "props" else (0, 3)) and g.shape == (0, 3) and e.dtype == dt, f"{case}: shapes {e.shape} {g.shape} {e.dtype}")
            need(float(e.sum()) == 0.0, f"{case}: sum {e.sum()}")
            res.see(str(case))
            return
        ch = torch.tensor(1.0, dtype=dt)
        if n > 72:
            with torch.no_grad():
                e, g = calc(c, m, zz, xx, ch), None
        else:
            e, g = grads(c, m, zz, xx, ch)
        need(e.dtype == dt and e.shape[0] == n, f"{case}: {e.dtype} {e.shape}")
        want = reference(c, m, z, x, 1.0)
        if c == "props":
            tol = dict(rtol=1e-8, atol=1e-9) if dt == D else dict(rtol=2e-3, atol=2e-3 * np.abs(want).max())
        else:
            tol = dict(rtol=1e-8, atol=1e-12) if dt == D else dict(rtol=2e-3, atol=2e-3 * max(np.abs(want).max(), 1e-9))
        need_close(e, want, f"{case}", **tol)
        if g is not None:
            need(bool(torch.isfinite(g).all()), f"{case}: gradient not finite")
            if dt == D:
                need(float(g.sum(0).abs().max()) <= 1e-9 * n * (float(g.abs().max()) + 1e-10), f"{case}: net force {g.sum(0)}")
        res.see(e)
    elif kind == "batch":
        _, b, m, c = case
        rows = [ROW[i % 5] for i in range(b)]
        k = 3
        z, x = np.zeros((b, k), int), np.zeros((b, k, 3))
        for i, s in enumerate(rows):
            n = len(SYS[s][0])
            z[i, :n], x[i, :n] = SYS[s][0], SYS[s][1]
        ch = torch.tensor([float(SYS[s][2]) for s in rows], dtype=D)
        e, g = grads(c, m, torch.tensor(z), torch.tensor(x), ch)
        need(tuple(e.shape) == ((b, k) if c != "props" else (b, k, 3 + k)) and tuple(g.shape) == (b, k, 3), f"{case}: shapes {e.shape} {g.shape}")
        e, g = e.numpy(), g.numpy()
        for i, s in enumerate(rows):
            n = len(SYS[s][0])
            we, wg = alone(s, c, m)
            need_close(e[i, :n, : 3 + n] if c == "props" else e[i, :n], we, f"{case} row {i}", rtol=1e-9, atol=1e-10 if c == "props" else 1e-14)
            need_close(g[i, :n], wg, f"{case} row {i} gradient", rtol=1e-8, scale=np.abs(wg).max(), atol=1e-13)
            need(not e[i, n:].any() and not g[i, n:].any(), f"{case} row {i}: padding {e[i, n:]}")
        res.see(e)
    elif kind == "shape":
        s = case[1]
        for n, m, c in itertools.product(range(4), ("d4", "d4s"), CALC):
            b = int(np.prod(s)) if s else 1
            names = [["H2", "He", "H2O"][(i * 2 + n) % 3] for i in range(b)]
            z, x = np.zeros((b, n), int), np.zeros((b, n, 3))
            keep = []
            for i, q in enumerate(names):
                k = len(SYS[q][0])
                keep.append(k if k <= n else 0)
                if k <= n:
                    z[i, :k], x[i, :k] = SYS[q][0], SYS[q][1]
            zz, xx = torch.tensor(z).reshape(*s, n), torch.tensor(x).reshape(*s, n, 3)
            for ch in (0.0, torch.zeros(s, dtype=D)):
                e, g = grads(c, m, zz, xx, ch)
                need(tuple(e.shape) == ((*s, n) if c != "props" else (*s, n, 3 + n)) and tuple(g.shape) == (*s, n, 3), f"{case} {n} atoms {m} {c}: shapes {e.shape} {g.shape}")
                e, g = e.reshape(b, *e.shape[len(s):]).numpy() if b else e.numpy(), g.reshape(b, n, 3).numpy()
                for i, (q, k) in enumerate(zip(names, keep)):
                    if k:
                        we, wg = alone(q, c, m)
                        need_close(e[i, :k, : 3 + k] if c == "props" else e[i, :k], we, f"{case} {n} atoms {m} {c} system {i}", rtol=1e-9, atol=1e-10 if c == "props" else 1e-14)
                        need_close(g[i, :k], wg, f"{case} {n} atoms {m} {c} system {i} gradient", rtol=1e-8, scale=np.abs(wg).max(), atol=1e-13)
                    if not k and c == "props":  # the EEQ charges of a row without any atom are undefined
                        e[i, :, 1] = 0.0
                    need(not e[i, k:].any() and not g[i, k:].any(), f"{case} {n} atoms {m} {c} system {i}: padding not zero")
                res.see(str(s), n, m, c, str(type(ch)))
    else:
        n = case[1]
        z, x = big_cluster(n)
        for m, c, order in itertools.product(("d4", "d4s"), ("dftd4", "exact") if n <= 32 else ("dftd4",), (0, 1)):
            zz, xx = np.zeros((2, n), int), np.zeros((2, n, 3))
            zz[order], xx[order] = z, x
            zz[1 - order, n // 2] = 18
            ch = torch.tensor([1.0, 0.0] if order == 0 else [0.0, 1.0], dtype=D)
            e, g = grads(c, m, torch.tensor(zz), torch.tensor(xx), ch)
            we, wg = grads(c, m, num(z), pos(x), torch.tensor(1.0, dtype=D))
            need_close(e[order], we.numpy(), f"{case} {m} {c} order {order}", rtol=1e-9, atol=1e-14)
            need_close(g[order], wg.numpy(), f"{case} {m} {c} order {order} gradient", rtol=1e-8, scale=float(wg.abs().max()), atol=1e-13)
            need(float(e[1 - order].abs().max()) == 0.0 and float(g[1 - order].abs().max()) == 0.0, f"{case} {m} {c}: isolated atom {e[1 - order]}")
            res.see(e.numpy())
