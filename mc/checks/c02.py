"""C02: batching and padding are transparent."""
from __future__ import annotations

import itertools
from functools import lru_cache

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact

from ..drive import D, DAMP, F, num, pack
from ..harness import need, need_close
from ..systems import PARAMS, SYS, cluster

PROPERTY = "C02"
LEVEL = "exploration"
RULE = (
    "All ordered tuples of systems from the alphabet x padding layouts x padding coordinates x calculators; every batch row is compared with "
    "the same system evaluated alone. Non-trivial: non-zero energies; distinct: the batch energies differ in 8 digits."
)
BOUNDS = {
    "quick": "all ordered pairs of 12 systems x 7 layouts (padding behind, before, between the atoms, in every row) x 4 padding coordinate kinds (zero, among the atoms, far, 1e17) x 2 models; all ordered triples of 6 systems x 4 layouts; windows of size 4..12; long batches of 23 sizes up to 101 rows x all calculators; batch shapes up to rank 3; 6 calculators",
    "thorough": "as quick with all pairs x all calculators, triples of 12 systems, quadruples of 6 systems, long batches up to 513 rows",
}
CHUNK = 4
A = ["He", "H-", "LiH", "H2O", "OH-", "HCN", "NH4+", "UF3Cs", "mix8", "far", "C6H6", "LrNo"]
B = ["He", "LiH", "OH-", "H2O", "NH4+", "UF3Cs"]
LAYOUTS = ("end", "front", "middle", "extra", "front+2", "middle+1", "spread+3")
CALC = ("dftd4", "exact", "props", "zero", "cutoff", "s10q")
BIG = (13, 14, 15, 16, 17, 18, 20, 24, 25, 31, 32, 33, 34, 40, 48, 50, 51, 63, 64, 65, 66, 100, 101)
FILL = {"zero": [0.0, 0.0, 0.0], "junk": [1.5, -0.7, 2.2], "far": [-4.1e3, 2.3e4, 7.7e2], "vast": [3.1e17, -2.7e17, 1.1e17]}
SHAPES = ((1,), (1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (3, 2), (1, 2, 1), (2, 1, 2), (2, 2, 2))


def space(tier):
    out = []
    calcs = CALC if tier == "thorough" else ("dftd4",)
    for a, b in itertools.product(A, A):
        for lay in LAYOUTS:
            for fill in ("zero", "junk", "far", "vast") if lay in ("end", "middle+1", "spread+3") else ("zero", "junk"):
                for mod in ("d4", "d4s"):
                    for c in calcs:
                        out.append(dict(names=[a, b], layout=lay, fill=fill, model=mod, calc=c))
    if tier == "quick":
        for a, b in itertools.product(B, B):
            for c in CALC[1:]:
                for mod in ("d4", "d4s"):
                    for lay in ("end", "middle", "front+1"):
                        out.append(dict(names=[a, b], layout=lay, fill="zero", model=mod, calc=c))
    T = A if tier == "thorough" else B
    for t in itertools.product(T, repeat=3):
        for lay in ("end", "front", "middle", "spread+2"):
            mod = ("d4", "d4s")[sum(map(T.index, t)) % 2]
            out.append(dict(names=list(t), layout=lay, fill="zero", model=mod, calc="dftd4"))
    if tier == "thorough":
        for t in itertools.product(B, repeat=4):
            out.append(dict(names=list(t), layout="middle", fill="junk", model=("d4", "d4s")[sum(map(B.index, t)) % 2], calc="dftd4"))
    for k in range(4, 13):
        for s in range(0, 12, 2):
            for mod in ("d4", "d4s"):
                for c in ("dftd4", "props", "exact"):
                    names = [A[(s + i * (1 + s % 5)) % 12] for i in range(k)]
                    out.append(dict(names=names, layout=LAYOUTS[(k + s) % 7], fill="zero", model=mod, calc=c))
    for k in BIG if tier == "quick" else BIG + (128, 129, 256, 257, 512, 513):
        for mod in ("d4", "d4s"):
            for c in CALC:
                for lay in ("end", "front+1"):
                    out.append(dict(names=[A[(i * (1 + k % 5) + k) % 10] for i in range(k)], layout=lay, fill="zero", model=mod, calc=c))
    for shp in SHAPES:
        n = int(np.prod(shp))
        for s in range(4):
            for c in CALC:
                for mod in ("d4", "d4s"):
                    for dt in ("d", "f"):
                        out.append(dict(names=[A[(s * 3 + i) % 12] for i in range(n)], layout="end", fill="zero",
                                        model=mod, calc=c, shape=list(shp), dtype=dt))
    return out


def calc(c, z, x, ch, mod, dtype):
    """Returns list of per-atom outputs and whether a gradient is defined (first output)."""
    p = PARAMS["tpssh"]
    if c == "dftd4":
        return [d4.dftd4(z, x, ch, p, model=mod)]
    if c == "exact":
        return [DispD4Exact(model=mod, dtype=dtype).calculate(z, x, ch, p)]
    if c == "props":
        cn, q, c6, al = d4.get_properties(z, x, ch)
        return [c6.sum(-1), cn, q, al]
    if c == "zero":
        return [d4.dftd4(z, x, ch, dict(s6=1.0, s8=1.2, rs6=1.1, rs8=1.0, a1=0.4, a2=5.0, alp=14.0), model=mod, damping_function=DAMP["zero"]())]
    if c == "cutoff":
        return [DispD4(model=mod, dtype=dtype).calculate(z, x, ch, p, cutoff=d4.Cutoff(disp2=9.3, disp3=6.1, cn_eeq=5.0, dtype=dtype))]
    q = 0.05 * z.to(x.dtype).remainder(7.0) - 0.1
    q = torch.where(z > 0, q, torch.zeros_like(q))
    return [d4.dftd4(z, x, ch, PARAMS["s10"], model=mod, q=q)]


@lru_cache(maxsize=None)
def single(name, mod, c, dt):
    z, xyz, ch = SYS[name]
    dtype = D if dt == "d" else F
    x = torch.tensor(np.array(xyz), dtype=dtype, requires_grad=True)
    o = calc(c, num(z), x, torch.tensor(float(ch), dtype=dtype), mod, dtype)
    (g,) = torch.autograd.grad(o[0].sum(), x)
    return [v.detach().double().numpy() for v in o] + [g.double().numpy()]


def evaluate(case, res):
    names, mod, c = case["names"], case["model"], case["calc"]
    dt = case.get("dtype", "d")
    dtype = D if dt == "d" else F
    lay, _, extra = "end+3".partition("+") if case["layout"] == "extra" else case["layout"].partition("+")
    extra = int(extra or 0)
    zs, mask = pack([SYS[n][0] for n in names], 0, lay, extra)
    fill = FILL[case["fill"]]
    xs, _ = pack([[list(r) for r in SYS[n][1]] for n in names], fill, lay, extra)
    ch = [float(SYS[n][2]) for n in names]
    shp = tuple(case.get("shape", (len(names),)))
    nat = len(zs[0])
    z = num(zs).reshape(*shp, nat)
    x = torch.tensor(np.array(xs, float), dtype=dtype).reshape(*shp, nat, 3).requires_grad_()
    o = calc(c, z, x, torch.tensor(ch, dtype=dtype).reshape(shp), mod, dtype)
    (g,) = torch.autograd.grad(o[0].sum(), x)
    rtol = 1e-8 if dt == "d" else 2e-3
    for v in o:
        need(v.shape == (*shp, nat), f"shape {tuple(v.shape)}")
        need(v.dtype == dtype, f"dtype {v.dtype}")
    outs = [v.detach().double().reshape(len(names), nat).numpy() for v in o] + [g.double().reshape(len(names), nat, 3).numpy()]
    for i, n in enumerate(names):
        refs = single(n, mod, c, dt)
        for k, (got, ref) in enumerate(zip(outs, refs)):
            what = f"row {i} ({n}) output {k}"
            need(np.all(got[i][~mask[i]] == 0.0), f"{what}: padding not exactly zero")
            s = max(np.abs(ref).max(), 1e-12)
            need_close(got[i][mask[i]], ref, what, rtol=rtol, scale=s * (10 if dt == "f" else 1), atol=(1e-14 if dt == "d" else 1e-8))
    res.see(outs[0], case["layout"], case["fill"])
