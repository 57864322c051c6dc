"""C01: the atom-resolved energy equals the D4 / D4S expression."""
from __future__ import annotations

import numpy as np
import torch
from tad_mctc.ncoord import cn_d3, cn_d4, erf_count, exp_count

import tad_dftd4 as d4

from .. import refmodel as R
from ..drive import D, energy, model_inst, num, pos, tparam
from ..harness import need, need_close
from ..systems import PARAMS, SYS, TPSSH, big_cluster, cluster

PROPERTY = "C01"
LEVEL = "exploration"
RULE = (
    "Complete product of the stated axes; every element executes dftd4 and an independent NumPy model of the D4/D4S "
    "expression and compares all atoms. Non-trivial: the energy vector is non-zero; distinct: vectors differ in 8 digits."
)
BOUNDS = {
    "quick": "all element pairs 1..103 (with a third probe atom) x {d4,d4s}; 20 systems x 8 parameter sets x {d4,d4s} x 14 call variants (fractional charges included); "
    "clusters of 1..16 atoms x 3 scales and of 16 sizes from 20 to 129 atoms x {d4,d4s}; distance sweep 0.8..59 bohr",
    "thorough": "as quick, plus clusters of 150, 200, 216 atoms, plus every element pair x 4 further geometries x charges -2..2, plus every element triple 1..103 (sorted) x {d4,d4s} in one geometry",
}
ASSUMPTIONS = [
    "coordination numbers and EEQ charges of tad_mctc / tad_multicharge are correct (out of tree, called directly)",
    "golden copy of the reference data frozen from the pinned tree",
]
CHUNK = 1
PROBE = (1, 2, 6, 9, 18, 80)
VARIANTS = ("plain", "tensor", "charge+1", "charge-2", "charge+0.4", "charge-1.3", "tensor charge+0.55", "q", "gfn2", "gagc", "wf", "r4r2", "cutoff", "cnfn")


def space(tier):
    out = [("pairs", z1, 0) for z1 in range(1, 104)]
    for name in SYS:
        for pk in PARAMS:
            for mod in ("d4", "d4s"):
                for v in VARIANTS:
                    out.append(("cfg", name, pk, mod, v))
    for n in range(1, 17):
        for sc in (0.8, 1.1, 2.0):
            for mod in ("d4", "d4s"):
                out.append(("size", n, sc, mod))
    for k in range(60):
        out.append(("dist", k))
    for n in (20, 24, 25, 32, 33, 40, 48, 50, 51, 64, 65, 80, 100, 101, 128, 129) + ((150, 200, 216) if tier == "thorough" else ()):
        for mod in ("d4", "d4s"):
            out.insert(0, ("big", n, mod))
    if tier == "thorough":
        for g in range(1, 5):
            for ch in (-2, -1, 0, 1, 2):
                out += [("pairs", z1, g, ch) for z1 in range(1, 104)]
        out += [("triples", a, b) for a in range(1, 104) for b in range(a, 104)]
    return out


def geo3(a, b, g):
    """Triangle with sides 3.4..9 bohr, apex angle from acute to almost linear."""
    r = 3.4 + ((a * 7 + b * 3 + g * 5) % 11) * 0.45
    s = 3.6 + ((a + 2 * b + g) % 7) * 0.6
    t = (1.1, 1.45, 1.9, 2.6, 3.05)[(a + b + g) % 5]  # angle at the second atom
    return [[0, 0, 0], [0, 0, r], [s * np.sin(t), 0.15, r - s * np.cos(t)]]


def cmp(res, z, xyz, charge, p, what, ref_kw=None, **kw):
    e = energy(z, xyz, charge, p, **kw)
    need(e.shape == (len(z),), f"{what}: shape {tuple(e.shape)}")
    pf = {k: (float(v) if k != "doi" else v) for k, v in p.items()}
    r = R.energy(z, xyz, float(charge), pf, **(ref_kw or {}))
    need_close(e, r, what, rtol=1e-8)
    res.see(e)


def evaluate(case, res):
    kind = case[0]
    if kind == "pairs":
        a, g = case[1], case[2]
        for b in range(a, 104):
            ch = case[3] if len(case) > 3 else ((a + b) % 3) - 1
            z = [a, b, PROBE[(a + b + g) % 6]]
            for mod in ("d4", "d4s"):
                cmp(res, z, geo3(a, b, g), ch, TPSSH, f"elements {z} {mod}", dict(model=mod), model=mod)
    elif kind == "triples":
        a, b = case[1], case[2]
        for c in range(b, 104):
            mod = ("d4", "d4s")[(a + b + c) % 2]
            cmp(res, [a, b, c], geo3(a, b, c), 0, TPSSH, f"elements {(a, b, c)} {mod}", dict(model=mod), model=mod)
    elif kind == "size":
        _, n, sc, mod = case
        el = [6, 1, 8, 26, 1, 53, 11, 92, 1, 14, 30, 7, 9, 79, 2, 17]
        z, x = cluster(el[:n], sc, (n * 3) % 10)
        cmp(res, z, x, 0, PARAMS["s10"], f"{case}", dict(model=mod), model=mod)
    elif kind == "big":
        _, n, mod = case
        z, x = big_cluster(n)
        cmp(res, z, x, 1, PARAMS["s10"], f"{case}", dict(model=mod), model=mod)
    elif kind == "dist":
        k = case[1]
        r = 0.8 * (59.0 / 0.8) ** (k / 59.0)
        for z in ([1, 1], [6, 6], [18, 36], [55, 9], [103, 1], [29, 8]):
            for mod in ("d4", "d4s"):
                x = [[0, 0, 0], [0.3 * r, 0.4 * r, np.sqrt(0.75) * r]]
                cmp(res, z, x, 0, PARAMS["pbe"], f"R={r} {z} {mod}", dict(model=mod), model=mod)
                if r < 39:
                    x3 = [[0, 0, 0], [0, 0, r], [0.6 * r, 0, 0.5 * r]]
                    rk, kw = {}, {}
                    if r < 4.0:  # EEQ is ill-conditioned for overlapping heavy atoms: give the charges
                        q = np.array([0.2, -0.3, 0.1])
                        rk, kw = dict(q=q), dict(q=torch.tensor(q, dtype=D))
                    cmp(res, z + [z[0]], x3, 0, PARAMS["pbe"], f"R={r} {z} {mod} triangle", dict(model=mod, **rk), model=mod, **kw)
    else:
        _, name, pk, mod, v = case
        z, x, ch = SYS[name]
        p = PARAMS[pk]
        rk, kw = dict(model=mod), dict(model=mod)
        n = len(z)
        if v == "tensor":
            p = tparam(p)
            ch = torch.tensor(float(ch), dtype=D)
        elif v == "charge+1":
            ch = ch + 1
        elif v == "charge-2":
            ch = ch - 2
        elif v.startswith("charge"):
            ch = ch + float(v[6:])
        elif v.startswith("tensor charge"):
            ch = torch.tensor(ch + float(v[13:]), dtype=D)
        elif v == "q":
            q = np.array([0.35 * ((i * 5) % 7 - 3) for i in range(n)])
            rk["q"], kw["q"] = q, torch.tensor(q, dtype=D)
        elif v == "gfn2":
            if max(z) > 86:
                return
            rk["ref"] = "gfn2"
            kw["model"] = model_inst(mod, num(z), ref_charges="gfn2")
        elif v == "gagc":
            rk.update(ga=2.1, gc=1.3)
            kw["model"] = model_inst(mod, num(z), ga=2.1, gc=1.3)
        elif v == "wf":
            rk["wf"] = 3.5
            w = 3.5 if mod == "d4" else torch.full((n, n), 3.5, dtype=D)
            kw["model"] = model_inst(mod, num(z), wf=w)
        elif v == "r4r2":
            r4 = R.T["r4r2"][z] * (1.0 + 0.1 * np.arange(n))
            rk["r4r2"], kw["r4r2"] = r4, torch.tensor(r4, dtype=D)
        elif v == "cutoff":
            rk["cut"] = dict(disp2=7.77, disp3=6.66, cn_eeq=4.44)
            kw["cutoff"] = d4.Cutoff(disp2=7.77, disp3=6.66, cn_eeq=4.44, dtype=D)
        elif v == "cnfn":
            rk["cn_fn"] = lambda a, b: cn_d4(a, b, counting_function=exp_count)
            kw["counting_function"] = exp_count
            if pk in ("pbe", "s10"):
                rk["cn_fn"] = lambda a, b: cn_d3(a, b, counting_function=erf_count)
                kw["cn_function"] = cn_d3
                kw["counting_function"] = erf_count
        cmp(res, z, x, ch, p, f"{case}", rk, **kw)
