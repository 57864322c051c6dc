"""C03: permutation equivariance."""
from __future__ import annotations

import itertools
from functools import lru_cache

import numpy as np
import torch
from tad_mctc.data import VDW_PAIRWISE

import tad_dftd4 as d4
from tad_dftd4.data import R4R2
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d3 import D3ATM
from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm

from ..drive import D, DAMP, model_inst, num
from ..harness import need, need_close
from ..systems import PARAMS, SYS, big_cluster, cluster

PROPERTY = "C03"
LEVEL = "exploration"
RULE = (
    "Complete symmetric group for systems of up to 5 atoms (all transpositions, all cyclic shifts and the reversal for larger ones) x calculators x "
    "models; each permuted evaluation is compared with the permuted unpermuted one. Non-trivial: non-zero outputs; distinct: outputs differ in 8 digits."
)
BOUNDS = {
    "quick": "14 systems of 2..12 atoms; S_n for n<=4 with all 9 calculators and both models, S_5 for 3 calculators; "
    "generators (transpositions, cycles, reversal) for n>=6; reversal and shifts of clusters of 40 and 66 atoms; one calculator object reused for original, permuted and original order; batches of three with independent permutations",
    "thorough": "as quick with S_5 for all calculators, S_6 for two systems, and batches with all pairs of S_3 permutations",
}
CHUNK = 8
EXTRA = {
    "kr4": ([36, 54, 18, 10], [[0, 0, 0], [7.0, 0.5, 0.3], [1.0, 6.5, 0.8], [2.5, 2.0, 8.0]], 0),
    "het5": (*cluster([22, 8, 1, 17, 55], 1.4, 2), 1),
    "het6": (*cluster([6, 1, 9, 16, 3, 50], 1.3, 5), 0),
    "het4": (*cluster([64, 7, 1, 34], 1.5, 8), 0),
    "big40": (*big_cluster(40), 0),
    "big66": (*big_cluster(66), 1),
    "cut5": ([18, 10, 36, 2, 54], [[0, 0, 0], [12, 0, 1], [3, 25, 2], [30, 4, 22], [55, 3, 9]], 0),
}
ALL = {**SYS, **EXTRA}
SMALL = ["LiH", "CO", "OH-", "H2O", "HCN", "NaCl2-", "AuPtH", "far", "kr4", "het4"]
FIVE = ["NH4+", "UF3Cs", "het5", "cut5"]
BIG = ["het6", "mix8", "mix10", "water2", "C6H6"]
CALC = ("dftd4", "exact", "props", "zero", "mzero", "op", "cutoff", "overrides", "atm-vdw")


def gens(n):
    idn = tuple(range(n))
    out = {idn[::-1]}
    for a, b in itertools.combinations(range(n), 2):
        p = list(idn)
        p[a], p[b] = p[b], p[a]
        out.add(tuple(p))
    for k in range(1, n):
        out.add(idn[k:] + idn[:k])
    return sorted(out)


def space(tier):
    out = []
    for s in SMALL:
        n = len(ALL[s][0])
        for p in itertools.permutations(range(n)):
            if p == tuple(range(n)):
                continue
            for c in CALC:
                for m in ("d4", "d4s"):
                    out.append(("single", s, p, c, m))
    for s in FIVE:
        for p in list(itertools.permutations(range(5)))[1:]:
            for c in CALC if tier == "thorough" else ("dftd4", "overrides", "cutoff"):
                m = ("d4", "d4s")
                for mm in m:
                    out.append(("single", s, p, c, mm))
        if tier == "quick":
            for p in gens(5):
                for c in CALC:
                    for m in ("d4", "d4s"):
                        out.append(("single", s, p, c, m))
    if tier == "thorough":
        for s in ("het6", "water2"):
            for p in list(itertools.permutations(range(6)))[1:]:
                for m in ("d4", "d4s"):
                    out.append(("single", s, p, "dftd4", m))
    for s in BIG:
        for p in gens(len(ALL[s][0])):
            for c in CALC if tier == "thorough" else ("dftd4", "exact", "overrides", "props"):
                for m in ("d4", "d4s"):
                    out.append(("single", s, p, c, m))
    for s in ("big40", "big66"):
        n = len(ALL[s][0])
        idn = tuple(range(n))
        for p in [idn[::-1]] + [idn[k:] + idn[:k] for k in range(1, n, 7)]:
            for c in ("dftd4", "exact", "props", "cutoff"):
                for m in ("d4", "d4s"):
                    out.insert(0, ("single", s, p, c, m))
    s3 = list(itertools.permutations(range(3)))
    for p in s3:
        for r in s3:
            for c in CALC if tier == "thorough" else ("dftd4", "overrides", "exact", "zero"):
                for m in ("d4", "d4s"):
                    out.append(("batch", ("H2O", "NaCl2-", "AuPtH"), (p, r, p), c, m))
    # one calculator object: original order, permuted order, original order again
    for s in SMALL + FIVE + BIG:
        n = len(ALL[s][0])
        for p in list(itertools.permutations(range(n)))[1:] if n < 5 or tier == "thorough" and n == 5 else gens(n):
            for c in ("obj", "obj-exact", "obj-pair"):
                for m in ("d4", "d4s"):
                    out.append(("shared", s, p, c, m))
    # padding interleaved: permutations of a padded 5-slot system
    for p in list(itertools.permutations(range(5)))[1:]:
        for m in ("d4", "d4s"):
            for c in ("dftd4", "overrides"):
                out.append(("padded", ("HCN", "H2O"), (p, p[::-1]), c, m))
    return out


def overrides(zs, model):
    """Deterministic, atom-resolved, not determined by the element alone."""
    z = np.array(zs)
    n = z.shape[-1]
    i = np.arange(n)
    r4 = R4R2(dtype=D)[num(zs)].numpy() * (1 + 0.07 * i)
    a = 1 + 0.05 * i
    v = VDW_PAIRWISE(dtype=D)[num(zs).unsqueeze(-1), num(zs).unsqueeze(-2)].numpy() * (a[:, None] * a[None])
    q = np.where(z > 0, 0.11 * ((3 * i) % 5 - 2), 0.0)
    w = 4.0 + 0.3 * (i[:, None] + 2 * i[None])  # asymmetric, D4S
    return dict(r4r2=r4, rvdw=v, q=q, wf=np.broadcast_to(w, v.shape).copy())


def run(c, model, z, x, ch, ov):
    """-> dict name -> (tensor, kind) with kind atom | pair."""
    T = PARAMS["tpssh"]
    if c == "props":
        cn, q, c6, al = d4.get_properties(z, x, ch)
        return dict(cn=cn, q=q, c6=c6, al=al), (c6.sum() + al.sum() + (q * q).sum())
    if c == "dftd4":
        e = d4.dftd4(z, x, ch, PARAMS["s10"], model=model)
    elif c == "exact":
        e = DispD4Exact(model=model, dtype=D).calculate(z, x, ch, T)
    elif c == "zero":
        e = d4.dftd4(z, x, ch, dict(rs6=1.1, rs8=1.0, a1=0.4, a2=5.0, alp=14.0), model=model, damping_function=DAMP["zero"]())
    elif c == "mzero":
        e = d4.dftd4(z, x, ch, dict(rs6=1.1, rs8=1.0, a1=0.4, a2=5.0, alp=14.0, bet=0.02), model=model, damping_function=DAMP["mzero"]())
    elif c == "op":
        e = d4.dftd4(z, x, ch, dict(a1=0.4, a2=5.0, bet=2.0), model=model, damping_function=DAMP["op"]())
    elif c == "cutoff":
        e = d4.dftd4(z, x, ch, T, model=model, cutoff=d4.Cutoff(disp2=7.9, disp3=6.3, cn_eeq=4.1, dtype=D))
    elif c == "overrides":
        t = {k: torch.tensor(v, dtype=D) for k, v in ov.items()}
        mi = model_inst(model, z, wf=5.0 if model == "d4" else t["wf"])
        e = d4.dftd4(z, x, ch, PARAMS["odd"], model=mi, q=t["q"], r4r2=t["r4r2"], rvdw=t["rvdw"])
    else:
        disp = Disp(model=model, dtype=D)
        disp.register(TwoBodyTerm(charge_dependent=False))
        disp.register(D3ATM(damping_fn=DAMP["zero"](), charge_dependent=True))
        e = disp.calculate(z, x, ch, dict(T, rs9=1.3), rvdw=torch.tensor(ov["rvdw"], dtype=D))
    return dict(e=e), (e * torch.linspace(1, 1, e.shape[-1], dtype=D)).sum()


def full(c, model, zs, xs, ch, ov):
    z = num(zs)
    x = torch.tensor(np.array(xs, float), dtype=D, requires_grad=True)
    o, tot = run(c, model, z, x, torch.tensor(ch, dtype=D), ov)
    (g,) = torch.autograd.grad(tot, x)
    o = {k: v.detach().numpy() for k, v in o.items()}
    o["g"] = g.numpy()
    return o


def perm_arr(a, p, k):
    if k == "c6" or k in ("rvdw", "wf"):
        return a[np.ix_(p, p)]
    return a[list(p)]


@lru_cache(maxsize=None)
def base(name, c, m):
    zs, xs, ch = ALL[name]
    return full(c, m, zs, xs, float(ch), overrides(zs, m))


@lru_cache(maxsize=None)
def base_padded(names, c, m):
    zs, xs = [], []
    for n in names:
        k = 5 - len(ALL[n][0])
        zs.append(list(ALL[n][0]) + [0] * k)
        xs.append([list(r) for r in ALL[n][1]] + [[0.0, 0, 0]] * k)
    ch = [float(ALL[n][2]) for n in names]
    ov = [overrides(z, m) for z in zs]
    st = {k: np.stack([o[k] for o in ov]) for k in ov[0]}
    return zs, xs, ch, ov, full(c, m, zs, xs, ch, st)


def evaluate(case, res):
    kind, s, p, c, m = case
    if kind == "shared":
        zs, xs, ch = ALL[s]
        d = dict(obj=DispD4, **{"obj-exact": DispD4Exact, "obj-pair": Disp})[c](model=m, dtype=D)
        if c == "obj-pair":
            d.register(TwoBodyTerm())
        ident = tuple(range(len(zs)))
        out = []
        for o in (ident, p, ident):
            x = torch.tensor([xs[i] for i in o], dtype=D, requires_grad=True)
            e = d.calculate(num([zs[i] for i in o]), x, ch, PARAMS["tpssh"])
            (g,) = torch.autograd.grad(e.sum(), x)
            out.append((e.detach().numpy(), g.numpy()))
        for k in (0, 1):
            need_close(out[1][k], out[0][k][list(p)], f"{s} {c} {m}: same object, order {p}", rtol=1e-8, atol=1e-13)
            need_close(out[2][k], out[0][k], f"{s} {c} {m}: same object, original order after {p}", rtol=1e-9, atol=1e-14)
        res.see(out[1][0], c)
        return
    if kind == "single":
        zs, xs, ch = ALL[s]
        ref = base(s, c, m)
        ov = {k: perm_arr(v, p, k) for k, v in overrides(zs, m).items()}
        got = full(c, m, [zs[i] for i in p], [xs[i] for i in p], float(ch), ov)
        for k in ref:
            need_close(got[k], perm_arr(ref[k], p, k), f"{s} perm {p} {c} {m} output {k}", rtol=1e-8, atol=1e-13)
        res.see([got[k] for k in sorted(got)])
        return
    if kind == "padded":
        zs, xs, ch, ovs, ref = base_padded(s, c, m)
        ps = p
    else:
        zs = [ALL[n][0] for n in s]
        xs = [ALL[n][1] for n in s]
        ch = [float(ALL[n][2]) for n in s]
        ovs = [overrides(z, m) for z in zs]
        rs = [base(n, c, m) for n in s]
        ref = {k: np.stack([r[k] for r in rs]) for k in rs[0]}
        ps = p
    pz = [[z[i] for i in q] for z, q in zip(zs, ps)]
    px = [[x[i] for i in q] for x, q in zip(xs, ps)]
    po = [{k: perm_arr(v, q, k) for k, v in o.items()} for o, q in zip(ovs, ps)]
    st = {k: np.stack([o[k] for o in po]) for k in po[0]}
    got = full(c, m, pz, px, ch, st)
    for k in ref:
        want = np.stack([perm_arr(r, q, k) for r, q in zip(ref[k], ps)])
        need_close(got[k], want, f"{kind} {s} perms {ps} {c} {m} output {k}", rtol=1e-8, atol=1e-13)
    res.see([got[k] for k in sorted(got)])
