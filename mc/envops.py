"""Further operations for C29: the whole public interface, including everything that has to fail."""
from __future__ import annotations

import itertools

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4 import data, utils
from tad_dftd4.damping import MZeroDamping, OptimisedPowerDamping, RationalDamping, ZeroDamping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d3 import D3ATM
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4, DispD4Exact
from tad_dftd4.dispersion.threebody import get_atm_dispersion
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
from tad_dftd4.reference import d4 as ref

from .systems import PARAMS, SYS, big_cluster

D = torch.double
P = dict(PARAMS["tpssh"], bet=1.5, rs6=1.1, rs8=1.05)


def system(n="H2O", dt=D):
    z, x, c = SYS[n]
    return torch.tensor(z), torch.tensor(np.array(x, float), dtype=dt), torch.tensor(float(c), dtype=dt)


def batch(names=("H2O", "NaCl2-", "He"), dt=D):
    s = [system(n, dt) for n in names]
    n = max(len(z) for z, _, _ in s)
    Z, X = torch.zeros(len(s), n, dtype=torch.long), torch.zeros(len(s), n, 3, dtype=dt)
    for i, (z, x, _) in enumerate(s):
        Z[i, :len(z)], X[i, :len(z)] = z, x
    return Z, X, torch.stack([c for _, _, c in s])


def failure(f):
    """Type of the error of f(), which is part of the interface; AssertionErrors do not exist in optimised interpreters."""
    try:
        f()
    except (ValueError, TypeError, KeyError, RuntimeError, IndexError) as e:
        return type(e).__name__
    return "accepted"


def shapes():
    z, x, c = system()
    one = {
        "positions": lambda k: d4.dftd4(z, x[k], c, P),
        "q": lambda k: d4.dftd4(z, x, c, P, q=torch.zeros(3, dtype=D)[k]),
        "r4r2": lambda k: d4.dftd4(z, x, c, P, r4r2=torch.ones(3, dtype=D)[k]),
        "rcov": lambda k: d4.dftd4(z, x, c, P, rcov=torch.ones(3, dtype=D)[k]),
        "rvdw": lambda k: d4.dftd4(z, x, c, P, rvdw=torch.ones(3, 3, dtype=D)[k]),
    }
    keys = {"fewer": slice(0, 2), "one": slice(0, 1), "none": slice(0, 0), "more dimensions": None, "index": 0}
    return [f"{a} {k}: {failure(lambda: f(v))}" for (a, f), (k, v) in itertools.product(one.items(), keys.items())]


def names():
    z, x, c = system()
    out = []
    for m in ("d5", "D4X", "", "d4 ", "d3"):
        out.append(f"{m}: {failure(lambda: DispD4(m, dtype=D))}")
    for r in ("eeq2", "GFN1", ""):
        out.append(f"{r}: {failure(lambda: d4.D4Model(z, ref_charges=r, dtype=D).weight_references())}")
    for k in (dict(functional="nonsense"), dict(functional="pbe", variant="nonsense"), dict(functional=None, variant="nonsense"), dict(functional="pbe", method="d9")):
        out.append(f"{k}: {failure(lambda: d4.get_params(**{'method': 'd4', **k}))}")
    out.append(failure(lambda: Disp(dtype=D).deregister(TwoBodyTerm())))
    out.append(failure(lambda: d4.Cutoff(dtype=D).type(torch.long)))
    out.append(failure(lambda: DispD4(dtype=D).type(torch.int)))
    q = torch.zeros(3, dtype=D)
    c0 = Disp(dtype=D)
    c0.register(D4ATMApprox())
    out.append(failure(lambda: c0.calculate(z, x, c, P, q=q)))
    for f, cls in itertools.product((6, 7, 8, 9, 10, 12), (ZeroDamping, RationalDamping, MZeroDamping, OptimisedPowerDamping)):
        r = torch.ones(2, dtype=D)
        if cls is ZeroDamping or f in (6, 8):
            out.append(f"{cls.__name__} {f}: {failure(lambda: cls()(r, r, f, **{k: v for k, v in P.items() if k[0] in 'ar' or k == 'bet'}))}")
    return out


def tables():
    out = [data.R4R2(dtype=D), data.ZEFF().double(), data.GAM(dtype=D)]
    out += [ref.refc.double(), ref.refcovcn.double()]
    z = torch.arange(1, 104)
    for m in (d4.D4Model, d4.D4SModel):
        out.append(m(z[::9], dtype=D).wf)
        out.append(m(z[::9], dtype=D).weight_references(torch.full((12,), 2.3, dtype=D), torch.full((12,), 0.1, dtype=D)))
    out.append(d4.D4Model(torch.arange(1, 87)[::7], ref_charges="gfn2", dtype=D).rc6)
    return out


def lookups():
    out = []
    for f in ("pbe", "PBE", "b3lyp", "tpssh", "r2scan", "hf", "pbe0", "wb97x", None, "default"):
        for m, v in (("d4", None), ("d4", "bj-eeq-atm"), ("d4", "bj-eeq-mbd"), ("d3", None), ("d3", "bj"), ("d3", "zero"), ("d3", "op")):
            for doi in (False, True):
                try:
                    out.append(sorted(d4.get_params(method=m, functional=f, variant=v, keep_doi=doi).items()))
                except KeyError as e:
                    out.append("KeyError")
    return out


def energies():
    out = []
    for m, (z, x, c) in itertools.product(("d4", "d4s"), (system(), system("NaCl2-"), batch(), system("AuPtH", torch.float32))):
        p = dict(PARAMS["s10"], rs6=1.1, rs8=1.0, bet=1.5)
        for f in (RationalDamping, ZeroDamping, MZeroDamping, OptimisedPowerDamping):
            pf = p if f is RationalDamping else {k: v for k, v in p.items() if k != "s10"}
            out.append(d4.dftd4(z, x, c, pf, model=m, damping_function=f(), cutoff=d4.Cutoff(disp2=20, dtype=x.dtype)))
        t = Disp(m, dtype=x.dtype)
        for k in (TwoBodyTerm, D4ATMApprox, D4ATMExact, D3ATM):
            t.register(k(charge_dependent=True))
        out.append(t.calculate(z, x, c, p))
        out.append(t.type(torch.float32).type(x.dtype).calculate(z, x.clone(), c, p))
    return out


def derivatives():
    out = []
    z, x, c = batch()
    for m in ("d4", "d4s"):
        p = {k: torch.tensor(float(v), dtype=D, requires_grad=True) for k, v in PARAMS["s10"].items()}
        y = x.clone().requires_grad_(True)
        for cls in (DispD4, DispD4Exact):
            e = cls(m, dtype=D).calculate(z, y, c, p)
            out += [g for g in torch.autograd.grad(e.sum(), [y, *p.values()], allow_unused=True) if g is not None]
        z1, x1, c1 = system("LiH")
        out.append(torch.autograd.functional.hessian(lambda t: d4.dftd4(z1, t, c1, PARAMS["tpssh"], model=m).sum(), x1))
    return out


def pieces():
    out = []
    z, x, c = batch()
    cn, q, c6, al = d4.get_properties(z, x, c)
    out += [cn, q, c6, al]
    for m in (d4.D4Model, d4.D4SModel):
        k = m(z, dtype=D)
        a, b, e = (t.clone().requires_grad_(True) for t in (cn, q, c6))
        w = k.weight_references(a, b)
        out += list(k.weight_references(cn, q, with_dgwdq=True, with_dgwdcn=m is d4.D4Model))
        s = k.get_atomic_c6(w).sum() + k.get_weighted_pols(w).sum()
        out += list(torch.autograd.grad(s, [a, b]))
    r4, rv = data.R4R2(dtype=D)[z].clone().requires_grad_(True), torch.full((*z.shape, z.shape[-1]), 5.0, dtype=D, requires_grad=True)
    e6 = c6.clone().requires_grad_(True)
    for f in (RationalDamping(), ZeroDamping()):
        for mat in (False, True):
            e = dispersion2(z, x, P, e6, r4, rv, f, as_matrix=mat)
            out.append(e)
            out += [g for g in torch.autograd.grad(e.sum(), [e6, r4, rv], allow_unused=True) if g is not None]
    c9 = torch.ones(*z.shape, z.shape[-1], z.shape[-1], dtype=D, requires_grad=True)
    e = get_atm_dispersion(z, x, c9, rv, torch.tensor(40.0, dtype=D))
    out.append(e)
    out += list(torch.autograd.grad(e.sum(), [c9, rv]))
    for f, s in ((utils.trapzd, (3, 4, 23)), (utils.trapzd_noref, (3, 23)), (utils.trapzd_atm, (2, 2, 2, 23))):
        a = torch.linspace(0.1, 1.0, int(np.prod(s)), dtype=D).reshape(s).requires_grad_(True)
        r = f(a)
        out += [r, torch.autograd.grad(r.sum(), a)[0]]
    for f in (RationalDamping(), ZeroDamping(), MZeroDamping(), OptimisedPowerDamping()):
        r = torch.linspace(1, 9, 9, dtype=D, requires_grad=True)
        v = f(r, torch.full((9,), 4.0, dtype=D), 6, **{k: v for k, v in P.items() if k[0] in "ar" or k == "bet"})
        out += [v, torch.autograd.grad(v.sum(), r)[0]]
    return out


def sizes():
    out = []
    for n in (20, 26, 33, 47, 67):
        z, x = big_cluster(n)
        z, x = torch.tensor(z), torch.tensor(np.array(x, float), dtype=D)
        p = dict(P, s9=0.0) if n > 40 else P
        for m in ("d4", "d4s"):
            c = DispD4(m, dtype=D)
            if n > 40:
                c.deregister(c.terms[1])
            out.append(c.calculate(z, x, 1.0, p))
        out += list(d4.get_properties(z, x, 1.0))
    return out


EXTRA = {
    "x_sizes": sizes,
    "x_shapes": shapes, "x_names": names, "x_tables": tables, "x_lookups": lookups, "x_energies": energies, "x_derivatives": derivatives, "x_pieces": pieces,
}


def flat(r):
    return [str(v) if not isinstance(v, torch.Tensor) else v for v in r]
