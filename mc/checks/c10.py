"""C10: damping functions."""
from __future__ import annotations

import itertools

import numpy as np
import torch

import tad_dftd4 as d4

from ..drive import D, DAMP, F, num, pos
from ..harness import Violation, need, need_close
from ..systems import SYS

PROPERTY = "C10"
LEVEL = "exploration"
RULE = (
    "Values: full product damping x order x 25 distances x 12 radii x parameter grid x parameter kind (float, int, tensor, every subset as tensors and the rest as numbers) x precision x tensor shape, against the closed formulas. "
    "Parameters: for each damping and order all 3^6 assignments of {omitted, None, given} to the six relevant parameters. Non-trivial: a non-zero value or an error; distinct: values differ in 8 digits."
)
BOUNDS = {
    "quick": "4 dampings x orders 6,8,9,10 x 25 distances (1e-3..1e3 bohr) x 12 radii x 15-42 parameter sets (alp 0..30, bet 0..12); 4 x 4 x 729 parameter assignments x 11-13 settings of the other orders' parameters",
    "thorough": "as quick with 97 distances, 40 radii and all 3^5-3^6 settings of the other orders' parameters",
}
CHUNK = 4

RS9, ALP = 1.0, 16.0
PGRID = {
    "rational": [dict(a1=a, a2=b) for a in (0.0, 0.05, 0.3, 0.44286966, 1.0, 1.7) for b in (0.0, 0.4, 4.6, 6.5, 8.75, 11.0, 13.3)],
    "op": [dict(a1=a, a2=b, bet=c) for a in (0.15, 0.6) for b in (2.5, 4.75) for c in (0.0, 2.0, 6.0, 1.5, 0.3, 8.0, 12.0)],
    "zero": [dict(rs6=a, rs8=b, alp=c) for a in (0.7, 1.217) for b in (1.0, 0.9) for c in (12.0, 14.0, 16.5)] + [dict(rs6=1.1, rs8=0.8)]
    + [dict(rs6=1.05, rs8=0.95, alp=c) for c in (0.0, 0.5, 1.0, 2.0, 3.0, 5.5, 6.0, 7.0, 8.0, 9.0, 10.0, 20.0, 30.0)],
    "mzero": [dict(rs6=a, rs8=b, alp=c, bet=e) for a in (0.9, 1.3) for b in (1.0, 0.8) for c in (13.0, 14.0) for e in (0.0, 0.03, 0.2)]
    + [dict(rs6=1.05, rs8=0.95, alp=c, bet=0.05) for c in (0.0, 0.5, 1.0, 2.0, 3.0, 5.5, 6.0, 7.0, 8.0, 9.0, 10.0, 20.0, 30.0)],
}
ZGRID9 = [dict(rs9=a, alp=c) for a in (1.0, 4.0 / 3.0, 0.8) for c in (14.0, 16.0 / 3.0, 0.0, 1.0, 2.0, 6.0, 9.0, 30.0)] + [dict(), dict(alp=12.0), dict(rs9=1.2)]
ORDERS = {"rational": (6, 8, 10), "op": (6, 8), "zero": (6, 8, 9), "mzero": (6, 8)}
NAMES = ("a1", "a2", "bet", "alp", "s", "rs")
VAL = dict(a1=0.4, a2=5.0, bet=0.5, alp=14.0, s=1.1, rs=1.2)


def space(tier):
    out = []
    for k in DAMP:
        for o in ORDERS[k]:
            for i in range(len(grid(k, o))):
                np_ = len(grid(k, o)[i])
                for kind in ["float", "tensor", "int"] + [f"mix{b}" for b in range(1, 2**np_ - 1)]:
                    for dt in ("d", "f"):
                        out.append(("val", k, o, i, kind, dt, tier))
    for k in DAMP:
        for o in (6, 8, 9, 10):
            out += [("req", k, o, tier, i) for i in range(1 if tier == "quick" else 9)]
    for k in DAMP:
        out.append(("disp", k))
        out.append(("default-instance", k))
    return out


def grid(k, o):
    if k == "zero" and o == 9:
        return ZGRID9
    return PGRID[k]


def formula(k, R, rad, o, p):
    """f_n(R) / R^n."""
    if k == "rational":
        r0 = p["a1"] * np.sqrt(rad) + p["a2"]
        return 1.0 / (R**o + r0**o)
    if k == "op":
        r0 = p["a1"] * np.sqrt(rad) + p["a2"]
        return 1.0 / (R**o + (r0 / R) ** p["bet"] * r0**o)
    alp = p.get("alp", ALP) + (2 if o == 8 else 0)
    rs = p["rs6"] if o == 6 else p["rs8"] if o == 8 else p.get("rs9", RS9)
    if k == "zero":
        return 1.0 / (1.0 + 6.0 * (R / (rs * rad)) ** (-alp)) / R**o
    return 1.0 / (1.0 + 6.0 * (R / (rs * rad) + p["bet"] * rad) ** (-alp)) / R**o


def conv(p, kind, dt):
    if kind == "float":
        return dict(p)
    if kind == "int":
        return {k: int(v) if float(v).is_integer() else v for k, v in p.items()}
    m = int(kind[3:]) if kind.startswith("mix") else -1
    return {k: torch.tensor(v, dtype=dt) if m >> j & 1 else v for j, (k, v) in enumerate(p.items())}


def outcome(f):
    try:
        return "value", f()
    except Exception as e:
        return type(e).__name__, e


def evaluate(case, res):
    if case[0] == "val":
        _, k, o, i, kind, dt, tier = case
        p = grid(k, o)[i]
        dtype = D if dt == "d" else F
        nR, nr = (25, 12) if tier == "quick" else (97, 40)
        R = np.logspace(-3, 3, nR) if dt == "d" else np.logspace(-0.3, 1.3, nR)
        rad = np.linspace(3.0, 200.0, nr) if k in ("rational", "op") else np.linspace(2.2, 9.0, nr)
        RR, rr = np.meshgrid(R, rad, indexing="ij")
        f = DAMP[k]()
        pp = conv(p, kind, dtype)
        if o == 10:
            pp["s10"] = 1.0
        ref = formula(k, RR, rr, o, p)
        tR, tr = torch.tensor(RR, dtype=dtype), torch.tensor(rr, dtype=dtype)
        got = f(tR, tr, o, **pp)
        need(got.shape == tR.shape and got.dtype == dtype, f"{case}: {got.shape} {got.dtype}")
        rtol = 1e-10 if dt == "d" else 2e-4
        need_close(got, ref, f"{case} {p}", rtol=rtol, scale=0.0, atol=1e-300 if dt == "d" else 1e-30)
        res.see(got)
        if dt == "d":
            # scaling parameters do not enter the damping function, and neither does the shape
            got2 = f(tR.reshape(1, nR, nr), tr.reshape(1, nR, nr), o, **{**pp, "s6": 3.0, "s8": 0.0, "s9": -2.0, "s10": 0.25, "doi": "10.0/abc"})
            need_close(got2[0], ref, f"{case} {p} with scaling parameters", rtol=rtol, scale=0.0, atol=1e-300)
            one = f(tR[3, 2], tr[3, 2], o, **pp)
            need_close(one, ref[3, 2], f"{case} {p} scalar", rtol=rtol)
            if k == "zero":
                fac = f(tR, tr, o, only_damping=True, **pp)
                need_close(fac, ref * RR**o, f"{case} {p} only_damping", rtol=1e-9, scale=0.0, atol=1e-300)
                need(bool((fac >= 0).all() and (fac <= 1).all()), f"{case}: damping factor outside [0, 1]")
            # limits
            need(np.all(np.abs(ref[-1] * R[-1] ** o - 1.0) < 0.2) or k == "mzero" or p.get("alp", 9.0) < 6.0, "reference long range")
            g = got.numpy()
            need(np.all(np.abs(g[-1] * R[-1] ** o - ref[-1] * R[-1] ** o) < 1e-8), f"{case}: long-range limit")
            need(np.all(g >= 0.0), f"{case}: negative damping")
    elif case[0] == "req":
        _, k, o, tier, part = case
        sn, rn = f"s{o}", f"rs{o}"
        R = torch.tensor([2.0, 6.0], dtype=D)
        rad = torch.tensor([20.0, 30.0] if k in ("rational", "op") else [3.0, 5.0], dtype=D)
        need_ = {"rational": ("a1", "a2"), "op": ("a1", "a2", "bet"), "zero": ("rs", "alp"), "mzero": ("rs", "alp", "bet")}[k]
        default = dict(a1=None, a2=None, bet=None, alp=ALP, s=None if o == 10 else 1.0, rs=RS9 if o == 9 else None)
        oth = [n for n in ("s6", "s8", "s9", "s10", "rs6", "rs8", "rs9") if n not in (sn, rn)]
        unrelated = [{}, {n: None for n in oth}, {n: 0.9 for n in oth}] + [{n: v} for n in oth for v in (None, 0.9)]
        if tier == "thorough":
            unrelated = [{n: v for n, v in zip(oth, a) if v != "omit"} for a in itertools.product(("omit", None, 0.9), repeat=len(oth))]
        ASG = list(itertools.product(("omit", "none", "give"), repeat=6))
        for asg in ASG if tier == "quick" else ASG[part::9]:
            st = dict(zip(NAMES, asg))
            if o == 10 and st["rs"] != "omit":
                continue  # there is no rs10
            for extra in unrelated:
                kw = dict(extra)
                val = dict(default)
                for n in NAMES:
                    key = {"s": sn, "rs": rn}.get(n, n)
                    kw.pop(key, None)
                    if n in ("s", "rs") and key in extra:
                        continue
                    if st[n] == "none":
                        kw[key], val[n] = None, None
                    elif st[n] == "give":
                        kw[key] = val[n] = VAL[n]
                if any(kx in extra for kx in (sn, rn)):
                    continue
                zero = val["s"] is None and (val["rs"] is None or o == 10)
                what = f"{k} order {o} with {kw}"
                kind, r = outcome(lambda: DAMP[k]()(R, rad, o, **kw))
                if zero:
                    need(kind == "value" and bool((r == 0).all()), f"{what}: absent term gives {r}")
                    res.see(k, o, "zero", str(asg))
                elif o not in ORDERS[k]:
                    if k == "rational":
                        continue  # order 9 rational: not specified
                    need(kind != "value", f"{what}: unsupported order accepted: {r}")
                    res.see(k, o, kind)
                elif any(val[n] is None for n in need_):
                    need(kind == "TypeError", f"{what}: missing parameter gives {kind} {r}")
                    res.see(k, o, kind, str(asg))
                else:
                    need(kind == "value", f"{what}: {kind}: {r}")
                    p = {("rs%d" % o if n == "rs" else n): val[n] for n in ("a1", "a2", "bet", "alp", "rs")}
                    need_close(r, formula(k, R.numpy(), rad.numpy(), o, p), what, rtol=1e-10)
                    res.see(r)
        kind, r = outcome(lambda: DAMP[k]()(R, rad, o, s6=1.0, s8=1.0, s10=1.0, rs6=1.0, rs8=1.0, a1=0.4, a2=5.0, bet=1.0, nonsense=1.0))
        need(kind == "TypeError", f"{k}: unknown parameter gives {kind}")
    elif case[0] == "disp":
        k = case[1]
        z, x, _ = SYS["H2O"]
        full = dict(a1=0.4, a2=5.0, rs6=1.1, rs8=1.0, bet=0.1, alp=14.0)
        req = {"rational": ("a1", "a2"), "op": ("a1", "a2", "bet"), "zero": ("rs6", "rs8"), "mzero": ("rs6", "rs8", "bet")}[k]
        f = lambda p: outcome(lambda: d4.dftd4(num(z), pos(x), 0, p, damping_function=DAMP[k]()))
        names = list(full)
        for bits in itertools.product((0, 1), repeat=len(names)):
            p = {n: full[n] for n, b in zip(names, bits) if b}
            kind, r = f(p)
            if all(n in p for n in req):
                need(kind == "value", f"dftd4 {k} with {p}: {kind} {r}")
            else:
                need(kind == "TypeError", f"dftd4 {k} with {p}: {kind} {r}")
            res.see(k, kind, str(bits), r if kind == "value" else 0.0)
        kind, r = f(dict(full, s10=1.0))
        need((kind == "value") == (k == "rational"), f"dftd4 {k} with s10: {kind}")
    else:
        # instances are interchangeable and hold no parameters
        k = case[1]
        a, b = DAMP[k](), DAMP[k]()
        R = torch.tensor([2.0, 6.0], dtype=D)
        rad = torch.tensor([20.0, 30.0] if k in ("rational", "op") else [3.0, 5.0], dtype=D)
        full = dict(a1=0.4, a2=5.0, rs6=1.1, rs8=1.0, bet=0.1, alp=14.0)
        x1 = a(R, rad, 6, **full)
        a(R, rad, 8, **{**full, "a1": 1.0, "rs8": 2.0, "doi": "x"})
        need_close(a(R, rad, 6, **full), x1, f"{k}: second call", rtol=1e-12)
        need_close(b(R, rad, 6, **full), x1, f"{k}: other instance", rtol=1e-12)
        for o in DAMP:
            need((DAMP[k]() == DAMP[o]()) == (k == o), f"equality of {k} and {o}")
        res.see(x1)
