"""C14: inconsistent input is rejected, explicit defaults change nothing."""
from __future__ import annotations

import itertools
import warnings

import numpy as np
import torch
from tad_mctc.data import COV_D3
from tad_mctc.ncoord import cn_d4, erf_count

import tad_dftd4 as d4
from tad_dftd4.damping import RationalDamping, ZeroDamping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact

from .. import refmodel as R
from ..drive import D, DAMP, F, model_inst, num, pack, pos
from ..harness import need, need_close
from ..systems import SYS, TPSSH

PROPERTY = "C14"
LEVEL = "exploration"
RULE = (
    "Every shape of rank 0..3 (0..4 for pair arguments) with extents 0..4 for every array argument, for each atomic-number shape and interface: accepted exactly when it is the implied one, "
    "ValueError otherwise. All subsets of explicitly passed default arguments and default parameters. Non-trivial: an error or a non-zero energy; distinct: argument, shape and outcome."
)
BOUNDS = {
    "quick": "6 number shapes x 6 arguments x 156..781 shapes x 4 interfaces; 2^9 override subsets x 3 systems x 2 precisions and 2^9 x 16 parameter subsets on one; 80 model names; all single unknown parameter names",
    "thorough": "extents up to 5 and 12 number shapes",
}
CHUNK = 2
NSH = [(1,), (2,), (3,), (2, 2), (1, 3), (2, 3)]
NSHT = NSH + [(4,), (3, 1), (2, 1, 2), (1, 1), (1, 2, 2), (2, 2, 3)]
ARGS = ("positions", "q", "rcov", "r4r2", "rvdw", "props")
IFS = ("dftd4", "d4s", "disp", "exact")
P = dict(a1=0.4, a2=5.0)
NAMES = ["model", "rcov", "r4r2", "rvdw", "q", "cutoff", "cn_function", "counting_function", "damping_function"]
PNAMES = ["s6", "s8", "s9", "alp"]
PDEF = dict(s6=1.0, s8=1.0, s9=1.0, alp=16.0)


def space(tier):
    top = 4 if tier == "quick" else 5
    out = []
    for n in NSH if tier == "quick" else NSHT:
        for a in ARGS:
            for i in IFS:
                if a == "props" and i != "dftd4":
                    continue
                out.append(("shape", n, a, i, top))
    for s in ("H2O", "NaCl2-", "batch"):
        for dt in "df":
            for k in range(0, 512, 32):
                out.append(("subset", s, dt, k))
    for k in range(0, 512, 16):
        out.append(("psubset", k))
    out += [("model", i) for i in range(3)]
    out += [("refcharges",), ("params",), ("warn",)]
    return out


def shapes(top, rank):
    for r in range(rank + 1):
        yield from itertools.product(range(top + 1), repeat=r)


def ring(nsh):
    """Atoms well separated, valid for every number shape."""
    n = nsh[-1]
    x = np.array([[2.1 * i, 0.3 * i * i, 0.2 * i] for i in range(n)])
    return num(np.broadcast_to(np.array([8, 1, 6, 7, 9][:n]), nsh).copy().tolist()), pos(np.broadcast_to(x, (*nsh, 3)).copy())


def outcome(f):
    try:
        return "value", f()
    except Exception as e:
        return type(e).__name__, e


def call(i, z, x, c, p, **kw):
    if i in ("dftd4", "d4s"):
        return d4.dftd4(z, x, c, p, model="d4" if i == "dftd4" else "d4s", **kw)
    return (DispD4 if i == "disp" else DispD4Exact)(dtype=x.dtype).calculate(z, x, c, p, **kw)


def system(s, dt):
    if s != "batch":
        z, x, c = SYS[s]
        return num(z), pos(x, dt), float(c)
    zz, _ = pack([SYS[n][0] for n in ("HCN", "OH-", "NH4+")])
    xx, _ = pack([[list(map(float, r)) for r in SYS[n][1]] for n in ("HCN", "OH-", "NH4+")], fill=[0.0, 0.0, 0.0])
    return num(zz), pos(xx, dt), torch.tensor([0.0, -1.0, 1.0], dtype=dt)


def defaults(z, x, c):
    dt = x.dtype
    cut = d4.Cutoff(disp2=60.0, disp3=40.0, cn=30.0, cn_eeq=25.0, dtype=dt)
    from tad_multicharge import get_eeq_charges

    cc = torch.as_tensor(c, dtype=dt)
    cc = cc if z.ndim == 1 else cc.unsqueeze(-1)
    return dict(
        model="d4", rcov=COV_D3(dtype=dt)[z], r4r2=torch.tensor(R.T["r4r2"], dtype=dt)[z],
        rvdw=torch.tensor(R.T["rvdw"], dtype=dt)[z.unsqueeze(-1), z.unsqueeze(-2)],
        q=get_eeq_charges(z, x, cc), cutoff=cut, cn_function=cn_d4, counting_function=erf_count, damping_function=RationalDamping(),
    )


def evaluate(case, res):
    kind = case[0]
    if kind == "shape":
        _, nsh, arg, itf, top = case
        z, x = ring(nsh)
        want = dict(positions=(*nsh, 3), props=(*nsh, 3), rvdw=(*nsh, nsh[-1])).get(arg, nsh)
        for sh in shapes(top, 4 if arg in ("positions", "rvdw", "props") else 3):
            t = torch.ones(sh, dtype=D)
            what = f"{itf}: numbers {nsh}, {arg} {sh}"
            if arg == "props":
                if sh[:-1] == nsh or not sh:
                    continue  # leading shape only: the trailing extent is not checked there
                k, r = outcome(lambda: d4.get_properties(z, t))
                need(k == "ValueError", f"{what}: {k} {r}")
            elif arg == "positions":
                if sh == want:
                    t = x
                k, r = outcome(lambda: call(itf, z, t, 0, P))
            else:
                if sh == want:
                    t = t * (0.1 if arg == "q" else 2.5)
                k, r = outcome(lambda: call(itf, z, x, 0, P, **{arg: t}))
            if arg != "props":
                if sh == want:
                    need(k == "value" and r.shape == nsh and bool(torch.isfinite(r).all()), f"{what}: rejected or wrong ({k} {r})")
                else:
                    need(k == "ValueError", f"{what}: {k} {r}")
            res.see(what, k)
    elif kind == "subset":
        _, s, dts, k0 = case
        dt = D if dts == "d" else F
        z, x, c = system(s, dt)
        full = defaults(z, x, c)
        e0 = d4.dftd4(z, x, c, TPSSH)
        tol = dict(rtol=1e-10) if dt == D else dict(rtol=1e-5, atol=1e-9)
        for k in range(k0, k0 + 32):
            kw = {n: full[n] for i, n in enumerate(NAMES) if k >> i & 1}
            e = d4.dftd4(z, x, c, TPSSH, **kw)
            need(e.dtype == dt, f"{s} with explicit {sorted(kw)}: {e.dtype}")
            need_close(e, e0, f"{s} {dts} with explicit {sorted(kw)}", **tol)
            dk = {n: v for n, v in kw.items() if n in ("rcov", "r4r2", "rvdw", "q", "cutoff")}
            ck = {}
            if "model" in kw:
                ck["model"] = "d4"
            if "cn_function" in kw:
                ck["cn_fn"] = cn_d4
            if "counting_function" in kw:
                ck["cn_fn_kwargs"] = dict(counting_function=erf_count)
            e = DispD4(**ck, dtype=dt).calculate(z, x, c, TPSSH, **dk)
            need_close(e, e0, f"{s} {dts} DispD4 with explicit {sorted(kw)}", **tol)
            res.see(s, dts, k, e)
    elif kind == "psubset":
        z, x, c = system("NaCl2-", D)
        full = defaults(z, x, c)
        e0 = d4.dftd4(z, x, c, P)
        x0 = DispD4Exact(dtype=D).calculate(z, x, c, P)
        for k in range(case[1], case[1] + 16):
            kw = {n: full[n] for i, n in enumerate(NAMES) if k >> i & 1}
            for j in range(16):
                p = {**P, **{n: PDEF[n] for i, n in enumerate(PNAMES) if j >> i & 1}}
                if (j + k) % 3 == 0:
                    p = {n: torch.tensor(v, dtype=D) for n, v in p.items()}
                if (j + k) % 2:
                    p["doi"] = "10.1000/xyz"
                if (j + k) % 5 == 0:
                    p["s10"] = 0.0
                need_close(d4.dftd4(z, x, c, p, **kw), e0, f"explicit {sorted(kw)} and parameters {sorted(p)}", rtol=1e-10)
                dk = {n: v for n, v in kw.items() if n in ("rcov", "r4r2", "rvdw", "q", "cutoff")}
                need_close(DispD4Exact(dtype=D).calculate(z, x, c, p, **dk), x0, f"exact, explicit {sorted(dk)} and parameters {sorted(p)}", rtol=1e-10)
                res.see(k, j)
    elif kind == "model":
        i = case[1]
        z, x, c = system("H2O", D)
        e0 = {m: d4.dftd4(z, x, c, TPSSH, model=m) for m in ("d4", "d4s")}
        cl = (Disp, DispD4, DispD4Exact)[i]
        good = ["d4", "D4", "d4s", "D4s", "d4S", "D4S"]
        if i == 0:
            for g in good:
                need_close(d4.dftd4(z, x, c, TPSSH, model=g), e0[g.lower()], f"model {g}", rtol=1e-12)
                res.see(g)
        bad = ["", " ", "d", "4", "d4 ", " d4", "d4x", "d44", "d1", "d2", "d6", "d7", "d9", "d0", "d4a", "d4-s", "d4_s", "eeq", "gfn2", "s", "4s", "ds", "sd4", "dd4", "d4d4s", "dftd4",
               "dft-d4", "None", "instance", "d4ss", "d3bj", "d3s", "d5s", "abc", "D4SS", "D_4"]
        for b in bad:
            for f in (lambda: cl(model=b, dtype=D), lambda: d4.dftd4(z, x, c, TPSSH, model=b)):
                k, r = outcome(f)
                need(k == "ValueError", f"{cl.__name__} model {b!r}: {k} {r}")
            res.see(b, k)
    elif kind == "refcharges":
        z, x, c = system("H2O", D)
        for key in ("d4", "d4s"):
            for b in ("", "e", "eeqs", "gfn", "gfn1", "xtb", "gfn22", "d4", "none", "qeq", "hirshfeld"):
                k, r = outcome(lambda: model_inst(key, z, D, ref_charges=b))
                need(k == "ValueError", f"{key} ref_charges {b!r}: {k}")
                rc = model_inst(key, z, D).rc6
                k, r = outcome(lambda: model_inst(key, z, D, ref_charges=b, rc6=rc).weight_references())
                need(k == "ValueError", f"{key} ref_charges {b!r} with reference C6: {k}")
                k, r = outcome(lambda: DispD4(model=key, model_kwargs=dict(ref_charges=b), dtype=D).calculate(z, x, c, TPSSH))
                need(k == "ValueError", f"{key} calculator ref_charges {b!r}: {k}")
                res.see(key, b, k)
            for g in ("eeq", "gfn2"):
                need(outcome(lambda: model_inst(key, z, D, ref_charges=g))[0] == "value", f"{key} {g}")
    elif kind == "params":
        z, x, c = system("H2O", D)
        full = dict(rational=dict(a1=0.4, a2=5.0), op=dict(a1=0.4, a2=5.0, bet=0.5), zero=dict(rs6=1.0, rs8=1.0), mzero=dict(rs6=1.0, rs8=1.0, bet=0.1))
        for k, p in full.items():
            for r in range(len(p) + 1):
                for sub in itertools.combinations(p, r):
                    q = {n: p[n] for n in sub}
                    for v in (lambda a: a, lambda a: torch.tensor(a, dtype=D)):
                        o, e = outcome(lambda: d4.dftd4(z, x, c, {n: v(a) for n, a in q.items()}, damping_function=DAMP[k]()))
                        need((o == "value") == (len(sub) == len(p)) and o in ("value", "TypeError"), f"{k} with {q}: {o} {e}")
                        res.see(k, str(sub), o)
            for bad in ("a3", "A1", "s7", "S6", "a_1", "alpha", "beta", "sr6", "rs10", "damping", "x", "s12", "cutoff", "order1", "mbd"):
                for i in IFS[:2]:
                    o, e = outcome(lambda: d4.dftd4(z, x, c, {**p, bad: 1.0}, damping_function=DAMP[k](), model="d4" if i == "dftd4" else "d4s"))
                    need(o == "TypeError", f"{k} with unknown parameter {bad}: {o} {e}")
                    res.see(k, bad, o)
    else:
        z, x, c = system("H2O", D)
        for cl in (Disp, DispD4, DispD4Exact):
            for key in ("d4", "d4s"):
                m = model_inst(key, z, D)
                for kwargs, warned in ((dict(ga=2.0), True), (dict(wf=3.0, gc=1.0), True), ({}, False), (None, False)):
                    for mod, exp in ((m, warned), (key, False)):
                        with warnings.catch_warnings(record=True) as w:
                            warnings.simplefilter("always")
                            d = cl(model=mod, model_kwargs=kwargs, dtype=D)
                        got = [v for v in w if issubclass(v.category, RuntimeWarning)]
                        need(bool(got) == exp, f"{cl.__name__} {'instance' if mod is m else key} {kwargs}: warnings {[str(v.message) for v in w]}")
                        if exp and cl is not Disp:  # ignored options are really ignored
                            need_close(d.calculate(z, x, c, TPSSH), cl(model=m, dtype=D).calculate(z, x, c, TPSSH), "ignored options", rtol=1e-12)
                        res.see(cl.__name__, key, str(kwargs), exp)
            # options are not stored in the caller's dictionary
        # charges nobody uses are rejected, see C08
        k, r = outcome(lambda: d4.dftd4(z, x, c, TPSSH, damping_function=ZeroDamping()))
        need(k == "TypeError", f"zero damping with rational parameters: {k}")
        res.see(k)
