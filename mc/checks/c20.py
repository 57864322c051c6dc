"""C20: stand-alone two- and three-body functions."""
from __future__ import annotations

import itertools

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.damping import RationalDamping, ZeroDamping
from tad_dftd4.dispersion.d4 import DispD4Exact
from tad_dftd4.dispersion.threebody import get_atm_dispersion
from tad_dftd4.dispersion.twobody import dispersion2

from .. import refmodel as R
from ..drive import D, DAMP, F, num, pack, pos
from ..harness import Violation, need, need_close
from ..systems import PARAMS, SYS, TPSSH, big_cluster

PROPERTY = "C20"
LEVEL = "exploration"
RULE = (
    "Full product of systems x damping functions x parameter sets x cutoffs x options of the two stand-alone functions with unsymmetric artificial coefficients and radii as well as those of the model, "
    "every matrix element / atomic energy compared with the reference model, plus reproduction of the assembled energy. Non-trivial: non-zero energy; distinct: 8 digits."
)
BOUNDS = {
    "quick": "20 systems, 2 clusters and 5 padded batches x 4 dampings x 8 parameter sets x 4 cutoffs x matrix/atoms x 2 precisions; ATM: same systems x 3 C9 sets x 3 radii sets x 4 cutoffs x 4 s9 x 4 alp forms",
    "thorough": "as quick with clusters up to 40 atoms, 12 padded batches and 7 cutoffs",
}
CHUNK = 2
ZP = [dict(rs6=1.1, rs8=1.02, alp=14.0), dict(s6=0.5, s8=2.0, rs6=0.9, rs8=0.8, s9=0.0, alp=12.0), dict(s8=0.0, rs6=1.3, rs8=1.0)]
MP = [dict(p, bet=b) for p, b in zip(ZP, (0.02, 0.1, 0.0))]
OP = [dict(a1=0.4, a2=5.0, bet=0.0), dict(a1=0.5, a2=4.0, bet=2.0, s8=0.7), dict(s6=0.0, a1=0.3, a2=6.0, bet=6.0, s9=2.0)]
PSETS = dict(rational=list(PARAMS.values()), zero=ZP, mzero=MP, op=OP)
BATCHES = (("H2O", "He"), ("HCN", "UF3Cs", "H2O"), ("mix8", "Ar3"), ("LiH", "LiH"), ("H-", "NH4+", "AuPtH", "CO"))
MORE = (("He", "H-"), ("C6H6", "water2"), ("mix10", "mix8"), ("LrNo", "H2", "OH-"), ("far", "HCN"), ("SiH4", "UF3Cs"), ("NaCl2-", "NH4+", "He"))


def space(tier):
    out = []
    sy = list(SYS) + ["cluster12", "cluster20"] + list(BATCHES) + (["cluster30", "cluster40", *MORE] if tier == "thorough" else [])
    cuts = (None, 4.5, 7.0, 1e3) + ((2.6, 20.0, 59.0) if tier == "thorough" else ())
    for s, k, c in itertools.product(sy, DAMP, cuts):
        out.append(("two", s, k, c))
    for s, c, g in itertools.product(sy, cuts, range(3)):
        out.append(("atm", s, c, g))
    for s, m in itertools.product(sy, ("d4", "d4s")):
        out.append(("whole", s, m))
    out.append(("defaults",))
    return out


def load(s):
    if isinstance(s, tuple):
        sy = [SYS[n] for n in s]
        zz, mask = pack([q[0] for q in sy], layout="middle")
        xx, _ = pack([[list(map(float, r)) for r in q[1]] for q in sy], fill=[0.4, 0.1, 0.2], layout="middle")
        return num(zz), pos(xx), sy, mask
    if s.startswith("cluster"):
        z, x = big_cluster(int(s[7:]))
        sy = [(z, x, 0)]
    else:
        sy = [SYS[s]]
    return num(sy[0][0]), pos(sy[0][1]), sy, np.ones((1, len(sy[0][0])), bool)


def spread(rows, mask, nd, batched):
    """Embed per-system arrays (rank nd) in a padded batch."""
    n = mask.shape[1]
    out = np.zeros((len(rows),) + (n,) * nd)
    for i, r in enumerate(rows):
        ix = np.nonzero(mask[i])[0]
        out[(i, *np.ix_(*[ix] * nd))] = r
    return out if batched else out[0]


def art(n, k, seed):
    """Artificial positive coefficients, symmetric for seed 0, otherwise arbitrary."""
    i = np.arange(n)
    if k == 2:
        a = 3.0 + (i[:, None] * 7 + i[None, :] * (7 if seed == 0 else 5)) % 11
        return (a + a.T) / 2 if seed == 0 else a.astype(float)
    a = 10.0 + (i[:, None, None] * 7 + i[None, :, None] * 5 + i[None, None, :] * 3) % 13
    return a.astype(float)


def evaluate(case, res):
    kind = case[0]
    if kind == "two":
        _, s, k, cut = case
        z, x, sy, mask = load(s)
        bat = isinstance(s, tuple)
        for (ip, p), seed in itertools.product(enumerate(PSETS[k]), (0, 1)):
            c6s = [art(len(q[0]), 2, seed) for q in sy]
            if seed == 0:
                r4s = [R.T["r4r2"][q[0]] for q in sy]
                vds = [R.T["rvdw"][np.ix_(q[0], q[0])] for q in sy]
            else:
                r4s = [1.5 + (np.arange(len(q[0])) * 3 % 7) * 0.5 for q in sy]
                vds = [3.0 + art(len(q[0]), 2, 0) / 5.0 for q in sy]
            E = [R.two_body_matrix(q[0], q[1], p, c6, 60.0 if cut is None else cut, k, r4, vd) for q, c6, r4, vd in zip(sy, c6s, r4s, vds)]
            want = spread(E, mask, 2, bat)
            for dt in (D, F):
                t = lambda a, nd: torch.tensor(spread(a, mask, nd, bat), dtype=dt)  # noqa: E731
                c6, r4, vd = t(c6s, 2), t(r4s, 1), t(vds, 2)
                pp = p if (ip + seed) % 2 else {n: torch.tensor(float(v), dtype=dt) for n, v in p.items()}
                ct = None if cut is None else torch.tensor(cut, dtype=dt)
                a = (z, x.to(dt), pp, c6, r4)
                if k == "rational" and (ip + seed) % 2:
                    kw = {} if ct is None else dict(cutoff=ct)
                else:
                    kw = dict(rvdw=vd, damping_function=DAMP[k](), cutoff=ct)
                tol = dict(rtol=1e-9, atol=1e-15) if dt == D else dict(rtol=3e-4, atol=1e-7 * max(np.abs(want).max(), 1e-30))
                m = dispersion2(*a, **kw, as_matrix=True)
                e = dispersion2(*a, **kw)
                need(m.dtype == dt and e.dtype == dt, f"{case} {p} types {m.dtype} {e.dtype}")
                need_close(m, -want, f"{case} {p} coefficients {seed} {dt} matrix", **tol)
                need_close(e, -0.5 * want.sum(-1), f"{case} {p} coefficients {seed} {dt} atoms", **tol)
                need_close(dispersion2(*a, **kw, as_matrix=False), e, f"{case} {p} explicit default", rtol=1e-12)
                need(not torch.diagonal(m, dim1=-2, dim2=-1).any(), f"{case} {p}: diagonal")
                if seed == 0:
                    need_close(m.mT, m, f"{case} {p}: symmetry", rtol=3e-4 if dt == F else 1e-10)
                res.see(k, m)
    elif kind == "atm":
        _, s, cut, g = case
        z, x, sy, mask = load(s)
        bat = isinstance(s, tuple)
        c9s, rads = [], []
        for zz, xx, _ in sy:
            n = len(zz)
            r4 = R.T["r4r2"][zz]
            if g == 0:
                c9s.append(np.full((n, n, n), 12.5))
                rads.append(np.full((n, n), 5.5))
            elif g == 1:
                c9s.append(R.c9_approx(R.atomic_c6(zz, R.weights(zz, R.dep_cn(zz, xx), np.zeros(n)))))
                rads.append(0.4 * np.sqrt(3 * r4[:, None] * r4) + 5.0)
            else:
                c9s.append(art(n, 3, 1) - 15.0)
                rads.append(3.0 + art(n, 2, 0) / 4.0)
        for s9, alp in itertools.product((None, 0.0, 1.7, "t"), (None, 14.0, 9, "t")):
            v9, va = {None: 1.0, "t": 0.6}.get(s9, s9), {None: 16.0, "t": 12.5}.get(alp, alp)
            E = [R.atm_energy(q[1], c9, rad, 40.0 if cut is None else cut, v9, va) for q, c9, rad in zip(sy, c9s, rads)] if len(sy[0][0]) <= 12 or (s9, alp) in ((None, None), ("t", 14.0)) else None
            if E is None:
                continue
            want = spread(E, mask, 1, bat)
            for dt in (D, F):
                kw = {}
                if s9 is not None:
                    kw["s9"] = torch.tensor(v9, dtype=dt) if s9 == "t" else s9
                if alp is not None:
                    kw["alp"] = torch.tensor(va, dtype=dt) if alp == "t" else alp
                if s9 == "t":
                    kw["damping_function"] = ZeroDamping()
                c9 = torch.tensor(spread(c9s, mask, 3, bat), dtype=dt)
                rad = torch.tensor(spread(rads, mask, 2, bat), dtype=dt)
                if bat and g != 1:  # values of padding must not matter
                    rad = torch.where(rad == 0, torch.tensor(4.0, dtype=dt), rad)
                e = get_atm_dispersion(z, x.to(dt), c9, rad, torch.tensor(40.0 if cut is None else cut, dtype=dt), **kw)
                need(e.dtype == dt, f"{case} {s9} {alp}: {e.dtype}")
                need_close(e, want, f"{case} s9={s9} alp={alp} {dt}", **(dict(rtol=1e-9, atol=1e-16) if dt == D else dict(rtol=1e-3, atol=1e-3 * max(np.abs(want).max(), 1e-12))))
                res.see(e)
    elif kind == "whole":
        _, s, m = case
        z, x, sy, mask = load(s)
        bat = isinstance(s, tuple)
        ch = torch.tensor([float(q[2]) for q in sy], dtype=D)
        ch = ch if bat else ch[0]
        cn = torch.tensor(spread([R.dep_cn(*q[:2]) for q in sy], mask, 1, bat), dtype=D)
        q = torch.tensor(spread([R.dep_q(*k) for k in sy], mask, 1, bat), dtype=D)
        mod = (d4.D4Model if m == "d4" else d4.D4SModel)(z, dtype=D)
        c6q, c6 = mod.get_atomic_c6(mod.weight_references(cn, q)), mod.get_atomic_c6(mod.weight_references(cn))
        al = mod.get_weighted_pols(mod.weight_references(cn))
        r4 = d4.data.R4R2(dtype=D)[z]
        for pn, p in PARAMS.items():
            P = {**R.DEFAULTS, **p}
            rad = P["a1"] * torch.sqrt(3 * r4.unsqueeze(-1) * r4.unsqueeze(-2)) + P["a2"]
            e2 = dispersion2(z, x, p, c6q, r4)
            c9 = torch.sqrt((c6.unsqueeze(-1) * c6.unsqueeze(-2) * c6.unsqueeze(-3)).abs())
            kw = {k: p[k] for k in ("s9", "alp") if k in p}
            e3 = get_atm_dispersion(z, x, c9, rad, torch.tensor(40.0, dtype=D), **kw)
            want = d4.dftd4(z, x, ch, p, model=m)
            need_close(e2 + e3, want, f"{case} {pn}", rtol=1e-8, atol=1e-14)
            m2 = dispersion2(z, x, p, c6q, r4, as_matrix=True)
            need_close(0.5 * m2.sum(-1) + e3, want, f"{case} {pn} from the matrix", rtol=1e-8, atol=1e-14)
            w = torch.tensor(R.W23 * R.THOPI, dtype=D)
            c9e = torch.einsum("w,...iw,...jw,...kw->...ijk", w, al, al, al)
            e3 = get_atm_dispersion(z, x, c9e, rad, torch.tensor(40.0, dtype=D), **kw)
            need_close(e2 + e3, DispD4Exact(m, dtype=D).calculate(z, x, ch, p), f"{case} {pn} exact", rtol=1e-8, atol=1e-14)
            res.see(m, want)
    else:
        # documented defaults: cutoffs 60 bohr (two-body), s9 = 1, alp = 16, rational / zero damping
        z = num([18, 18])
        c6, r4 = torch.full((2, 2), 60.0, dtype=D), torch.full((2,), 3.0, dtype=D)
        for r, on in ((59.999, True), (60.0, True), (60.001, False), (45.0, True)):
            e = dispersion2(z, pos([[0, 0, 0], [r, 0, 0]]), TPSSH, c6, r4)
            need(bool((e != 0).all()) == on, f"default two-body cutoff at {r}: {e}")
            need_close(dispersion2(z, pos([[0, 0, 0], [r, 0, 0]]), TPSSH, c6, r4, None, RationalDamping(), torch.tensor(60.0, dtype=D)), e, "explicit defaults", rtol=1e-13)
            res.see(e)
        for args in (("zero", dict(a1=0.4, a2=5.0)), ("rational", dict(rs6=1.0, rs8=1.0)), ("op", dict(a1=0.4, a2=5.0))):
            try:
                dispersion2(z, pos([[0, 0, 0], [5.0, 0, 0]]), args[1], c6, r4, torch.full((2, 2), 5.0, dtype=D), DAMP[args[0]]())
            except TypeError:
                res.see(str(args))
                continue
            raise Violation(f"missing parameters accepted: {args}")
