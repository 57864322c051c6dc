"""C12: Casimir-Polder relation of C6 coefficients and polarizabilities."""
from __future__ import annotations

import itertools

import numpy as np
import torch

from tad_dftd4.utils import trapzd, trapzd_atm, trapzd_noref

from .. import refmodel as R
from ..drive import D, F, model_inst, num
from ..harness import need, need_close

PROPERTY = "C12"
LEVEL = "exploration"
RULE = (
    "All 103 x 103 element pairs x all 7 x 7 unit weights x options against the NumPy quadrature; integration helpers on every unit polarizability and pair of unit "
    "polarizabilities (complete by bilinearity) plus dense tensors for every shape of the enumeration. Non-trivial: non-zero coefficients; distinct: 8 digits."
)
BOUNDS = {
    "quick": "103 x 103 pairs x {d4, d4s} x 49 unit weights and 3 dense weight sets x 2 precisions (default options), 3 further option sets per element row; systems of 1..12 and 40 atoms, batches up to 2 batch dimensions with padding; 23 x 23 frequency pairs",
    "thorough": "as quick with 4 option sets for all pairs and systems up to 30 atoms",
}
CHUNK = 1
OPTS = [dict(), dict(ga=1.6), dict(gc=0.7, ga=2.5), dict(ref="gfn2")]


def space(tier):
    out = [("row", z, m, i, tier) for z in range(1, 104) for m in ("d4", "d4s") for i in range(4)]
    top = 13 if tier == "quick" else 31
    out += [("sys", n, m) for n in [*range(1, top), 40] for m in ("d4", "d4s")]
    out += [("quad", h, i) for h in ("trapzd", "trapzd_noref", "trapzd_atm") for i in range(23)]
    out += [("shape", h, n, r) for h in ("trapzd", "trapzd_noref", "trapzd_atm") for n in (1, 2, 3, 5) for r in (1, 2, 7)]
    out += [("batch", i, m) for i in range(4) for m in ("d4", "d4s")]
    return out


def opts(o):
    return dict(ref=o.get("ref", "eeq"), ga=o.get("ga", R.GA0), gc=o.get("gc", R.GC0))


def mk(model, numbers, o, dt):
    kw = {k: v for k, v in o.items() if k != "ref"}
    if "ref" in o:
        kw["ref_charges"] = o["ref"]
    return model_inst(model, numbers, dt, **kw)


def alphas(z, o):
    return np.array([R.alpha_ref(k, **opts(o)) for k in z]).reshape(len(z), 7, 23)


def dense(shape, k):
    """Deterministic positive, asymmetric weights."""
    n = int(np.prod(shape))
    return (((np.arange(n) * (7 + 2 * k) + 3 * k) % 23) / 23.0 + 0.05).reshape(shape)


def check_sys(res, model, z, o, dt, gw, m, what):
    """One unbatched system with weights gw."""
    tol = dict(rtol=1e-9, atol=1e-12) if dt == D else dict(rtol=5e-5, atol=1e-5)
    k = opts(o)
    t = torch.tensor(gw, dtype=dt)
    c6 = m.get_atomic_c6(t)
    need(c6.dtype == dt and c6.shape == (len(z), len(z)), f"{what}: C6 {c6.shape} {c6.dtype}")
    need_close(c6, R.atomic_c6(z, gw, **k), what + " C6", **tol)
    need_close(c6.T, c6, what + " C6 symmetry", **tol)
    need(bool((c6 >= 0).all()), what + ": negative C6")
    al = m.get_weighted_pols(t)
    need(al.shape == (len(z), 23) and al.dtype == dt, f"{what}: polarizabilities {al.shape}")
    need_close(al, R.weighted_pols(z, gw, **k), what + " dynamic polarizabilities", **tol)
    st = m.get_polarizabilities(t)
    need(st.shape == (len(z),), f"{what}: static polarizabilities {st.shape}")
    need_close(st, R.weighted_pols(z, gw, **k)[:, 0], what + " static polarizabilities", **tol)
    if model == "d4":
        need_close(trapzd_noref(al), c6, what + " Casimir-Polder", **tol)
    res.see(c6, al)


def evaluate(case, res):
    kind = case[0]
    if kind == "row":
        _, z, model, i, tier = case
        o = OPTS[i]
        if o.get("ref") == "gfn2" and z > 86:
            return
        z2 = list(range(1, 87 if o.get("ref") == "gfn2" else 104))
        if tier == "quick" and i:
            z2 = [y for y in z2 if (y + z) % 4 == 0]
        nb = np.array([[z, y] for y in z2])
        A = np.stack([alphas([z, y], o) for y in z2])
        rc = R.THOPI * np.einsum("w,niaw,njbw->nijab", R.W23, A, A)
        for dt in (D, F) if i == 0 else (D,):
            tol = dict(rtol=1e-9, atol=1e-12) if dt == D else dict(rtol=5e-5, atol=1e-5)
            m = mk(model, num(nb.tolist()), o, dt)
            what = f"{model} elements {z} x all {o} {dt}"
            need(m.rc6.dtype == dt, f"{what}: {m.rc6.dtype}")
            need_close(m.rc6, rc, what + " reference C6", **tol)
            need(bool((m.rc6 >= 0).all()), f"{what}: negative reference C6")
            # all unit weights: atom 0 in reference a, atom 1 in reference b
            for a, b in itertools.product(range(7), range(7)):
                g = np.zeros((len(z2), 2, 7))
                g[:, 0, a] = 1.0
                g[:, 1, b] = 1.0
                gg = g if model == "d4" else np.repeat(g[:, None], 2, 1)
                c6 = m.get_atomic_c6(torch.tensor(gg, dtype=dt))
                want = np.stack([np.stack([rc[:, 0, 0, a, a], rc[:, 0, 1, a, b]], -1), np.stack([rc[:, 1, 0, b, a], rc[:, 1, 1, b, b]], -1)], -2)
                need_close(c6, want, f"{what} references {a},{b}", **tol)
                if a == b:
                    al = m.get_weighted_pols(torch.tensor(gg, dtype=dt))
                    need_close(al, A[:, :, a], f"{what} polarizability of reference {a}", **tol)
                    need_close(m.get_polarizabilities(torch.tensor(gg, dtype=dt)), A[:, :, a, 0], f"{what} static polarizability of reference {a}", **tol)
                res.see(c6)
            for k in range(3):
                if model == "d4":
                    g = dense((len(z2), 2, 7), k)
                    al = np.einsum("nir,nirw->niw", g, A)
                    want = R.THOPI * np.einsum("w,niw,njw->nij", R.W23, al, al)
                    pw = al
                else:
                    g = dense((len(z2), 2, 2, 7), k)  # (partner, atom)
                    al = np.einsum("nmir,nirw->nmiw", g, A)
                    want = R.THOPI * np.einsum("w,njiw,nijw->nij", R.W23, al, al)
                    pw = al.mean(1)
                c6 = m.get_atomic_c6(torch.tensor(g, dtype=dt))
                need_close(c6, want, f"{what} dense weights {k}", **tol)
                need(bool((c6 >= 0).all()), f"{what}: negative C6")
                need_close(m.get_weighted_pols(torch.tensor(g, dtype=dt)), pw, f"{what} polarizabilities {k}", **tol)
                res.see(c6)
    elif kind == "sys":
        _, n, model = case
        z = [(i * 37 + n * 11) % 86 + 1 for i in range(n)]
        for i, o in enumerate(OPTS):
            for dt in (D, F):
                m = mk(model, num(z), o, dt)
                for k in range(2):
                    gw = dense((n, 7) if model == "d4" else (n, n, 7), k + i)
                    check_sys(res, model, z, o, dt, gw, m, f"{case} {o} {dt} weights {k}")
                # weights the model itself produces
                cn = 0.4 * ((np.arange(n) * 5) % 11)
                q = 0.2 * ((np.arange(n) * 3) % 7 - 3)
                gw = m.weight_references(torch.tensor(cn, dtype=dt), torch.tensor(q, dtype=dt)).double().numpy()
                check_sys(res, model, z, o, dt, gw, m, f"{case} {o} {dt} own weights")
                # the reference C6 coefficients may be supplied
                if dt == D:
                    m2 = mk(model, num(z), {**o, "rc6": m.rc6 * 2.0}, dt)
                    t = torch.tensor(gw, dtype=dt)
                    need_close(m2.get_atomic_c6(t), 2.0 * m.get_atomic_c6(t), f"{case} supplied reference C6", rtol=1e-12)
    elif kind == "batch":
        _, i, model = case
        o = OPTS[i]
        rows = [[6, 1, 8, 16], [26, 1], [79], [53, 11, 9], [1, 1, 1, 1], [14, 8, 80]]
        for lead in ((6,), (2, 3), (3, 1, 2)):
            for off in (0, 1):
                nb = np.zeros((6, 5), int)
                for k, r in enumerate(rows):
                    o2 = off * (k % 2)
                    nb[k, o2:o2 + len(r)] = r
                m = mk(model, num(nb.reshape(*lead, 5).tolist()), o, D)
                gw = dense((6, 5, 7) if model == "d4" else (6, 5, 5, 7), i)
                t = torch.tensor(gw, dtype=D).reshape(*lead, *gw.shape[1:])
                c6, al, st = m.get_atomic_c6(t), m.get_weighted_pols(t), m.get_polarizabilities(t)
                need(c6.shape == (*lead, 5, 5) and al.shape == (*lead, 5, 23) and st.shape == (*lead, 5), f"{case}: shapes {c6.shape} {al.shape} {st.shape}")
                c6, al, st = c6.reshape(6, 5, 5), al.reshape(6, 5, 23), st.reshape(6, 5)
                for k, r in enumerate(rows):
                    ix = np.nonzero(nb[k])[0]
                    g1 = gw[k][ix] if model == "d4" else gw[k][np.ix_(ix, ix)]
                    what = f"{case} {lead} row {k}"
                    need_close(c6[k].numpy()[np.ix_(ix, ix)], R.atomic_c6(r, g1, **opts(o)), what + " C6", rtol=1e-9)
                    need_close(al[k].numpy()[ix], R.weighted_pols(r, g1, **opts(o)), what + " polarizabilities", rtol=1e-9)
                    need_close(st[k].numpy()[ix], R.weighted_pols(r, g1, **opts(o))[:, 0], what + " static", rtol=1e-9)
                    pad = np.nonzero(nb[k] == 0)[0]
                    need(not np.any(c6[k].numpy()[pad]) and not np.any(c6[k].numpy()[:, pad]) and not np.any(al[k].numpy()[pad]), what + ": padding interacts")
                res.see(c6)
    elif kind == "quad":
        # unit polarizabilities: complete by linearity in each factor
        _, h, w = case
        for dt in (D, F):
            tol = dict(rtol=1e-12 if dt == D else 1e-6)
            for v in range(23):
                if h == "trapzd_atm":
                    for n in (1, 2):
                        p = torch.zeros((n, n, n, 23), dtype=dt)
                        p[..., v] = 1.0
                        p[..., w] += 2.0
                        need_close(trapzd_atm(p), np.full((n, n, n), R.THOPI * (R.W23[v] + 2.0 * R.W23[w])), f"{h} {v} {w}", **tol)
                        res.see(trapzd_atm(p), w)
                    continue
                if h == "trapzd":
                    f, s = trapzd, (2, 3, 23)
                else:
                    f, s = trapzd_noref, (2, 23)
                a, b = torch.zeros(s, dtype=dt), torch.zeros(s, dtype=dt)
                a[(-1,) * (len(s) - 1) + (w,)] = 1.5
                b[(0,) * (len(s) - 1) + (v,)] = 2.0
                val = R.THOPI * 3.0 * R.W23[w] if v == w else 0.0
                want = np.zeros((2, 2, 3, 3) if h == "trapzd" else (2, 2))
                want[(1, 0, 2, 0) if h == "trapzd" else (1, 0)] = val
                need_close(f(a, b), want, f"{h} pair {w},{v}", atol=1e-300, **tol)
                # one argument: pol2 = pol1
                c = a.clone()
                c[(-1,) * (len(s) - 1) + (v,)] += 0.5
                want = np.zeros_like(want)
                x = np.zeros(23)
                x[w] += 1.5
                x[v] += 0.5
                want[(1, 1, 2, 2) if h == "trapzd" else (1, 1)] = R.THOPI * (R.W23 * x * x).sum()
                need_close(f(c), want, f"{h} single {w},{v}", **tol)
                res.see(f(c), w)
    else:
        _, h, n, r = case
        for lead in ((), (2,), (2, 3)):
            if h == "trapzd":
                a, b = dense((*lead, n, r, 23), 1), dense((*lead, n + 1, r + 1, 23), 2)
                got = trapzd(torch.tensor(a), torch.tensor(b))
                want = R.THOPI * np.einsum("w,...iaw,...jbw->...ijab", R.W23, a, b)
            elif h == "trapzd_noref":
                a, b = dense((*lead, n, 23), 1 + r), dense((*lead, n + 1, 23), 2 + r)
                got = trapzd_noref(torch.tensor(a), torch.tensor(b))
                want = R.THOPI * np.einsum("w,...iw,...jw->...ij", R.W23, a, b)
            else:
                a = dense((*lead, n, n, n, 23), r)
                got = trapzd_atm(torch.tensor(a))
                want = R.THOPI * np.einsum("w,...ijkw->...ijk", R.W23, a)
            need_close(got, want, f"{case} {lead}", rtol=1e-11)
            res.see(got)
