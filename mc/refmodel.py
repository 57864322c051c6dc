"""Independent NumPy (float64) reference model of DFT-D4 / DFT-D4S.

Deliberately boring: one system at a time, explicit loops over atoms, formulas
from the papers / the documentation, data from the frozen golden tables. It
shares no code with tad_dftd4. Coordination numbers and EEQ charges come from
the (trusted, out of tree) dependencies tad_mctc and tad_multicharge, evaluated
unbatched in double precision.
"""
from __future__ import annotations

import os
from math import exp, pi

import numpy as np

_T = np.load(os.path.join(os.path.dirname(os.path.abspath(__file__)), "golden", "tables.npz"))
T = {k: _T[k] for k in _T.files}
for _v in T.values():
    _v.setflags(write=False)

EPS = np.finfo(np.float64).eps
W23 = np.array(
    [0.0249995, 0.0499995, 0.075] + [0.1] * 8 + [0.15] + [0.2] * 4
    + [0.35, 0.5, 0.75, 1.0, 1.75, 2.5, 1.25]
)
THOPI = 3.0 / pi
WF0, GA0, GC0 = 6.0, 3.0, 2.0
DISP2, DISP3, CN, CNEEQ = 60.0, 40.0, 30.0, 25.0
DEFAULTS = dict(a1=0.4, a2=5.0, s6=1.0, s8=1.0, s9=1.0, s10=0.0, alp=16.0, bet=0.0)


# -- trusted dependencies ----------------------------------------------------
def dep_cn(z, xyz, fn=None):
    import torch
    from tad_mctc.ncoord import cn_d4

    fn = cn_d4 if fn is None else fn
    return fn(torch.tensor(z), torch.tensor(np.asarray(xyz, float), dtype=torch.double)).numpy()


def dep_q(z, xyz, charge, cutoff=CNEEQ):
    import torch
    from tad_multicharge import get_eeq_charges

    d = dict(dtype=torch.double)
    return get_eeq_charges(
        torch.tensor(z), torch.tensor(np.asarray(xyz, float), **d),
        torch.tensor(float(charge), **d), cutoff=torch.tensor(float(cutoff), **d),
    ).numpy()


# -- atomic model --------------------------------------------------------------
def zeta(ga, gam, qref, qmod):
    """Charge scaling function (qmod <= 0: saturated)."""
    if qmod <= 0.0:
        return exp(ga)
    a = gam * (1.0 - qref / max(qmod - EPS, 1e-300)) if qmod > EPS else -np.inf
    return exp(ga * (1.0 - np.exp(a)))


def dzeta(ga, gam, qref, qmod):
    if qmod <= EPS:
        return 0.0
    s = np.exp(gam * (1.0 - qref / (qmod - EPS)))
    return -ga * gam * s * exp(ga * (1.0 - s)) * qref / qmod**2


def ref_tables(ref):
    if ref == "eeq":
        return T["clsq"], T["clsh"]
    return T["gfnq"], T["gfnh"]


_ALPHA = {}


def alpha_ref(z, ref="eeq", ga=GA0, gc=GC0):
    """Reference polarizabilities of element z: (7, 23)."""
    key = (int(z), ref, ga, gc)
    if key in _ALPHA:
        return _ALPHA[key]
    _, h = ref_tables(ref)
    out = np.zeros((7, 23))
    for r in range(7):
        s = T["refsys"][z, r]
        ze = 0.0
        if s > 0:
            zf = float(T["zeff"][s])
            ze = zeta(ga, T["gam"][s] * gc, zf, h[z, r] + zf)
        sec = T["secscale"][s, 0] * T["secalpha"][s] * ze
        out[r] = T["refascale"][z, r] * (T["refalpha"][z, r] - T["refscount"][z, r] * sec)
    _ALPHA[key] = np.maximum(out, 0.0)
    return _ALPHA[key]


def gauss_weights(z, cn, wf):
    """Normalised Gaussian weights over the references of one atom (7,)."""
    n = T["refc"][z]
    e = np.zeros(7)
    for r in range(7):
        for i in range(1, int(n[r]) + 1):
            e[r] += np.exp(-i * wf * (cn - T["refcovcn"][z, r]) ** 2)
    s = e.sum()
    if s < 1e-300:
        if not n.any():
            return np.zeros(7)
        cnr = T["refcovcn"][z]
        return np.where((cnr == cnr.max()) & (n > 0), 1.0, 0.0)
    return e / s


def dgauss_weights(z, cn, wf):
    """d(weights)/d(cn) (7,)."""
    n = T["refc"][z]
    e, d = np.zeros(7), np.zeros(7)
    for r in range(7):
        x = cn - T["refcovcn"][z, r]
        for i in range(1, int(n[r]) + 1):
            g = np.exp(-i * wf * x * x)
            e[r] += g
            d[r] += -2.0 * i * wf * x * g
    s = e.sum()
    if s < 1e-300:
        return np.zeros(7)
    return d / s - e * d.sum() / s**2


def zetas(z, q, ref="eeq", ga=GA0, gc=GC0, fn=zeta):
    rq, _ = ref_tables(ref)
    zf = float(T["zeff"][z])
    return np.array([
        fn(ga, T["gam"][z] * gc, rq[z, r] + zf, q + zf) if T["refc"][z, r] > 0 else 0.0
        for r in range(7)
    ])


def pair_wf(model, zi, zj, wf=None):
    if wf is not None:
        return wf
    return WF0 if model == "d4" else T["wfpair"][zi, zj]


def weights(z, cn, q, model="d4", ref="eeq", ga=GA0, gc=GC0, wf=None):
    """d4: (n, 7). d4s: (partner m, atom n, 7)."""
    n = len(z)
    zt = np.array([zetas(z[i], q[i], ref, ga, gc) for i in range(n)]).reshape(n, 7)
    if model == "d4":
        gw = np.array([gauss_weights(z[i], cn[i], pair_wf("d4", z[i], 0, wf)) for i in range(n)]).reshape(n, 7)
        return gw * zt
    out = np.zeros((n, n, 7))
    for m in range(n):
        for i in range(n):
            w = pair_wf("d4s", z[i], z[m], None if wf is None else (wf if np.ndim(wf) == 0 else wf[i][m]))
            out[m, i] = gauss_weights(z[i], cn[i], w) * zt[i]
    return out


def rc6(z, ref="eeq", ga=GA0, gc=GC0):
    a = np.array([alpha_ref(k, ref, ga, gc) for k in z]).reshape(len(z), 7, 23)
    return THOPI * np.einsum("w,iaw,jbw->ijab", W23, a, a)


def atomic_c6(z, gw, ref="eeq", ga=GA0, gc=GC0):
    """c6_ij from effective polarizabilities."""
    n = len(z)
    a = np.array([alpha_ref(k, ref, ga, gc) for k in z]).reshape(n, 7, 23)
    if gw.ndim == 2:
        al = np.einsum("nr,nrw->nw", gw, a)
        return THOPI * np.einsum("w,iw,jw->ij", W23, al, al)
    al = np.einsum("mnr,nrw->mnw", gw, a)  # polarizability of n seen by partner m
    return THOPI * np.einsum("w,jiw,ijw->ij", W23, al, al)


def weighted_pols(z, gw, ref="eeq", ga=GA0, gc=GC0):
    n = len(z)
    a = np.array([alpha_ref(k, ref, ga, gc) for k in z]).reshape(n, 7, 23)
    if gw.ndim == 2:
        return np.einsum("nr,nrw->nw", gw, a)
    return np.einsum("mnr,nrw->nw", gw, a) / max(n, 1)


# -- damping ---------------------------------------------------------------------
def damp(kind, R, rad, order, p):
    """Damped 1/R**order. `rad`: 3*r4r2*r4r2 (rational/op) or rvdw (zero/mzero)."""
    if kind == "rational":
        r0 = p["a1"] * np.sqrt(rad) + p["a2"]
        return 1.0 / (R**order + r0**order)
    if kind == "op":
        r0 = p["a1"] * np.sqrt(rad) + p["a2"]
        return R ** p["bet"] / (R ** p["bet"] * R**order + r0 ** p["bet"] * r0**order)
    alp = p["alp"] + (2.0 if order == 8 else 0.0)
    rs = p[f"rs{order}"]
    if kind == "zero":
        return 1.0 / (1.0 + 6.0 * (rs * rad / R) ** alp) / R**order
    if kind == "mzero":
        t = R / (rs * rad) + p["bet"] * rad
        return 1.0 / (1.0 + 6.0 * t ** (-alp)) / R**order
    raise KeyError(kind)


def dist(xyz):
    d = np.asarray(xyz, float)
    return np.sqrt(((d[:, None] - d[None]) ** 2).sum(-1))


def two_body_matrix(z, xyz, p, c6, cutoff=DISP2, kind="rational", r4r2=None, rvdw=None):
    """Positive pair interaction s6*C6*f6 + ... (n, n), zero diagonal."""
    n = len(z)
    r4 = T["r4r2"][list(z)] if r4r2 is None else np.asarray(r4r2, float)
    vdw = T["rvdw"][np.ix_(list(z), list(z))] if rvdw is None and max(list(z) + [0]) < 104 else rvdw
    P = dict(DEFAULTS)
    P.update({k: v for k, v in p.items() if k != "doi"})
    R = dist(xyz)
    E = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i == j or R[i, j] > cutoff:
                continue
            qq = 3.0 * r4[i] * r4[j]
            rad = qq if kind in ("rational", "op") else vdw[i][j]
            e = P["s6"] * c6[i, j] * damp(kind, R[i, j], rad, 6, P)
            e += P["s8"] * c6[i, j] * qq * damp(kind, R[i, j], rad, 8, P)
            if "s10" in p:
                e += P["s10"] * c6[i, j] * qq * qq * 49.0 / 40.0 * damp(kind, R[i, j], rad, 10, P)
            E[i, j] = e
    return E


def atm_energy(xyz, c9, radii, cutoff=DISP3, s9=1.0, alp=16.0):
    """Atom-resolved ATM energy; c9(i,j,k), radii (n,n)."""
    n = len(xyz)
    R = dist(xyz)
    out = np.zeros(n)
    if n > 24:  # the same, one atom at a time
        for i in range(n):
            with np.errstate(all="ignore"):
                a, b, c = R[i][:, None], R, R[i][None, :]
                rad = np.asarray(radii)
                r0 = rad[i][:, None] * rad * rad[i][None, :]
                f = 1.0 / (1.0 + 6.0 * (r0 / (a * b * c)) ** (alp / 3.0))
                cosp = (a * a + b * b - c * c) * (a * a + c * c - b * b) * (b * b + c * c - a * a) / (8.0 * a * a * b * b * c * c)
                e = s9 * c9[i] * f * (3.0 * cosp + 1.0) / (a * b * c) ** 3
            ok = (a <= cutoff) & (b <= cutoff) & (c <= cutoff)
            ok &= ~np.eye(n, dtype=bool)
            ok[i, :] = False
            ok[:, i] = False
            out[i] = e[ok].sum()
        return out / 6.0
    for i in range(n):
        for j in range(n):
            for k in range(n):
                if i == j or j == k or i == k:
                    continue
                a, b, c = R[i, j], R[j, k], R[i, k]
                if a > cutoff or b > cutoff or c > cutoff:
                    continue
                r0 = radii[i][j] * radii[j][k] * radii[i][k]
                r1 = a * b * c
                f = 1.0 / (1.0 + 6.0 * (r0 / r1) ** (alp / 3.0))
                cosp = (a * a + b * b - c * c) * (a * a + c * c - b * b) * (b * b + c * c - a * a) / (8.0 * a * a * b * b * c * c)
                out[i] += s9 * c9[i, j, k] * f * (3.0 * cosp + 1.0) / (a * b * c) ** 3
    return out / 6.0


def c9_approx(c6):
    return np.sqrt(np.abs(c6[:, :, None] * c6[:, None, :] * c6[None, :, :]))


def c9_exact(al):
    return THOPI * np.einsum("w,iw,jw,kw->ijk", W23, al, al, al)


def energy(
    z, xyz, charge, p, model="d4", ref="eeq", ga=GA0, gc=GC0, wf=None, q=None, cn=None,
    cut=None, kind="rational", atm="approx", r4r2=None, rvdw=None, cn_fn=None,
    qdep2=True, qdep3=False, parts=False, terms=("2", "3"),
):
    """Atom-resolved dispersion energy of one system (drops padding itself)."""
    z = [int(k) for k in z]
    xyz = np.asarray(xyz, float).reshape(len(z), 3)
    n = len(z)
    c = dict(disp2=DISP2, disp3=DISP3, cn_eeq=CNEEQ)
    c.update(cut or {})
    P = dict(DEFAULTS)
    P.update({k: v for k, v in p.items() if k != "doi"})
    if n == 0:
        return np.zeros(0)
    if cn is None:
        cn = dep_cn(z, xyz, cn_fn)
    if q is None:
        q = dep_q(z, xyz, charge, c["cn_eeq"])
    kw = dict(model=model, ref=ref, ga=ga, gc=gc, wf=wf)
    mk = dict(ref=ref, ga=ga, gc=gc)
    zero = np.zeros(n)
    g2 = weights(z, cn, q if qdep2 else zero, **kw)
    g3 = weights(z, cn, q if qdep3 else zero, **kw)
    e2 = np.zeros(n)
    e3 = np.zeros(n)
    if "2" in terms:
        e2 = -0.5 * two_body_matrix(z, xyz, p, atomic_c6(z, g2, **mk), c["disp2"], kind, r4r2, rvdw).sum(1)
    if "3" in terms:
        r4 = T["r4r2"][z] if r4r2 is None else np.asarray(r4r2, float)
        if atm == "d3":
            vdw = T["rvdw"][np.ix_(z, z)] if rvdw is None else np.asarray(rvdw, float)
            rad = p.get("rs9", 1.0) * vdw
            c9 = c9_approx(atomic_c6(z, g3, **mk))
        else:
            rad = P["a1"] * np.sqrt(3.0 * r4[:, None] * r4[None, :]) + P["a2"]
            c9 = c9_approx(atomic_c6(z, g3, **mk)) if atm == "approx" else c9_exact(weighted_pols(z, g3, **mk))
        e3 = atm_energy(xyz, c9, rad, c["disp3"], P["s9"], P["alp"])
    return (e2, e3) if parts else e2 + e3
