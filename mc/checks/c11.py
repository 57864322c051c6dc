"""C11: reference weights and their analytic derivatives."""
from __future__ import annotations

import itertools

import numpy as np
import torch

from .. import refmodel as R
from ..drive import D, F, model_inst, num
from ..harness import need, need_close

PROPERTY = "C11"
LEVEL = "exploration"
RULE = (
    "Full product element x coordination-number grid x charge grid x options (ga, gc, wf, reference charges, precision) for D4, and all 103 x 103 (atom, partner) "
    "pairs x grid x options for D4S, against a vectorised NumPy model (validated against the loop model); derivatives against the closed form and automatic differentiation. "
    "Non-trivial: some weight is non-zero; distinct: weights differ in 8 digits."
)
BOUNDS = {
    "quick": "103 elements x 46 CN (0..15 and 20, 40, 100, 1e3, 1e6) x 15 charges (incl. -zeff, +-50; and 20 charges within 9 rounding steps of -zeff) x 12 option sets x 2 precisions; D4S: 103 x 103 pairs x 12 CN x 3 charges; 20 x 2 systems with a factor of its own for every ordered pair; mixed batches with padding, at ordinary and extreme CN",
    "thorough": "CN step 0.05, 41 charges, D4S pairs x 46 CN x 15 charges x 4 option sets",
}
CHUNK = 1
OPTS = [
    dict(), dict(ga=0.0), dict(ga=1.7), dict(gc=0.8), dict(ga=2.3, gc=3.1), dict(wf=1.0), dict(wf=4), dict(wf=10.5, ga=0.0),
    dict(ref="gfn2"), dict(ref="gfn2", ga=0.0, wf=2.5), dict(ref="gfn2", ga=1.2, gc=0.5), dict(wf=6.0, gc=2.0, ga=3.0),
]


def cns(tier):
    g = np.arange(0, 15.001, 0.05) if tier == "thorough" else np.concatenate([np.arange(0, 8.01, 0.25), np.arange(9, 15.1, 0.9)])
    return np.concatenate([g, [20.0, 40.0, 100.0, 1e3, 1e6]])


def qs(z, tier):
    zf = float(R.T["zeff"][z])
    g = np.arange(-4, 4.01, 0.25) if tier == "thorough" else np.array([-3.0, -1.5, -1.0, -0.4, -0.05, 0.0, 0.1, 0.5, 1.0, 2.5])
    return np.concatenate([g, [-zf, -zf - 0.5, -zf + 0.03, 50.0, -50.0]])


def space(tier):
    out = []
    for z in range(1, 104):
        out.append(("atom", z, tier))
        out.append(("pair", z, tier))
    for i in range(6):
        out.append(("batch", i, 0))
        out.append(("batch", i, 1))
    for k in range(20):
        out.append(("factors", k))
    for z in range(1, 104):
        out.append(("self", z))
        out.append(("ulp", z))
    return out


# -- vectorised reference ----------------------------------------------------
def gaussw(z, cn, wf):
    """(K,), (K,) -> weights (K, 7), derivative (K, 7), sum (K,)"""
    cn = np.asarray(cn, float)[:, None]
    wf = np.broadcast_to(np.asarray(wf, float), cn.shape[:1])[:, None]
    n = R.T["refc"][z]
    x = cn - R.T["refcovcn"][z][None]
    e = np.zeros_like(x)
    d = np.zeros_like(x)
    for i in range(1, int(n.max()) + 1):
        g = np.where(n >= i, np.exp(-i * wf * x * x), 0.0)
        e += g
        d += -2.0 * i * wf * x * g
    s = e.sum(1, keepdims=True)
    ok = s > 1e-300
    ss = np.where(ok, s, 1.0)
    cnr = R.T["refcovcn"][z]
    fall = np.where((cnr == cnr.max()) & (n > 0), 1.0, 0.0)[None]
    w = np.where(ok, e / ss, fall)
    dw = np.where(ok, d / ss - (e / ss) * (d.sum(1, keepdims=True) / ss), 0.0)
    return w, dw, s[:, 0]


def zetav(z, q, ref, ga, gc):
    """zeta (K, 7) and its derivative."""
    rq, _ = R.ref_tables(ref)
    zf = float(R.T["zeff"][z])
    gam = R.T["gam"][z] * gc
    qm = np.asarray(q, float)[:, None] + zf
    qr = (rq[z] + zf)[None]
    ok = qm > R.EPS
    qs_ = np.where(ok, qm, 1.0)
    with np.errstate(over="ignore"):
        s = np.exp(gam * (1.0 - qr / qs_))
    ze = np.where(ok, np.exp(ga * (1.0 - s)), np.exp(ga))
    dz = np.where(ok, -ga * gam * s * ze * qr / qs_**2, 0.0)
    m = (R.T["refc"][z] > 0)[None]
    return np.where(m, ze, 0.0), np.where(m, dz, 0.0)


def opts(o):
    return o.get("ref", "eeq"), o.get("ga", R.GA0), o.get("gc", R.GC0)


def mk(model, numbers, o, dt):
    kw = {k: v for k, v in o.items() if k != "ref"}
    if "ref" in o:
        kw["ref_charges"] = o["ref"]
    if model == "d4s" and "wf" in kw:
        kw["wf"] = torch.full((*numbers.shape, numbers.shape[-1]), float(kw["wf"]), dtype=dt)
    return model_inst(model, numbers, dt, **kw)


def evaluate(case, res):
    if case[0] == "atom":
        _, z, tier = case
        CN, Q = np.meshgrid(cns(tier), qs(z, tier), indexing="ij")
        CN, Q = CN.ravel(), Q.ravel()
        numbers = torch.full((CN.size, 1), z)
        for o in OPTS:
            ref, ga, gc = opts(o)
            if ref == "gfn2" and z > 86:
                continue
            w, dw, s = gaussw(z, CN, o.get("wf", 6.0))
            skip = (s > 1e-307) & (s < 1e-292)
            w, dw, sel = w[~skip], dw[~skip], ~skip
            ze, dz = zetav(z, Q, ref, ga, gc)
            ze, dz = ze[sel], dz[sel]
            for dt in (D, F):
                m = mk("d4", numbers, o, dt)
                cn, q = torch.tensor(CN, dtype=dt)[:, None], torch.tensor(Q, dtype=dt)[:, None]
                what = f"element {z} {o} {dt}"
                if dt == F:
                    # the values single precision holds
                    w2, _, s2 = gaussw(z, cn[:, 0].double().numpy(), o.get("wf", 6.0))
                    w2 = w2[sel]
                    g = m.weight_references(cn, q)[:, 0]
                    need(g.dtype == F, f"{what}: {g.dtype}")
                    qf = q[:, 0].double().numpy()
                    near = np.abs(qf + float(R.T["zeff"][z])) < 1e-2  # cancellation next to -zeff
                    zf_, _ = zetav(z, qf, ref, ga, gc)
                    ok = ~near[sel]
                    need_close(g[torch.tensor(sel)][torch.tensor(ok)], (w2 * zf_[sel])[ok], what, rtol=2e-4, atol=1e-6)
                    _, dcn, dq = m.weight_references(cn, q, with_dgwdcn=True, with_dgwdq=True)
                    need(bool(torch.isfinite(g).all() and torch.isfinite(dcn).all() and torch.isfinite(dq).all()), f"{what}: not finite")
                    _, dw2, _ = gaussw(z, cn[:, 0].double().numpy(), o.get("wf", 6.0))
                    _, dz2 = zetav(z, qf, ref, ga, gc)
                    need_close(-dcn[:, 0][torch.tensor(sel)][torch.tensor(ok)], (dw2 * zf_)[sel][ok], what + " dgwdcn", rtol=1e-3, atol=1e-4)
                    need_close(dq[:, 0][torch.tensor(sel)][torch.tensor(ok)], (w2 * dz2[sel])[ok], what + " dgwdq", rtol=1e-3, atol=1e-4)
                    continue
                cn.requires_grad_(True)
                q.requires_grad_(True)
                g, dcn, dq = m.weight_references(cn, q, with_dgwdcn=True, with_dgwdq=True)
                g0 = m.weight_references(cn, q)
                need(g.shape == (CN.size, 1, 7) and g0.shape == g.shape, f"{what}: shape {g.shape}")
                need(bool(torch.isfinite(g0).all() and torch.isfinite(dcn).all() and torch.isfinite(dq).all()), f"{what}: not finite")
                st = torch.tensor(sel)
                need_close(g0[st][:, 0], w * ze, what, rtol=1e-9, atol=1e-14)
                need_close(g[st][:, 0], w * ze, what + " (with derivatives)", rtol=1e-9, atol=1e-14)
                need_close(m.weight_references(cn, q, with_dgwdq=True)[1], dq, what + " dgwdq alone", rtol=1e-12)
                need_close(m.weight_references(cn, q, with_dgwdcn=True)[1], dcn, what + " dgwdcn alone", rtol=1e-12)
                need_close(dq[st][:, 0], w * dz, what + " dgwdq", rtol=1e-7, atol=1e-11)
                need_close(-dcn[st][:, 0], dw * ze, what + " dgwdcn", rtol=1e-7, atol=1e-11)
                for r in range(7):
                    ac, aq = torch.autograd.grad(g0[st][:, 0, r].sum(), [cn, q], retain_graph=True)
                    need_close(ac[st][:, 0], (dw * ze)[:, r], what + " autodiff cn", rtol=1e-7, atol=1e-11)
                    need_close(aq[st][:, 0], (w * dz)[:, r], what + " autodiff q", rtol=1e-7, atol=1e-11)
                if ga == 0.0:
                    need(bool((g0 >= 0).all()), f"{what}: negative weight")
                    need_close(g0.sum(-1), torch.ones(CN.size, 1), what + " normalisation", rtol=1e-12)
                if o == {}:
                    z0, _ = zetav(z, [0.0], ref, ga, gc)
                    wc, _, _ = gaussw(z, [0.0], 6.0)
                    need_close(m.weight_references()[:, 0], np.repeat(wc * z0, CN.size, 0), what + " no arguments", rtol=1e-9, atol=1e-14)
                    need_close(m.weight_references(cn)[st][:, 0], w * z0, what + " without charges", rtol=1e-9, atol=1e-14)
                    need_close(m.weight_references(q=q)[st][:, 0], wc * ze, what + " without CN", rtol=1e-9, atol=1e-14)
                res.see(g0)
                res.see(dq, dcn)
    elif case[0] == "pair":
        _, z, tier = case
        cg = cns(tier) if tier == "thorough" else np.array([0.0, 0.4, 0.9, 1.5, 2.0, 2.7, 3.3, 4.1, 6.2, 9.0, 30.0, 1e4])
        qg = qs(z, tier) if tier == "thorough" else np.array([-0.8, 0.0, 0.6])
        CN, Q = [a.ravel() for a in np.meshgrid(cg, qg, indexing="ij")]
        K = CN.size
        for o in [dict(), dict(ga=0.0)] if tier == "quick" else [dict(), dict(ga=0.0), dict(ref="gfn2"), dict(gc=1.1, ga=2.0)]:
            ref, ga, gc = opts(o)
            ze, dz = zetav(z, Q, ref, ga, gc)
            for z2s in np.array_split(np.arange(1, 104), 1 if tier == "quick" else 8):
                if ref == "gfn2":
                    z2s = z2s[z2s <= 86]
                    if z > 86 or not z2s.size:
                        continue
                nb = np.zeros((z2s.size, K, 2), int)
                nb[:, :, 0] = z
                nb[:, :, 1] = z2s[:, None]
                m = mk("d4s", num(nb.tolist()), o, D)
                cn = torch.tensor(np.broadcast_to(np.stack([CN, 1.7 + 0 * CN], -1), nb.shape).copy(), dtype=D)
                q = torch.tensor(np.broadcast_to(np.stack([Q, 0.2 + 0 * Q], -1), nb.shape).copy(), dtype=D)
                g, dq = m.weight_references(cn, q, with_dgwdq=True)
                need(g.shape == (z2s.size, K, 2, 2, 7), f"D4S shape {g.shape}")
                need(bool(torch.isfinite(g).all() and torch.isfinite(dq).all()), f"D4S {z}: not finite")
                for t, z2 in enumerate(z2s):
                    # atom 0 seen by partner 1 and by itself
                    for mm, zm in ((1, z2), (0, z)):
                        if mm == 0 and t:
                            continue
                        w, _, s = gaussw(z, CN, R.T["wfpair"][z, zm])
                        sel = ~((s > 1e-307) & (s < 1e-292))
                        what = f"D4S element {z} with partner {zm} {o}"
                        need_close(g[t, :, mm, 0][torch.tensor(sel)], (w * ze)[sel], what, rtol=1e-9, atol=1e-14)
                        need_close(dq[t, :, mm, 0][torch.tensor(sel)], (w * dz)[sel], what + " dgwdq", rtol=1e-7, atol=1e-11)
                        if ga == 0.0:
                            need_close(g[t, :, mm, 0].sum(-1), np.ones(K), what + " normalisation", rtol=1e-12)
                    res.see(g[t])
    elif case[0] == "factors":
        # a factor of its own for every ordered pair, single systems and batches
        k = case[1]
        nb = np.array([[(7 * k + 13 * i + 5 * b) % 103 + 1 for i in range(4)] for b in range(2)])
        nb[1, 3] = 0
        cn = 0.31 * ((np.arange(8).reshape(2, 4) * 5 + k) % 13)
        q = 0.2 * ((np.arange(8).reshape(2, 4) * 3 + k) % 7 - 3)
        wf = 1.0 + 0.45 * ((np.arange(32).reshape(2, 4, 4) * 7 + k) % 23)
        for batch in (False, True):
            sl = slice(None) if batch else 0
            m = model_inst("d4s", num(nb[sl].tolist()), D, wf=torch.tensor(wf[sl], dtype=D))
            g, dq = m.weight_references(torch.tensor(cn[sl], dtype=D), torch.tensor(q[sl], dtype=D), with_dgwdq=True)
            g, dq = (t.reshape(-1, 4, 4, 7) for t in (g, dq))
            for b, a, p in itertools.product(range(len(g)), range(4), range(4)):
                z = nb[b, a]
                if not z or not nb[b, p]:
                    continue
                w, _, _ = gaussw(z, [cn[b, a]], wf[b, a, p])
                ze, dz = zetav(z, [q[b, a]], "eeq", R.GA0, R.GC0)
                need_close(g[b, p, a], (w * ze)[0], f"{case} batch {batch} system {b} atom {a} partner {p}", rtol=1e-9, atol=1e-14)
                need_close(dq[b, p, a], (w * dz)[0], f"{case} batch {batch} system {b} atom {a} partner {p} dgwdq", rtol=1e-7, atol=1e-12)
            res.see(g)
    elif case[0] == "ulp":
        # charges a few rounding steps around minus the effective nuclear charge: finite, and the limit exp(ga)
        z = case[1]
        zf = float(R.T["zeff"][z])
        for model, dt, ref in itertools.product(("d4", "d4s"), (D, F), ("eeq", "gfn2")):
            if ref == "gfn2" and z > 86:
                continue
            q = [torch.tensor(-zf, dtype=dt)] * 2
            for _ in range(9):
                q = [torch.nextafter(q[0], torch.tensor(-1e4, dtype=dt)), *q, torch.nextafter(q[-1], torch.tensor(1e4, dtype=dt))]
            q = torch.stack(q)[:, None].requires_grad_(True)
            cn = torch.full_like(q, 0.6).detach()
            m = mk(model, torch.full(q.shape, z), dict(ref=ref), dt)
            g, dq = m.weight_references(cn, q, with_dgwdq=True)
            (a,) = torch.autograd.grad(g.sum(), q)
            what = f"{model} element {z} {ref} {dt} charge next to -zeff"
            need(bool(torch.isfinite(g).all() and torch.isfinite(dq).all() and torch.isfinite(a).all()), f"{what}: not finite")
            w, _, _ = gaussw(z, [0.6], 6.0 if model == "d4" else R.T["wfpair"][z, z])
            need_close(g.reshape(-1, 7), np.repeat(w * np.exp(R.GA0), q.numel(), 0), what, rtol=1e-9 if dt == D else 1e-4, atol=0 if dt == D else 1e-4)
            need_close(dq, torch.zeros_like(dq), what + " dgwdq", rtol=0, atol=1e-12)
            need_close(a, torch.zeros_like(a), what + " autodiff", rtol=0, atol=1e-12)
            if model == "d4":
                dcn = m.weight_references(cn, q, with_dgwdcn=True)[1]
                need(bool(torch.isfinite(dcn).all()), f"{what}: dgwdcn not finite")
            res.see(g, model)
    elif case[0] == "self":
        # the vectorised reference agrees with the loop reference
        z = case[1]
        for cn in (0.0, 0.7, 1.9, 3.3, 5.2, 40.0):
            for wf in (6.0, 2.5):
                need_close(gaussw(z, [cn], wf)[0][0], R.gauss_weights(z, cn, wf), f"reference {z} {cn}", rtol=1e-12)
                need_close(gaussw(z, [cn], wf)[1][0], R.dgauss_weights(z, cn, wf), f"reference derivative {z} {cn}", rtol=1e-10, atol=1e-14)
        for q in (-1.0, 0.3, 2.0):
            need_close(zetav(z, [q], "eeq", 3.0, 2.0)[0][0], R.zetas(z, q), f"reference zeta {z} {q}", rtol=1e-12)
            need_close(zetav(z, [q], "eeq", 3.0, 2.0)[1][0], R.zetas(z, q, fn=R.dzeta), f"reference dzeta {z} {q}", rtol=1e-10)
        res.see(str(z))
    else:
        # batches of all elements with padding in every place, random-free per-pair factors
        _, i, big = case
        o = OPTS[[0, 1, 3, 5, 8, 11][i]]
        ref, ga, gc = opts(o)
        hi = 86 if ref == "gfn2" else 103
        for model, shape in itertools.product(("d4", "d4s"), (4, 9, 24)):
            el = list(range(1, hi + 1))
            rows = [el[k:k + shape] for k in range(0, hi, shape)]
            nb = np.zeros((len(rows), shape + 2), int)
            for k, r in enumerate(rows):
                off = k % 3
                nb[k, off:off + len(r)] = r
            cn = 0.3 * ((np.arange(nb.size).reshape(nb.shape) * 7) % 17)
            if big:  # some or all weights vanish for some atoms only
                cn = np.array([0.0, 60.0, 3.1, 200.0, 1e4, 25.0, 1.2])[(np.arange(nb.size).reshape(nb.shape) * 3) % 7]
            q = 0.21 * ((np.arange(nb.size).reshape(nb.shape) * 5) % 9 - 4)
            for dt in (D, F):
                m = mk(model, num(nb.tolist()), o, dt)
                g, dq = m.weight_references(torch.tensor(cn, dtype=dt), torch.tensor(q, dtype=dt), with_dgwdq=True)
                need(g.dtype == dt and dq.dtype == dt, f"{model} {g.dtype}")
                g, dq = g.double().numpy(), dq.double().numpy()
                for k in range(len(rows)):
                    for a in range(nb.shape[1]):
                        z = nb[k, a]
                        what = f"{model} {o} row {k} atom {a} (element {z}) {dt}"
                        if z == 0:
                            need(not np.any(g[k, a] if model == "d4" else g[k, :, a]), what + ": padding has weight")
                            need(not np.any(dq[k, a] if model == "d4" else dq[k, :, a]), what + ": padding has derivative")
                            continue
                        ze, dz = zetav(z, [q[k, a]], ref, ga, gc)
                        tol = dict(rtol=1e-9, atol=1e-14) if dt == D else dict(rtol=1e-3, atol=1e-5)
                        if model == "d4":
                            w, _, _ = gaussw(z, [cn[k, a]], o.get("wf", 6.0))
                            need_close(g[k, a], (w * ze)[0], what, **tol)
                            need_close(dq[k, a], (w * dz)[0], what + " dgwdq", **tol)
                        else:
                            part = np.nonzero(nb[k])[0]
                            wfs = o["wf"] if "wf" in o else R.T["wfpair"][z, nb[k, part]]
                            w, _, _ = gaussw(z, np.full(part.size, cn[k, a]), wfs)
                            need_close(g[k, part, a], w * ze, what, **tol)
                            need_close(dq[k, part, a], w * dz, what + " dgwdq", **tol)
                res.see(g)
