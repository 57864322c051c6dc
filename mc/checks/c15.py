"""C15: the property wrapper."""
from __future__ import annotations

import itertools

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2

from .. import refmodel as R
from ..drive import D, F, num, pack, pos
from ..harness import need, need_close
from ..systems import SYS, TPSSH, big_cluster, cluster

PROPERTY = "C15"
LEVEL = "exploration"
RULE = (
    "Full product of systems x total charges x charge forms x cutoffs x precision, all ordered pairs and triples of systems as padded batches, all element pairs; every entry of the four results "
    "compared with the reference model, plus charge sum, symmetry and reproduction of the energies. Non-trivial: non-zero results; distinct: 8 digits."
)
BOUNDS = {
    "quick": "20 systems and 3 clusters x charges -2..2, 0.5, None x 5 forms x 4 cutoffs x 2 precisions; 10^2 ordered pairs and 6^3 triples of systems x 3 layouts; 103 x 103 element pairs; derivatives with respect to positions and charge, alone and together, for 20 systems and 3 batches; clusters of 40 and 66 atoms",
    "thorough": "as quick with 14^2 pairs, 9^3 triples, 4 batch shapes and clusters up to 120 atoms",
}
CHUNK = 2
CH = (None, 0, 1, -1, 2, -2, 0.5)
CUTS = (None, 3.0, 5.5, 100.0)
FORMS = ("num", "t0", "tsys", "f32", "t1")
BS = ["H2O", "He", "NaCl2-", "NH4+", "AuPtH", "H-", "UF3Cs", "HCN", "water2", "Ar3", "LiH", "CO", "OH-", "LrNo"]


def space(tier):
    out = []
    for n in (40, 66) + ((90, 120) if tier == "thorough" else ()):
        out.append(("big", n))
    for s in SYS:
        for c in CH:
            out.append(("one", s, c))
    k2, k3 = (10, 6) if tier == "quick" else (14, 9)
    for a, b in itertools.product(BS[:k2], repeat=2):
        out.append(("batch", (a, b)))
    for t in itertools.product(BS[:k3], repeat=3):
        out.append(("batch", t))
    for z in range(1, 104):
        out.append(("row", z))
    out += [("deriv", s) for s in list(SYS) + [("H2O", "NH4+"), ("He", "NaCl2-", "LiH"), ("HCN", "UF3Cs")]]
    out += [("shape", s) for s in ((1,), (4,), (2, 2), (1, 4), (4, 1), (2, 1, 2))]
    return out


def ref(z, x, c, cut=None):
    c = 0.0 if c is None else float(c)
    cn, q = R.dep_cn(z, x), R.dep_q(z, x, c, R.CNEEQ if cut is None else cut)
    gw = R.weights(z, cn, q)
    return cn, q, R.atomic_c6(z, gw), R.weighted_pols(z, gw)[:, 0]


LAB = ("cn", "q", "c6", "alpha")


def cmp(got, want, what, dt):
    for n, a, b in zip(LAB, got, want):
        t = dict(rtol=1e-8, atol=1e-12) if dt == D else dict(rtol=1e-3, atol=2e-4 * max(1.0, np.abs(b).max()))
        need_close(a, b, f"{what} {n}", **t)


def evaluate(case, res):
    kind = case[0]
    if kind in ("one", "big"):
        if kind == "one":
            _, s, c = case
            z, x, c0 = SYS[s]
        else:
            z, x = big_cluster(case[1])
            c = 1
        if kind == "one" and c is None:
            forms = ("none", "omit")
        else:
            forms = FORMS
        for cut, dt in itertools.product(CUTS if kind == "one" else (None, 5.5), (D, F)):
            w = ref(z, x, c, cut)
            for f in forms:
                a = dict(none=None, omit=None, num=c, t0=None if c is None else torch.tensor(float(c), dtype=dt), tsys=None if c is None else torch.tensor(float(c), dtype=D),
                         f32=None if c is None else torch.tensor(float(c), dtype=F), t1=None if c is None else torch.tensor([float(c)], dtype=dt))[f]
                kw = {} if cut is None else dict(cutoff=d4.Cutoff(cn_eeq=cut, disp2=1.0 if f == "t0" else 60.0, dtype=dt))
                r = d4.get_properties(num(z), pos(x, dt), **kw) if f == "omit" else d4.get_properties(num(z), pos(x, dt), a, **kw)
                what = f"{case} cutoff {cut} {dt} charge as {f}"
                need(len(r) == 4 and all(t.dtype == dt for t in r), f"{what}: types")
                cmp(r, w, what, dt)
                res.see(r)
                if f in ("num", "none") and dt == D:
                    cn, q, c6, al = r
                    need_close(q.sum(), 0.0 if c is None else float(c), what + " charge sum", atol=1e-8)
                    need_close(c6.T, c6, what + " symmetry", rtol=1e-12)
                    need(bool((c6 > 0).all() and (al > 0).all()), what + ": not positive")
                    # the energy uses these quantities
                    cc = 0 if c is None else c
                    ek = {} if cut is None else dict(cutoff=d4.Cutoff(cn_eeq=cut, dtype=D))
                    e = d4.dftd4(num(z), pos(x), cc, TPSSH, **ek)
                    need_close(d4.dftd4(num(z), pos(x), 0, TPSSH, q=q), e, what + " energy from the charges", rtol=1e-9)
                    d = Disp(model="d4", dtype=D)
                    d.register(TwoBodyTerm())
                    e2 = d.calculate(num(z), pos(x), cc, TPSSH, **ek)
                    r4 = torch.tensor(R.T["r4r2"], dtype=D)[num(z)]
                    need_close(dispersion2(num(z), pos(x), TPSSH, c6, r4), e2, what + " two-body energy from C6", rtol=1e-9)
    elif kind == "batch":
        names = case[1]
        sys_ = [SYS[n] for n in names]
        sys_ = [(z, x, (c, c + 1, c - 1)[(i + len(z)) % 3]) for i, (z, x, c) in enumerate(sys_)]
        refs = [ref(z, x, c) for z, x, c in sys_]
        for lay, fill in (("end", 0.0), ("front", 0.0), ("middle", 3.3)):
            zz, mask = pack([s[0] for s in sys_], layout=lay, extra=1 if lay == "middle" else 0)
            xx, _ = pack([[list(map(float, r)) for r in s[1]] for s in sys_], fill=[fill] * 3, layout=lay, extra=1 if lay == "middle" else 0)
            ch = torch.tensor([float(s[2]) for s in sys_], dtype=D)
            r = d4.get_properties(num(zz), pos(xx), ch)
            rn = None
            for i, w in enumerate(refs):
                ix = np.nonzero(mask[i])[0]
                got = [r[0][i].numpy()[ix], r[1][i].numpy()[ix], r[2][i].numpy()[np.ix_(ix, ix)], r[3][i].numpy()[ix]]
                cmp(got, w, f"{case} {lay} system {i}", D)
                pad = np.nonzero(~mask[i])[0]
                need(not np.any(r[0][i].numpy()[pad]) and not np.any(r[2][i].numpy()[pad]) and not np.any(r[2][i].numpy()[:, pad]) and not np.any(r[3][i].numpy()[pad])
                     and np.all(np.abs(r[1][i].numpy()[pad]) < 1e-12), f"{case} {lay}: padding has properties")
                need_close(r[1][i].sum(), sys_[i][2], f"{case} {lay} charge sum {i}", atol=1e-8)
            e = d4.dftd4(num(zz), pos(xx), ch, TPSSH)
            need_close(d4.dftd4(num(zz), pos(xx), 0, TPSSH, q=r[1]), e, f"{case} {lay} energy from the charges", rtol=1e-9)
            res.see(r)
            if lay == "end":
                rn = d4.get_properties(num(zz), pos(xx))
                r0 = d4.get_properties(num(zz), pos(xx), torch.zeros(len(names), dtype=D))
                cmp(rn, [t.numpy() for t in r0], f"{case} missing charge", D)
                need_close(rn[1].sum(-1), np.zeros(len(names)), f"{case} neutral", atol=1e-8)
                for c in (1, 1.0, torch.tensor(1.0, dtype=D)):
                    rs = d4.get_properties(num(zz), pos(xx), c)
                    need_close(rs[1].sum(-1), np.ones(len(names)), f"{case} scalar charge", atol=1e-8)
    elif kind == "deriv":
        # derivatives of the properties, whichever of the inputs they are asked for
        s = case[1]
        sys_ = [SYS[n] for n in ((s,) if isinstance(s, str) else s)]
        zz, _ = pack([t[0] for t in sys_], layout="middle")
        xx, _ = pack([[list(map(float, r)) for r in t[1]] for t in sys_], fill=[0.0] * 3, layout="middle")
        z, x, c = num(zz), pos(xx), torch.tensor([float(t[2]) + 0.3 for t in sys_], dtype=D)
        if isinstance(s, str):
            z, x, c = z[0], x[0], c[0]
        scal = lambda r, k: (r[k] * torch.linspace(0.5, 1.5, r[k].numel(), dtype=D).reshape(r[k].shape)).sum()  # noqa: E731
        dx = torch.linspace(-1.0, 1.0, x.numel(), dtype=D).reshape(x.shape).cos() * (z > 0).unsqueeze(-1)
        h = 1e-4
        num_x = [(8 * (scal(d4.get_properties(z, x + h * dx, c), k) - scal(d4.get_properties(z, x - h * dx, c), k)) - scal(d4.get_properties(z, x + 2 * h * dx, c), k) + scal(d4.get_properties(z, x - 2 * h * dx, c), k)) / (12 * h) for k in range(4)]
        num_c = [(8 * (scal(d4.get_properties(z, x, c + h), k) - scal(d4.get_properties(z, x, c - h), k)) - scal(d4.get_properties(z, x, c + 2 * h), k) + scal(d4.get_properties(z, x, c - 2 * h), k)) / (12 * h) for k in range(4)]
        for gx, gc in ((True, False), (False, True), (True, True)):
            for k in range(4):
                y, cc = x.clone().requires_grad_(gx), c.clone().requires_grad_(gc)
                v = scal(d4.get_properties(z, y, cc), k)
                what = f"{case} {LAB[k]} gradients of {'positions ' * gx}{'charge' * gc}"
                for on, t, w, dr in ((gx, y, num_x[k], dx), (gc, cc, num_c[k], torch.ones_like(c))):
                    if not on:
                        continue
                    g = torch.autograd.grad(v, t, retain_graph=True, allow_unused=True)[0] if v.requires_grad else None
                    g = torch.zeros_like(t) if g is None else g
                    need(bool(torch.isfinite(g).all()), f"{what}: not finite")
                    need_close((g * dr).sum(), w, what, rtol=1e-5, atol=1e-7 * max(1.0, abs(float(v.detach()))))
                    res.see(k, g)
    elif kind == "row":
        z1 = case[1]
        zs = [[z1, z2, 1] for z2 in range(1, 104)]
        xs = [[[0, 0, 0], [0, 3.0 + 0.03 * z2 % 1.7, 3.0], [2.5, -0.4, -0.9]] for z2 in range(1, 104)]
        ch = torch.tensor([(i % 3) - 1.0 for i in range(103)], dtype=D)
        r = d4.get_properties(num(zs), pos(xs), ch)
        for i in range(103):
            cmp([t[i] for t in r], ref(zs[i], xs[i], float(ch[i])), f"elements {zs[i]}", D)
        res.see(r[1])
        for i in range(103):
            res.see(r[2][i], r[3][i])
    else:
        sh = case[1]
        names = ("H2O", "HCN", "NaCl2-", "AuPtH")[: int(np.prod(sh))]
        z, x = num([SYS[n][0] for n in names]), pos([SYS[n][1] for n in names])
        chs = [0.0, 1.0, -1.0, 2.0][: len(names)]
        for f in ("t", "t1", "num", "t0", "none"):
            c = dict(t=torch.tensor(chs, dtype=D).reshape(sh), t1=torch.tensor(chs, dtype=D).reshape(*sh, 1), num=1, t0=torch.tensor(1.0, dtype=D), none=None)[f]
            r = d4.get_properties(z.reshape(*sh, 3), x.reshape(*sh, 3, 3), c)
            need(r[0].shape == (*sh, 3) and r[2].shape == (*sh, 3, 3) and r[1].shape == (*sh, 3) and r[3].shape == (*sh, 3), f"{case} {f}: shapes {[t.shape for t in r]}")
            for i, n in enumerate(names):
                cc = chs[i] if f in ("t", "t1") else 0.0 if f == "none" else 1.0
                w = ref(*SYS[n][:2], cc)
                cmp([r[0].reshape(-1, 3)[i], r[1].reshape(-1, 3)[i], r[2].reshape(-1, 3, 3)[i], r[3].reshape(-1, 3)[i]], w, f"{case} {f} system {n}", D)
            res.see(r)
        if len(sh) > 1:  # one charge per system of the last batch dimension
            c = torch.tensor([0.0, 1.0, -1.0, 2.0][: sh[-1]], dtype=D)
            zz, xx = z.reshape(*sh, 3), x.reshape(*sh, 3, 3)
            a, b = d4.get_properties(zz, xx, c), d4.get_properties(zz, xx, c.expand(sh).clone())
            cmp(a, [t.numpy() for t in b], f"{case} charges of the last dimension", D)
            need_close(d4.dftd4(zz, xx, 0, TPSSH, q=a[1]), d4.dftd4(zz, xx, c, TPSSH), f"{case} energy from the charges", rtol=1e-9)
            res.see(a)
