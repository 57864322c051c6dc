"""C23: memory layout, integer type and autograd mode."""
from __future__ import annotations

import itertools

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.damping import OptimisedPowerDamping, ZeroDamping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d3 import D3ATM
from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2

from .. import refmodel as R
from ..drive import D, num, pack, pos
from ..harness import need, need_close
from ..systems import PARAMS, SYS, big_cluster

PROPERTY = "C23"
LEVEL = "exploration"
RULE = (
    "Full product of systems / batches x interfaces x memory layouts of every tensor argument x integer type x autograd mode, compared with the reference model or the plain call; gradients for every "
    "layout; torch.func transformations (grad, jacrev, jacfwd, hessian, jvp, vjp, vmap over positions, charges and parameters, nested) against autograd and explicit loops. Non-trivial: non-zero; distinct: 8 digits."
)
BOUNDS = {
    "quick": "10 systems, a chain of 88 bohr and 4 batches x 8 interfaces x 8 layouts x 2 integer types x 8 modes; layouts of charges, charge, r4r2, rvdw, c6; 7 systems x 4 interfaces x 11 transformations; cluster of 24 and 33 atoms",
    "thorough": "as quick with 20 systems, 7 batches and clusters of 40 and 66 atoms",
}
CHUNK = 2
P = PARAMS["s10"]
P0 = {k: v for k, v in P.items() if k != "s10"}
ZP = dict(rs6=1.1, rs8=1.0, a1=0.4, a2=5.0, alp=14.0, s8=1.2)
IF = ("d4", "d4s", "calc", "exact", "exacts", "zero", "d3atm", "props")
LAY = ("plain", "offset", "strided", "colmajor", "reversed", "expanded", "unsqueezed", "permuted")
MODES = ("plain", "grad", "no_grad", "inference", "inference inputs", "no_grad grad", "param grad", "deterministic")
SYSQ = ("He", "H2", "H2O", "HCN", "NaCl2-", "NH4+", "UF3Cs", "AuPtH", "LrNo", "mix8")
BATQ = (("H2O", "NH4+"), ("UF3Cs", "He", "OH-"), ("H2O", "H2O"), ("mix8", "HCN", "LiH", "CO"))
BATT = BATQ + (("He", "He"), ("AuPtH", "C6H6"), ("mix10", "H-", "Ar3"))


# pair distances from 3 to 88 bohr in small steps: both sides of every cutoff
CHAIN = ([54, 8, 1, 55, 79, 6, 17, 92, 11, 1, 36, 53], [[0.1 * (i % 3), 0.2 * (i % 2), r] for i, r in enumerate((0, 3, 7, 12, 18, 25, 33, 42, 52, 63, 75, 88))], 0)


def space(tier):
    out = []
    sy = list(SYSQ if tier == "quick" else SYS) + list(BATQ if tier == "quick" else BATT)
    sy += ["chain", "cluster24", "cluster33"] + (["cluster40", "cluster66"] if tier == "thorough" else [])
    for s, i in itertools.product(sy, IF):
        if isinstance(s, str) and s.startswith("cluster") and i not in ("d4", "d4s", "props"):
            continue
        out.append(("layout", s, i))
    for s in sy:
        out.append(("args", s))
    for s, i in itertools.product(("H2", "H2O", "HCN", "NaCl2-", "AuPtH", "LiH", "UF3Cs"), ("d4", "d4s", "exact", "zero")):
        out.append(("func", s, i))
    return out


def load(s):
    if isinstance(s, tuple):
        sy = [SYS[n] for n in s]
        zz, mask = pack([q[0] for q in sy], layout="middle")
        xx, _ = pack([[list(map(float, r)) for r in q[1]] for q in sy], fill=[0.0] * 3, layout="middle")
        return num(zz), pos(xx), torch.tensor([float(q[2]) for q in sy], dtype=D)
    if s.startswith("cluster"):
        z, x = big_cluster(int(s[7:]))
        return num(z), pos(x), torch.tensor(1.0, dtype=D)
    z, x, c = CHAIN if s == "chain" else SYS[s]
    return num(z), pos(x), torch.tensor(float(c), dtype=D)


def lay(t, kind):
    """Same values, other memory layout."""
    if kind == "plain" or t.ndim == 0:
        return t.clone()
    if kind == "offset":
        b = torch.full((t.numel() + 5,), 7, dtype=t.dtype)
        b[3:-2] = t.reshape(-1)
        return b[3:-2].reshape(t.shape)
    if kind == "strided":
        b = torch.full((*t.shape[:-1], 2 * t.shape[-1]), 9, dtype=t.dtype)
        b[..., ::2] = t
        return b[..., ::2]
    if kind == "colmajor":
        return t.permute(*range(t.ndim)[::-1]).contiguous().permute(*range(t.ndim)[::-1])
    if kind == "reversed":
        return t.flip(0).contiguous().flip(0)
    if kind == "expanded":
        return t.unsqueeze(0).expand(3, *t.shape)[1]
    if kind == "unsqueezed":
        return t.clone().unsqueeze(-1).squeeze(-1)
    b = torch.full((*t.shape, 3), 4, dtype=t.dtype)
    b[..., 1] = t
    return b[..., 1]


def call(i, z, x, c, extra=None, **kw):
    e = extra or {}
    if i in ("d4", "d4s"):
        return d4.dftd4(z, x, c, {**P, **e}, model=i, **kw)
    if i == "calc":
        return DispD4(dtype=x.dtype).calculate(z, x, c, {**P, **e}, **kw)
    if i in ("exact", "exacts"):
        return DispD4Exact("d4" if i == "exact" else "d4s", dtype=x.dtype).calculate(z, x, c, {**P0, **e}, **kw)
    if i == "zero":
        return d4.dftd4(z, x, c, {**ZP, **e}, damping_function=ZeroDamping(), **kw)
    if i == "d3atm":
        d = Disp(dtype=x.dtype)
        d.register(TwoBodyTerm(damping_fn=OptimisedPowerDamping(), charge_dependent=True))
        d.register(D3ATM(charge_dependent=True))
        return d.calculate(z, x, c, {**P0, "bet": 1.0, "rs9": 1.1, **e}, **kw)
    r = d4.get_properties(z, x, c)
    return torch.stack([r[0], r[1], r[2].sum(-1) + r[2][..., 0], r[3]], -1)


def reference(i, s):
    if isinstance(s, tuple) or i in ("props",) or s.startswith("cluster"):
        return None
    z, x, c = CHAIN if s == "chain" else SYS[s]
    p = ZP if i == "zero" else {**P0, "bet": 1.0, "rs9": 1.1} if i == "d3atm" else P0 if "exact" in i else P
    return R.energy(z, x, c, p, model="d4s" if i in ("d4s", "exacts") else "d4", atm="exact" if "exact" in i else "d3" if i == "d3atm" else "approx",
                    kind="zero" if i == "zero" else "op" if i == "d3atm" else "rational", qdep3=i == "d3atm")


TOL = dict(rtol=1e-9, atol=1e-14)


def weights_like(t):
    return torch.linspace(0.5, 1.5, t.numel(), dtype=D).reshape(t.shape)


def gradient(i, z, x, c, extra=None):
    y = x.detach().requires_grad_() if x.is_leaf else x
    e = call(i, z, y, c, extra)
    w = weights_like(e)
    if not e.requires_grad:
        return torch.zeros_like(x)
    (g,) = torch.autograd.grad((e * w).sum(), y)
    return g


def evaluate(case, res):
    kind = case[0]
    if kind == "layout":
        _, s, i = case
        z, x, c = load(s)
        base = call(i, z, x, c)
        w = reference(i, s)
        if w is not None:
            need_close(base, w, f"{case} plain", rtol=1e-8, atol=1e-13)
        g0 = gradient(i, z, x.clone(), c)
        need(bool(torch.isfinite(g0).all()), f"{case}: gradient")
        big = isinstance(s, str) and s.startswith("cluster")
        for lz, lx in [(a, b) for a in LAY for b in LAY if not big or a == b]:
            for it in (torch.int64, torch.int32) if lz == lx or lx == "plain" or lz == "plain" else (torch.int64,):
                zz, xx = lay(z.to(it), lz), lay(x, lx)
                what = f"{case} numbers {lz} {it} positions {lx}"
                e = call(i, zz, xx, c)
                need_close(e, base, what, **TOL)
                need(torch.equal(zz, z.to(it)) and torch.equal(xx, x), what + ": inputs were changed")
                res.see(i, e, lz, lx, str(it))
                if lz == lx:
                    y = lay(x, lx).requires_grad_() if lx != "reversed" else lay(x, lx).detach().requires_grad_()
                    e = call(i, zz, y, c)
                    need_close(e, base, what + " requiring gradients", **TOL)
                    if e.requires_grad:
                        (g,) = torch.autograd.grad((e * weights_like(e)).sum(), y)
                        need_close(g, g0, what + " gradient", rtol=1e-8, scale=float(g0.abs().max()) + 1e-12)
        for m in MODES:
            what = f"{case} mode {m}"
            if m == "grad":
                e = call(i, z, x.clone().requires_grad_(), c)
                need(e.requires_grad or (z != 0).sum(-1).max() < 2, what + ": no graph")
            elif m == "no_grad":
                with torch.no_grad():
                    e = call(i, z, x, c)
                need(not e.requires_grad, what)
            elif m == "inference":
                with torch.inference_mode():
                    e = torch.tensor(call(i, z, x, c).tolist(), dtype=D)
            elif m == "inference inputs":
                with torch.inference_mode():
                    zz, xx, cc = z.clone(), x.clone(), c.clone()
                    e = torch.tensor(call(i, zz, xx, cc).tolist(), dtype=D)
            elif m == "no_grad grad":
                with torch.no_grad():
                    e = call(i, z, x.clone().requires_grad_(), c.clone().requires_grad_())
                need(not e.requires_grad, what)
            elif m == "param grad":
                if i == "props":
                    continue
                pr = {k: torch.tensor(float(v), dtype=D, requires_grad=True) for k, v in (ZP if i == "zero" else P0).items()}
                e = call(i, z, x, c, pr)
                with torch.no_grad():
                    need_close(call(i, z, x, c, pr), base, what + " without graph", **TOL)
            elif m == "deterministic":
                torch.use_deterministic_algorithms(True)
                try:
                    e = call(i, z, x, c)
                finally:
                    torch.use_deterministic_algorithms(False)
            else:
                e = call(i, z, x, c)
            need_close(e, base, what, **TOL)
            res.see(i, m, e)
        # after all of that, plain calls and gradients still work
        need_close(call(i, z, x, c), base, f"{case} afterwards", **TOL)
        need_close(gradient(i, z, x.clone(), c), g0, f"{case} gradient afterwards", rtol=1e-9, scale=float(g0.abs().max()) + 1e-12)
        if z.ndim == 1 and not big:
            # expanded batch: the same storage for every system
            zb, xb = z.expand(3, -1), x.expand(3, -1, -1)
            e = call(i, zb, xb, c)
            need_close(e, base.expand(3, *base.shape), f"{case} expanded batch", **TOL)
            cb = torch.tensor([float(c), float(c) + 1.0], dtype=D)
            e = call(i, z.expand(2, -1), x.expand(2, -1, -1), cb)
            need_close(e[0], base, f"{case} expanded batch, charge 0", **TOL)
            need_close(e[1], call(i, z, x, cb[1]), f"{case} expanded batch, charge 1", **TOL)
            if len(z) > 1:  # slices of a larger system
                zl, xl = torch.cat([num([79]), z, num([6, 1])]), torch.cat([pos([[9.0, 9, 9]]), x, pos([[7.0, 7, 7], [8.0, 1, 1]])])
                need_close(call(i, zl[1:-2], xl[1:-2], c), base, f"{case} slice", **TOL)
    elif kind == "args":
        s = case[1]
        z, x, c = load(s)
        n = z.shape[-1]
        q = torch.where(z > 0, torch.linspace(-0.4, 0.5, z.numel(), dtype=D).reshape(z.shape), torch.zeros((), dtype=D))
        r4 = torch.where(z > 0, 1.5 + z.to(D).sqrt() * 0.4, torch.zeros((), dtype=D))
        vd = (3.0 + 0.05 * (z.unsqueeze(-1) + z.unsqueeze(-2)).to(D)) * ((z > 0).unsqueeze(-1) & (z > 0).unsqueeze(-2))
        cn = d4.get_properties(z, x, c)[0]
        for i in ("d4", "d4s", "zero") if n < 20 else ("d4", "d4s"):
            kw = dict(q=q, r4r2=r4, rvdw=vd)
            base = call(i, z, x, c, **kw)
            for l in LAY:
                k2 = {k: lay(v, l) for k, v in kw.items()}
                pr = {k: lay(torch.tensor([float(v)], dtype=D), l)[0] for k, v in (ZP if i == "zero" else P).items()}
                cut = d4.Cutoff(**{k: lay(torch.tensor([v], dtype=D), l)[0] for k, v in dict(disp2=60.0, disp3=40.0, cn_eeq=25.0).items()}, dtype=D)
                e = call(i, z, x, lay(c, l), pr, cutoff=cut, **k2)
                need_close(e, base, f"{case} {i} arguments {l}", **TOL)
                need(all(torch.equal(k2[k], kw[k]) for k in kw), f"{case} {i} {l}: arguments were changed")
                res.see(i, l, e)
                # inputs that require gradients give the same values
                k2 = {k: lay(v, l).detach().requires_grad_() for k, v in kw.items()}
                e = call(i, z, x, lay(c, l).detach().requires_grad_(), **k2)
                need_close(e, base, f"{case} {i} arguments {l} requiring gradients", **TOL)
        # uniform values given as one number expanded to the shape of the argument
        if bool((z > 0).all()):
            uni = dict(q=(0.17, z.shape), r4r2=(3.1, z.shape), rvdw=(5.5, (*z.shape, n)))
            for i in ("d4", "d4s", "zero", "exact") if n < 20 else ("d4",):
                for names in itertools.product((0, 1), repeat=3):
                    ks = [k for k, b in zip(uni, names) if b]
                    for cc in (c, c * 0.0, c * 0.0 + 2.0):
                        e0 = call(i, z, x, cc, **{k: torch.full(uni[k][1], uni[k][0], dtype=D) for k in ks})
                        for kk in range(2):
                            ex = {k: torch.tensor(uni[k][0], dtype=D).expand(uni[k][1]) if kk == 0 or len(uni[k][1]) == 1 else torch.full(uni[k][1][:-1], uni[k][0], dtype=D).unsqueeze(-1).expand(uni[k][1]) for k in ks}
                            e = call(i, z, x, cc, **ex)
                            need_close(e, e0, f"{case} {i} expanded {ks}, charge {cc}", **TOL)
                        res.see(i, str(ks), e)
            if z.ndim == 2:
                e0 = call("d4", z, x, torch.full_like(c, 1.0))
                need_close(call("d4", z, x, torch.tensor(1.0, dtype=D).expand(c.shape)), e0, f"{case} expanded charge", **TOL)
        for m in ("d4", "d4s"):
            mk = d4.D4Model if m == "d4" else d4.D4SModel
            mod = mk(z, dtype=D)
            gw = mod.weight_references(cn, q)
            c6, al = mod.get_atomic_c6(gw), mod.get_weighted_pols(gw)
            for l in LAY:
                for it in (torch.int64, torch.int32):
                    mo = mk(lay(z.to(it), l), dtype=D)
                    g = mo.weight_references(lay(cn, l), lay(q, l))
                    need_close(g, gw, f"{case} {m} weights {l} {it}", rtol=1e-12)
                    need_close(mo.get_atomic_c6(lay(g, l)), c6, f"{case} {m} c6 {l} {it}", rtol=1e-12)
                    need_close(mo.get_weighted_pols(lay(g, l)), al, f"{case} {m} polarizabilities {l} {it}", rtol=1e-12)
                    mo = mk(z, rc6=lay(mod.rc6, l), dtype=D)
                    need_close(mo.get_atomic_c6(gw), c6, f"{case} {m} c6 from reference {l}", rtol=1e-12)
                    e = dispersion2(z.to(it), lay(x, l), P, lay(c6, l), lay(r4, l), as_matrix=True)
                    need_close(e, dispersion2(z, x, P, c6, r4, as_matrix=True), f"{case} {m} pair matrix {l}", **TOL)
                    res.see(m, l, e)
    else:
        _, s, i = case
        z, x, c = load(s)
        T = torch.func
        f = lambda y, cc=c, pr=None: call(i, z, y, cc, pr)  # noqa: E731
        tot = lambda y: (f(y) * weights_like(x[:, 0])).sum()  # noqa: E731
        g0 = gradient(i, z, x.clone(), c)
        sc = float(g0.abs().max()) + 1e-12
        e0 = f(x)
        J0 = torch.stack([torch.autograd.grad(f(y)[k], y)[0] for k in range(len(z)) for y in [x.clone().requires_grad_()]])
        H0 = torch.autograd.functional.hessian(tot, x)
        hs = float(H0.abs().max()) + 1e-12
        v = torch.linspace(-1.0, 1.0, x.numel(), dtype=D).reshape(x.shape)
        X = torch.stack([x, x * 1.15, x + 0.3])
        need_close(T.grad(tot)(x), g0, f"{case} grad", rtol=1e-8, scale=sc)
        need_close(T.jacrev(f)(x), J0, f"{case} jacrev", rtol=1e-8, scale=sc)
        need_close(T.jacfwd(f)(x), J0, f"{case} jacfwd", rtol=1e-7, scale=sc, atol=1e-10 * sc)
        need_close(T.jacrev(T.jacrev(tot))(x), H0, f"{case} nested jacrev", rtol=1e-7, scale=hs, atol=1e-9 * hs)
        need_close(T.hessian(tot)(x), H0, f"{case} hessian", rtol=1e-7, scale=hs, atol=1e-9 * hs)
        need_close(T.jvp(f, (x,), (v,))[1], torch.einsum("nab,ab->n", J0, v), f"{case} jvp", rtol=1e-7, scale=sc, atol=1e-10 * sc)
        need_close(T.vjp(f, x)[1](e0)[0], torch.einsum("nab,n->ab", J0, e0), f"{case} vjp", rtol=1e-8, scale=sc * float(e0.abs().max()))
        need_close(T.vmap(f)(X), torch.stack([f(y) for y in X]), f"{case} vmap", **TOL)
        need_close(T.vmap(T.grad(tot))(X), torch.stack([T.grad(tot)(y) for y in X]), f"{case} vmap of grad", rtol=1e-8, scale=sc)
        C = torch.tensor([0.0, 1.0, -0.5], dtype=D)
        need_close(T.vmap(lambda cc: f(x, cc))(C), torch.stack([f(x, cc) for cc in C]), f"{case} vmap over charges", **TOL)
        need_close(T.vmap(lambda a: f(x, c, dict(s8=a)))(C), torch.stack([f(x, c, dict(s8=a)) for a in C]), f"{case} vmap over parameters", **TOL)
        ga = T.grad(lambda a: (f(x, c, dict(s8=a))).sum())(torch.tensor(1.2, dtype=D))
        a = torch.tensor(1.2, dtype=D, requires_grad=True)
        need_close(ga, torch.autograd.grad(f(x, c, dict(s8=a)).sum(), a)[0], f"{case} parameter gradient", rtol=1e-9)
        gc = T.grad(lambda cc: (f(x, cc) ** 2).sum())(c)
        cc = c.clone().requires_grad_()
        need_close(gc, torch.autograd.grad((f(x, cc) ** 2).sum(), cc)[0], f"{case} charge gradient", rtol=1e-8)
        for t in (g0, J0, H0, ga, gc):
            res.see(i, t)
