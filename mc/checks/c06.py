"""C06: derivatives are exact and finite."""
from __future__ import annotations

import itertools

import numpy as np
import torch
from tad_mctc.data import VDW_PAIRWISE

import tad_dftd4 as d4
from tad_dftd4.data import R4R2
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d3 import D3ATM
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm

from ..drive import D, DAMP, F, model_inst, num, pack, pos
from ..harness import need, need_close
from ..systems import PARAMS, SYS, cluster

PROPERTY = "C06"
LEVEL = "exploration"
RULE = (
    "Full product of systems x calculators x models x differentiated arguments; every component of the gradient is compared with a fourth-order central "
    "difference of the energy of the same call, Hessians with differences of gradients. Finiteness: product of degenerate inputs x calculators x arguments. "
    "Non-trivial: non-zero derivative; distinct: derivatives differ in 8 digits."
)
BOUNDS = {
    "quick": "10 systems x 10 calculators x 2 models, all argument kinds (positions, every parameter, charge, q, r4r2, rvdw), all components; the model's wf and rc6 (4 calculators, q computed and given); Hessians of 5 systems; "
    "batches of 3 with padding; all subsets of 4 argument sets differentiated together for 3 systems x 10 calculators x 2 models, all second derivatives between arguments; every parameter at its special values (0, 1) for 3 systems x 10 calculators x 2 models; 30 degenerate inputs x 8 calculators x 2 models x 2 precisions for finiteness",
    "thorough": "as quick with 16 systems, Hessians of 8 systems for all calculators, third argument mixed derivatives",
}
CHUNK = 2
ZP = dict(s6=0.9, s8=1.2, s9=0.8, rs6=1.1, rs8=1.05, a1=0.4, a2=5.0, alp=13.0)
CALC = {
    "plain": PARAMS["s10"],
    "exact": dict(PARAMS["tpssh"], alp=15.0),
    "zero": ZP,
    "mzero": dict(ZP, bet=0.02),
    "op": dict(s6=0.9, s8=1.2, s9=0.8, a1=0.4, a2=5.0, bet=2.0, alp=15.0),
    "d3atm": dict(PARAMS["tpssh"], rs9=1.2, alp=14.0),
    "q3": dict(PARAMS["tpssh"], alp=14.0),
    "cutoff": PARAMS["s10"],
    "gfn2": PARAMS["tpssh"],
    "gagcwf": PARAMS["tpssh"],
}
ARGS = ("pos", "param", "charge", "q", "r4r2", "rvdw")
QS = ["LiH", "OH-", "H2O", "HCN", "NaCl2-", "NH4+", "AuPtH", "UF3Cs", "far", "water2"]
TS = QS + ["H2", "CO", "SiH4", "LrNo", "mix8", "mix10"]
EXTRA = {
    "K2": ([19, 19], [[0, 0, 0], [0.3, 0.2, 7.5]], 0),
    "T3": (*cluster([47, 8, 1], 1.6, 4), 1),
}
ALL = {**SYS, **EXTRA}


def space(tier):
    out = []
    for s in TS if tier == "thorough" else QS:
        for c in CALC:
            if c == "gfn2" and max(ALL[s][0]) > 86:
                continue
            for m in ("d4", "d4s"):
                for a in ARGS:
                    out.append(("fd", s, c, m, a))
    hs = ["LiH", "H2O", "HCN", "T3", "K2"] + (["NaCl2-", "AuPtH", "far"] if tier == "thorough" else [])
    for s in hs:
        for c in CALC if tier == "thorough" or len(ALL[s][0]) == 2 else ("plain", "exact", "zero", "q3", "mzero"):
            if c == "gfn2" and max(ALL[s][0]) > 86:
                continue
            for m in ("d4", "d4s"):
                out.insert(0, ("hess", s, c, m))
                out.append(("mixed", s, c, m))
    for grp in (("H2O", "LiH", "NH4+"), ("He", "OH-", "HCN"), ("UF3Cs", "H-", "NaCl2-"), ("far", "AuPtH", "He")):
        for c in CALC:
            if c == "gfn2" and any(max(ALL[s][0]) > 86 for s in grp):
                continue
            for m in ("d4", "d4s"):
                for a in ARGS:
                    for lay in ("end", "middle"):
                        out.append(("batch", grp, c, m, a, lay))
    for s in ("H2O", "NaCl2-", "T3") if tier == "quick" else hs + ["OH-", "UF3Cs"]:
        for c in CALC:
            if c == "gfn2" and max(ALL[s][0]) > 86:
                continue
            for m in ("d4", "d4s"):
                out.append(("joint", s, c, m))
    for s in QS if tier == "quick" else TS:
        for c in ("plain", "exact", "q3", "zero"):
            for m in ("d4", "d4s"):
                out.append(("model", s, c, m))
    for i in range(len(DEG)):
        for c in ("plain", "exact", "zero", "mzero", "op", "d3atm", "q3", "cutoff"):
            for m in ("d4", "d4s"):
                for dt in ("d", "f"):
                    out.append(("finite", i, c, m, dt))
    for z in range(1, 104):
        out.append(("extremeq", z))
    for s in ("H2O", "NaCl2-", "T3"):
        for c in CALC:
            for m in ("d4", "d4s"):
                for k in CALC[c]:
                    for v in SPECIAL[k[0] if k != "alp" else "alp"]:
                        if (c, k, v) == ("mzero", "bet", 1.0):
                            continue  # too steep for the finite differences
                        out.append(("special", s, c, m, k, v))
    return out


# ---- energies --------------------------------------------------------------
def energy(c, m, z, x, ch, p, q=None, r4r2=None, rvdw=None):
    """m: name of a model or a model instance."""
    dt = x.dtype
    kw = dict(q=q, r4r2=r4r2, rvdw=rvdw)
    if c in ("zero", "mzero", "op"):
        return d4.dftd4(z, x, ch, p, model=m, damping_function=DAMP[c](), **kw)
    if c == "exact":
        return DispD4Exact(model=m, dtype=dt).calculate(z, x, ch, p, **kw)
    if c == "cutoff":
        return d4.dftd4(z, x, ch, p, model=m, cutoff=d4.Cutoff(disp2=6.77, disp3=5.93, cn_eeq=5.11, dtype=dt), **kw)
    if c in ("d3atm", "q3"):
        disp = Disp(model=m, dtype=dt)
        disp.register(TwoBodyTerm())
        if c == "q3":
            disp.register(D4ATMApprox(charge_dependent=True))
            disp.register(D4ATMExact(charge_dependent=True))
        else:
            disp.register(D3ATM())
        return disp.calculate(z, x, ch, p, **kw)
    if c == "gfn2":
        return d4.dftd4(z, x, ch, p, model=model_inst(m, z, dt, ref_charges="gfn2"), **kw)
    if c == "gagcwf":
        wf = 4.5 if m == "d4" else torch.full((*z.shape, z.shape[-1]), 4.5, dtype=dt)
        return d4.dftd4(z, x, ch, p, model=model_inst(m, z, dt, ga=2.2, gc=1.4, wf=wf), **kw)
    return d4.dftd4(z, x, ch, p, model=m, **kw)


def grads(e, ts, **kw):
    """None when the result does not depend (or pretends not to depend) on the argument."""
    if not e.requires_grad:
        return [None] * len(ts)
    return torch.autograd.grad(e, ts, allow_unused=True, **kw)


ST = ((-2, 1 / 12), (-1, -8 / 12), (1, 8 / 12), (2, -1 / 12))


def fd_batch(f, x, h):
    """Fourth-order derivative of f (rows -> energies) with respect to all entries of the array x; one batched call."""
    x = np.asarray(x, float)
    flat = x.ravel()
    rows = []
    for i in range(flat.size):
        for k, _ in ST:
            r = flat.copy()
            r[i] += k * h
            rows.append(r.reshape(x.shape))
    e = f(np.stack(rows)).reshape(flat.size, 4)
    return (e @ np.array([w for _, w in ST]) / h).reshape(x.shape)


def weights(n):
    """Unequal weights: derivative of a generic combination of the atomic energies."""
    return torch.tensor([1.0 + 0.37 * ((i * 3) % 5) for i in range(n)], dtype=D)


def check_arg(res, c, m, zs, xs, ch, arg, what, P=None):
    """zs (..., n) nested lists, xs (..., n, 3), ch list or float."""
    z = num(zs)
    bshape = z.shape[:-1]
    n = z.shape[-1]
    x0 = np.array(xs, float)
    w = weights(n)
    real = np.array(zs) > 0
    P = CALC[c] if P is None else P
    q0 = np.where(real, 0.07 * ((np.arange(n) * 3) % 5 - 1.7), 0.0)
    r40 = R4R2(dtype=D)[z].numpy() * np.where(real, 1.03, 1.0)
    v0 = VDW_PAIRWISE(dtype=D)[z.unsqueeze(-1), z.unsqueeze(-2)].numpy() * 1.02
    cht = torch.tensor(ch, dtype=D)

    def ex(a, k):
        t = torch.as_tensor(a)
        return t.unsqueeze(0).expand(k, *t.shape)

    def f(X=None, q=None, r4=None, v=None, charge=None, p=P, k=None):
        """Total (weighted) energies for k variants."""
        e = energy(c, m, ex(z, k), ex(torch.tensor(x0), k) if X is None else torch.tensor(X),
                   ex(cht, k) if charge is None else torch.tensor(charge), p,
                   q=None if q is None else torch.tensor(q), r4r2=None if r4 is None else torch.tensor(r4), rvdw=None if v is None else torch.tensor(v))
        return (e * w).sum(tuple(range(1, e.ndim))).detach().numpy()

    x = torch.tensor(x0, requires_grad=arg == "pos")
    if arg == "pos":
        e = (energy(c, m, z, x, cht, P) * w).sum()
        (g,) = grads(e, [x])
        g = torch.zeros_like(x) if g is None else g
        h = 1e-3
        ref = fd_batch(lambda X: f(X=X, k=len(X)), x0, h)
        ref = np.where(real[..., None], ref, 0.0)
        g = g.numpy()
        cmp(g, ref, what)
        need(np.all(g[~real] == 0.0), f"{what}: gradient on padding")
        res.see(g)
    elif arg == "param":
        p = {k: torch.tensor(float(v), dtype=D, requires_grad=True) for k, v in P.items()}
        e = (energy(c, m, z, x, cht, p) * w).sum()
        gs = grads(e, list(p.values()))
        for name, g in zip(p, gs):
            h = 1e-3 * max(1.0, abs(P[name])) if name != "bet" else 2e-4
            vals = [float((energy(c, m, z, x, cht, {**P, name: P[name] + k * h}) * w).sum()) for k, _ in ST]
            ref = float(np.dot(vals, [a for _, a in ST]) / h)
            g = 0.0 if g is None else float(g)
            cmp(np.array([g]), np.array([ref]), f"{what} parameter {name}", atol=1e-12)
            res.see(name, g)
    elif arg == "charge":
        cg = cht.clone().requires_grad_()
        e = (energy(c, m, z, x, cg, P) * w).sum()
        (g,) = grads(e, [cg])
        g = torch.zeros_like(cg) if g is None else g
        ref = fd_batch(lambda C: f(charge=C, k=len(C)), cht.numpy(), 1e-3)
        cmp(np.atleast_1d(g.numpy()), np.atleast_1d(ref), what)
        res.see(g)
    else:
        t0 = {"q": q0, "r4r2": r40, "rvdw": v0}[arg]
        t = torch.tensor(t0, requires_grad=True)
        e = (energy(c, m, z, x, cht, P, **{arg: t}) * w).sum()
        (g,) = grads(e, [t])
        g = np.zeros_like(t0) if g is None else g.numpy()
        key = {"q": "q", "r4r2": "r4", "rvdw": "v"}[arg]
        ref = fd_batch(lambda T: f(**{key: T}, k=len(T)), t0, 1e-3)
        m_ = real if arg != "rvdw" else real[..., :, None] & real[..., None, :]
        need(np.all(np.isfinite(g)), f"{what}: non-finite")
        need(np.all(g[~m_] == 0.0), f"{what}: gradient on padding")
        cmp(g, np.where(m_, ref, 0.0), what)
        res.see(g)


def cmp(g, ref, what, atol=1e-13):
    need(np.all(np.isfinite(g)), f"{what}: non-finite derivative")
    s = np.abs(ref).max()
    need_close(g, ref, what, rtol=2e-6, scale=s * 100, atol=max(atol, 1e-12))


# ---- degenerate inputs --------------------------------------------------------
def _deg():
    out = []
    out.append(("He atom", [2], [[0, 0, 0]], 0, {}))
    out.append(("H- atom", [1], [[1, 2, 3]], -1, {}))
    out.append(("He padded", [[2, 0, 0], [1, 1, 2]], [[[0, 0, 0]] * 3, [[0, 0, 0], [0, 0, 1.5], [0, 3, 0]]], [0, 0], {}))
    out.append(("all-padding row", [[0, 0], [1, 1]], [[[0, 0, 0]] * 2, [[0, 0, 0], [0, 0, 1.5]]], [0, 0], dict(_q=[[0.0, 0.0], [0.1, -0.1]])))
    for r in (0.6, 55.0, 200.0, 1e4):
        out.append((f"dimer {r}", [6, 8], [[0, 0, 0], [0, 0, r]], 0, {}))
    for r in (1.2, 4.0, 38.0, 100.0):
        out.append((f"linear {r}", [1, 6, 1], [[0, 0, -r], [0, 0, 0], [0, 0, r]], 0, {}))
    out.append(("planar square", [18] * 4, [[0, 0, 0], [7, 0, 0], [7, 7, 0], [0, 7, 0]], 0, {}))
    out.append(("equilateral", [36] * 3, [[0, 0, 0], [7, 0, 0], [3.5, 7 * np.sqrt(3) / 2, 0]], 0, {}))
    for k in ("s6", "s8", "s9", "s10"):
        out.append((f"{k}=0", *SYS["H2O"], {k: 0.0}))
    out.append(("all s zero", *SYS["H2O"], dict(s6=0.0, s8=0.0, s9=0.0, s10=0.0)))
    out.append(("a1=0", *SYS["H2O"], dict(a1=0.0)))
    out.append(("a2=0", *SYS["H2O"], dict(a2=0.0)))
    out.append(("a1=a2=0", *SYS["H2O"], dict(a1=0.0, a2=0.0)))
    out.append(("bet=0", *SYS["H2O"], dict(bet=0.0)))
    out.append(("high cn", [26] + [1] * 8, [[0, 0, 0]] + [[1.7 * a, 1.7 * b, 1.7 * c] for a in (1, -1) for b in (1, -1) for c in (1, -1)], 0, {}))
    out.append(("charge +4", *SYS["H2O"][:2], 4, {}))
    out.append(("charge -4", *SYS["H2O"][:2], -4, {}))
    out.append(("big q", *SYS["H2O"], dict(_q=[30.0, 5.0, 1.0])))
    out.append(("q=-zeff", *SYS["H2O"], dict(_q=[-6.0, -1.0, -1.0])))
    out.append(("q<-zeff", *SYS["H2O"], dict(_q=[-9.0, -1.5, -3.0])))
    out.append(("q0", *SYS["H2O"], dict(_q=[0.0, 0.0, 0.0])))
    out.append(("axis aligned", [8, 1, 1], [[0, 0, 0], [0, 0, 1.8], [1.8, 0, 0]], 0, {}))
    return out


DEG = _deg()


# values a parameter may have that code could treat in a special way
SPECIAL = {"s": (0.0, 1.0), "a": (0.0, 1.0), "b": (0.0, 1.0), "r": (1.0,), "alp": (6.0, 16.0)}


def evaluate(case, res):
    kind = case[0]
    if kind == "special":
        _, s, c, m, k, v = case
        z, x, ch = ALL[s]
        P = {**CALC[c], k: v}
        for a in ("param", "pos") if s == "H2O" else ("param",):
            check_arg(res, c, m, z, x, float(ch), a, f"{case} {a}", P=P)
        return
    if kind == "fd":
        _, s, c, m, a = case
        z, x, ch = ALL[s]
        check_arg(res, c, m, z, x, float(ch), a, f"{case}")
    elif kind == "batch":
        _, grp, c, m, a, lay = case
        zs, _ = pack([ALL[s][0] for s in grp], 0, lay)
        xs, _ = pack([[list(r) for r in ALL[s][1]] for s in grp], [0.0, 0.0, 0.0], lay)
        check_arg(res, c, m, zs, xs, [float(ALL[s][2]) for s in grp], a, f"{case}")
    elif kind == "hess":
        _, s, c, m = case
        z, x, ch = ALL[s]
        n = len(z)
        w = weights(n)
        Z = num(z)
        x0 = np.array(x, float)

        def tot(X):
            return (energy(c, m, Z, X, float(ch), CALC[c]) * w).sum()

        H = torch.autograd.functional.hessian(tot, torch.tensor(x0)).reshape(3 * n, 3 * n).numpy()
        need(np.all(np.isfinite(H)), f"{case}: non-finite Hessian")
        h = 1e-3
        rows = []
        for i in range(3 * n):
            for k, _ in ST:
                y = x0.ravel().copy()
                y[i] += k * h
                rows.append(y.reshape(n, 3))
        X = torch.tensor(np.stack(rows), requires_grad=True)
        K = len(rows)
        e = (energy(c, m, Z.expand(K, n), X, torch.full((K,), float(ch), dtype=D), CALC[c]) * w).sum()
        (G,) = torch.autograd.grad(e, X)
        G = G.reshape(3 * n, 4, 3 * n).numpy()
        ref = np.einsum("ikj,k->ij", G, np.array([a for _, a in ST])) / h
        s_ = np.abs(ref).max()
        need_close(H, ref, f"{case} Hessian", rtol=1e-5, scale=s_ * 100, atol=1e-11)
        need(np.abs(H - H.T).max() <= 1e-9 * s_ + 1e-14, f"{case}: Hessian not symmetric")
        res.see(H)
    elif kind == "model":
        # derivatives with respect to what the model was built from
        _, s, c, m = case
        z, x, ch = ALL[s]
        n = len(z)
        Z, w, P = num(z), weights(n), CALC[c]
        base = model_inst(m, Z)
        opts = dict(wf=np.array(5.5) if m == "d4" else base.wf.numpy() * 0.97 + 0.1, rc6=base.rc6.numpy().copy())
        for q in (None, torch.tensor(0.07 * ((np.arange(n) * 3) % 5 - 1.7))):
            for name, v0 in opts.items():
                def tot(v):
                    return (energy(c, model_inst(m, Z, **{name: v}), Z, pos(x), float(ch), P, q=q) * w).sum()

                t = torch.tensor(v0, requires_grad=True)
                (g,) = grads(tot(t), [t])
                need(g is not None, f"{case}: energy does not depend on {name}")
                g = g.numpy()
                need(np.all(np.isfinite(g)), f"{case}: non-finite derivative for {name}")
                dirs = [np.eye(v0.size)[i].reshape(v0.shape) for i in range(v0.size)] if v0.size <= 4 else [np.cos(a * np.arange(v0.size) + b).reshape(v0.shape) for a, b in ((0.0, 0.0), (1.3, 0.4), (2.1, 1.0))]
                for dr in dirs:
                    h = 1e-3
                    ref = sum(a * float(tot(torch.tensor(v0 + k * h * dr))) for k, a in ST) / h
                    got = float((g * dr).sum())
                    need_close(got, ref, f"{case} derivative for {name}, q {'given' if q is not None else 'computed'}", rtol=2e-6, scale=float(np.abs(g).sum()), atol=1e-13)
                res.see(name, g)
    elif kind == "joint":
        # several arguments differentiated at the same time: every non-empty subset of the arguments gives, for each member, the
        # gradient it has when it is differentiated alone; second derivatives against differences along one direction per argument
        _, s, c, m = case
        z, x, ch = ALL[s]
        n = len(z)
        Z, w, P = num(z), weights(n), CALC[c]
        base = dict(pos=np.array(x, float), charge=np.array(float(ch)), q=0.07 * ((np.arange(n) * 3) % 5 - 1.7),
                    r4r2=R4R2(dtype=D)[Z].numpy() * 1.03, rvdw=VDW_PAIRWISE(dtype=D)[Z.unsqueeze(-1), Z.unsqueeze(-2)].numpy() * 1.02,
                    **{"p_" + k: np.array(float(v)) for k, v in P.items()})

        def run(names, given, shift=None):
            """Gradients of the energy for the arguments `names` (groups); all of `given` are passed as tensors."""
            t = {k: torch.tensor(v) for k, v in base.items()}
            for k, v in (shift or {}).items():
                t[k] = t[k] + v
            leaf = [k for k in t if k in names or ("param" in names and k.startswith("p_"))]
            for k in leaf:
                t[k].requires_grad_()
            kw = {k: t[k] for k in ("q", "r4r2", "rvdw") if k in given}
            e = (energy(c, m, Z, t["pos"], t["charge"], {k: t["p_" + k] for k in P}, **kw) * w).sum()
            gs = grads(e, [t[k] for k in leaf], create_graph=True)
            return t, {k: (torch.zeros_like(t[k]) if g is None else g) for k, g in zip(leaf, gs)}

        for given in (("pos", "param", "charge", "r4r2", "rvdw"), ("pos", "param", "charge"), ("pos", "param", "q", "r4r2", "rvdw"), ("pos", "param", "q")):
            alone = {}
            for a in given:
                alone.update(run((a,), given)[1])
            for k in range(2, len(given) + 1):
                for sub in itertools.combinations(given, k):
                    for name, g in run(sub, given)[1].items():
                        ref = alone[name].detach()
                        need(torch.isfinite(g).all(), f"{case} {sub}: non-finite gradient for {name}")
                        need_close(g, ref, f"{case} gradient for {name} with {sub} differentiated together", rtol=1e-9, scale=float(ref.abs().max()), atol=1e-13)
                    res.see(sub, g)
            # second derivatives between all pairs of arguments
            t, g = run(given, given)
            dirs = {k: torch.tensor(np.cos(1.3 * np.arange(v.numel()) + 0.4)).reshape(v.shape) for k, v in g.items()}
            for a in g:
                if not g[a].requires_grad:
                    continue
                h2 = torch.autograd.grad((g[a] * dirs[a]).sum(), [t[k] for k in g], allow_unused=True, retain_graph=True)
                h = 2e-4 if a == "p_bet" else 1e-3
                acc = {k: 0.0 for k in g}
                for f, wt in ST:
                    gg = run(given, given, {a: f * h * dirs[a]})[1]
                    for k in g:
                        acc[k] = acc[k] + wt * gg[k].detach() / h
                for k, v in zip(g, h2):
                    v = torch.zeros_like(g[k]) if v is None else v
                    ref = acc[k]
                    gs = float(g[k].abs().max())
                    cmp(v.detach().numpy(), ref.numpy(), f"{case} {given} second derivative {a} x {k}", atol=1e-11 + 1e-10 * gs)
    elif kind == "mixed":
        # mixed second derivatives: d/dp of the gradient equals finite differences of the gradient
        _, s, c, m = case
        z, x, ch = ALL[s]
        Z = num(z)
        w = weights(len(z))
        P = CALC[c]

        def grad(p, c_):
            X = pos(x).requires_grad_()
            e = (energy(c, m, Z, X, c_, p) * w).sum()
            return X, torch.autograd.grad(e, X, create_graph=True)[0]

        for name in [k for k in P if k in ("s8", "s9", "a1", "a2", "rs6", "alp", "bet", "rs9")] + ["charge"]:
            h = 2e-3 if name != "bet" else 2e-4
            if name == "charge":
                t = torch.tensor(float(ch), dtype=D, requires_grad=True)
                _, g = grad(P, t)
            else:
                t = torch.tensor(float(P[name]), dtype=D, requires_grad=True)
                _, g = grad({**P, name: t}, float(ch))
            r = torch.tensor(np.cos(np.arange(g.numel())).reshape(g.shape))
            (d,) = grads((g * r).sum(), [t])
            d = 0.0 if d is None else d
            vals = []
            for k, _ in ST:
                if name == "charge":
                    _, gg = grad(P, float(ch) + k * h)
                else:
                    _, gg = grad({**P, name: P[name] + k * h}, float(ch))
                vals.append(float((gg * r).sum()))
            ref = float(np.dot(vals, [a for _, a in ST]) / h)
            cmp(np.array([float(d)]), np.array([ref]), f"{case} d2E/dR d{name}", atol=1e-11)
            res.see(name, float(d))
    elif kind == "finite":
        _, i, c, m, dt = case
        name, z, x, ch, opt = DEG[i]
        opt = dict(opt)
        dtype = D if dt == "d" else F
        q = opt.pop("_q", None)
        if c in ("zero", "mzero") and ("a1=a2=0" in name):
            pass
        P = {**CALC[c], **{k: v for k, v in opt.items() if k in CALC[c] or k in ("s6", "s8", "s9")}}
        Z = num(z)
        real = np.array(z) > 0
        X = pos(x, dtype).requires_grad_()
        p = {k: torch.tensor(float(v), dtype=dtype, requires_grad=True) for k, v in P.items()}
        r4 = R4R2(dtype=dtype)[Z].clone().requires_grad_()
        rv = VDW_PAIRWISE(dtype=dtype)[Z.unsqueeze(-1), Z.unsqueeze(-2)].clone().requires_grad_()
        vs = dict(positions=X, r4r2=r4, rvdw=rv, **p)
        kw = {}
        if q is not None:
            vs["q"] = kw["q"] = torch.tensor(q, dtype=dtype, requires_grad=True)
            C = torch.tensor(ch, dtype=dtype)
        else:
            C = vs["charge"] = torch.tensor(ch, dtype=dtype, requires_grad=True)
        e = energy(c, m, Z, X, C, p, r4r2=r4, rvdw=rv, **kw)
        need(torch.isfinite(e).all(), f"{case} {name}: non-finite energy {e.tolist()}")
        gs = grads(e.sum(), list(vs.values()), create_graph=True)
        for k, g in zip(vs, gs):
            if g is not None:
                need(torch.isfinite(g).all(), f"{case} {name}: non-finite gradient for {k}")
                res.see(name, k, g)
        if gs[0] is not None and gs[0].requires_grad:
            (h,) = torch.autograd.grad((gs[0] * torch.cos(torch.arange(gs[0].numel(), dtype=dtype)).reshape(gs[0].shape)).sum(), X, allow_unused=True)
            if h is not None:
                need(torch.isfinite(h).all(), f"{case} {name}: non-finite second derivative")
    else:
        z0 = case[1]
        for m in ("d4", "d4s"):
            for qv in (-200.0, -50.0, -float(z0), -1.0, -0.5, 0.0, 0.3, 1.0, 4.0, 90.0):
                for zz in ([z0, 8], [z0, z0]):
                    q = torch.tensor([qv, 0.1], dtype=D, requires_grad=True)
                    X = pos([[0, 0, 0], [0, 1.0, 4.5]]).requires_grad_()
                    e = d4.dftd4(num(zz), X, 0, PARAMS["tpssh"], model=m, q=q)
                    need(torch.isfinite(e).all(), f"Z={zz} q={qv} {m}: non-finite energy")
                    for g, nm in zip(torch.autograd.grad(e.sum(), (q, X)), ("q", "positions")):
                        need(torch.isfinite(g).all(), f"Z={zz} q={qv} {m}: non-finite gradient for {nm}")
                        res.see(g)
