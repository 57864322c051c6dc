"""Arguments stay as they are: every kind of call with every form of its arguments (used by C07)."""
from __future__ import annotations

import itertools

import torch

import tad_dftd4 as d4
from tad_dftd4 import utils
from tad_dftd4.damping import MZeroDamping, OptimisedPowerDamping, RationalDamping, ZeroDamping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d3 import D3ATM
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4, DispD4Exact
from tad_dftd4.dispersion.threebody import get_atm_dispersion
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
from tad_mctc.ncoord import cn_d4, erf_count

D, F = torch.double, torch.float32
DAMP = dict(rational=RationalDamping, zero=ZeroDamping, mzero=MZeroDamping, op=OptimisedPowerDamping)
NEED = dict(rational=("a1", "a2"), zero=("rs6", "rs8"), mzero=("rs6", "rs8", "bet"), op=("a1", "a2", "bet"))
ALL = dict(a1=0.4, a2=5.0, rs6=1.1, rs8=1.0, bet=0.3, s6=1.0, s8=0.9, s9=1.2, alp=14.0, rs9=1.25, doi="10.0/x")
OPT = ("s6", "s8", "s9", "alp", "rs9", "doi")
ATMS = dict(none=None, approx=D4ATMApprox, exact=D4ATMExact, d3=D3ATM)

CASES = [("terms", m, k, a, dep) for m in ("d4", "d4s", "inst", "insts") for k in DAMP for a in ATMS for dep in ((0, 0), (0, 1), (1, 0), (1, 1))]
CASES += [("func", m, k) for m in ("d4", "d4s", "inst", "insts") for k in DAMP] + [("calc", c, m) for c in ("D4", "exact") for m in ("d4", "d4s")]
CASES += [("pieces", 0), ("pieces", 1), ("params",)]


PUBLIC = ("numbers", "ga", "gc", "wf", "ref_charges", "rc6", "disp2", "disp3", "cn", "cn_eeq", "terms", "cn_fn", "cn_fn_kwargs", "charge_dependent", "damping_fn", "radius_type", "dtype", "device")


def inputs(batch, dt):
    z = torch.tensor([[8, 1, 1, 6], [11, 17, 17, 0]])
    x = torch.tensor([[[0.0, 0, -0.7], [-1.4, 0.2, 0.4], [1.5, 0.1, 0.3], [0.3, 3.9, 0.2]], [[0.0, 0, 0.1], [4.1, 0.2, 0.4], [-4.2, 0.1, 0.3], [0.0, 0.0, 0.0]]], dtype=dt)
    q = torch.tensor([[-0.4, 0.2, 0.2, 0.0], [0.9, -0.5, -0.4, 0.0]], dtype=dt)
    r4 = torch.tensor([[2.6, 2.0, 2.0, 3.1], [4.9, 3.8, 3.8, 0.0]], dtype=dt)
    rv = torch.full((2, 4, 4), 5.0, dtype=dt)
    c = torch.tensor([0.0, 0.0], dtype=dt)
    t = dict(z=z, x=x, q=q, r4r2=r4, rvdw=rv, rcov=r4 * 0.5, c=c)
    return t if batch else {k: v[0].clone() for k, v in t.items()}


def look(o, path="", out=None):
    """Everything there is to see of an argument: identities, values, versions, hooks."""
    out = {} if out is None else out
    if isinstance(o, torch.Tensor):
        out[path] = ("tensor", id(o), o._version if not o.is_inference() else 0, o.requires_grad, str(o.dtype), tuple(o.shape), o.stride(), o.detach().clone(), len(o._backward_hooks or ()), o.grad is None)
    elif isinstance(o, dict):
        out[path] = ("keys", list(o))
        for k, v in o.items():
            look(v, f"{path}[{k!r}]", out)
    elif isinstance(o, (list, tuple)):
        out[path] = ("length", len(o))
        for k, v in enumerate(o):
            look(v, f"{path}[{k}]", out)
    elif type(o).__module__.startswith("tad_dftd4"):
        # the documented attributes only: what an object remembers internally is its own business
        out[path] = ("object", id(o), type(o).__name__)
        for n in PUBLIC:
            if hasattr(o, n):
                v = getattr(o, n)
                if isinstance(v, torch.Tensor):
                    out[f"{path}.{n}"] = ("attribute", str(v.dtype), v.requires_grad, v.detach().clone())
                else:
                    look(v, f"{path}.{n}", out)
    else:
        out[path] = ("value", repr(o) if isinstance(o, (int, float, str, bool, type(None))) else id(o))
    return out


def same(a, b):
    if a.keys() != b.keys():
        return f"parts {sorted(set(a) ^ set(b))}"
    for k in a:
        for u, v in zip(a[k], b[k]):
            eq = torch.equal(u, v) if isinstance(u, torch.Tensor) else u == v
            if not eq:
                return f"{k or 'argument'}: {u} -> {v}"
    return None


def tensors(o):
    if isinstance(o, torch.Tensor):
        yield o
    elif isinstance(o, (list, tuple)):
        for v in o:
            yield from tensors(v)


def probe(what, call, args):
    """Call twice: arguments untouched, results are the caller's own."""
    before = look(args)
    r1 = call(args)
    msg = same(before, look(args))
    if msg:
        return f"{what}: changed its argument {msg}", 1
    keep = [t.detach().clone() for t in tensors(r1)]
    own = {t.untyped_storage().data_ptr() for k, t in args.items() if isinstance(t, torch.Tensor)} - {0}
    own |= {t.untyped_storage().data_ptr() for v in args.values() for n in ("rc6", "wf", "numbers", "disp2", "disp3") for t in [getattr(v, n, None)] if isinstance(t, torch.Tensor)}
    for t in tensors(r1):
        if t.numel() and t.untyped_storage().data_ptr() in own:
            return f"{what}: a result shares memory with an argument", 1
    with torch.no_grad():  # the caller's own objects: overwrite them
        for t in tensors(r1):
            if t.is_floating_point():
                t.detach().fill_(float("nan"))
    for s, t in zip(keep, tensors(call(args))):
        if not torch.allclose(s, t.detach(), rtol=1e-12 if s.dtype == D else 1e-5, atol=0, equal_nan=True):
            return f"{what} again: {t.detach()} instead of {s}", 2
    msg = same(before, look(args))
    return (f"{what}: later changed its argument {msg}" if msg else None), 2


def param_sets(k):
    for bits in itertools.product((0, 1), repeat=len(OPT)):
        yield {n: ALL[n] for n in NEED[k]} | {n: ALL[n] for n, b in zip(OPT, bits) if b}


def tens(p, dt, grad):
    return {k: v if isinstance(v, str) else torch.tensor(v, dtype=dt, requires_grad=grad) for k, v in p.items()}


def model(m, z, dt):
    return m if m in ("d4", "d4s") else (d4.D4Model if m == "inst" else d4.D4SModel)(z, dtype=dt)


def run(case):
    """-> (message or None, number of calls)"""
    n, kind = 0, case[0]
    forms = list(itertools.product((False, True), (D, F), (False, True)))

    def go(what, call, args):
        nonlocal n
        msg, k = probe(what, call, args)
        n += k
        return msg

    if kind in ("terms", "func", "calc"):
        k = case[2] if kind != "calc" else "rational"
        for i, p in enumerate(param_sets(k)):
            # every parameter set with numbers, and as tensors in one of the forms in turn
            for j, (batch, dt, grad) in enumerate(((False, D, False), forms[i % 8])):
                t = inputs(batch, dt)
                pp = tens(p, dt, grad) if j else dict(p)
                if j and grad:
                    t["x"].requires_grad_(True)
                extra = {} if i % 3 == 0 else {"r4r2": t["r4r2"], "rvdw": t["rvdw"]} if i % 3 == 1 else {"rcov": t["rcov"], "cutoff": d4.Cutoff(disp2=20.0, disp3=torch.tensor(15.0, dtype=dt), dtype=dt)}
                args = dict(z=t["z"], x=t["x"], c=t["c"], p=pp, **extra)
                if kind == "terms":
                    _, m, _, a, dep = case
                    dep = tuple(map(bool, dep))
                    if any(dep) and i % 2 and (dep[0] or a != "none"):
                        args["q"] = t["q"]
                    kw = dict(cn_fn_kwargs=dict(counting_function=erf_count))
                    args["m"] = model(m, t["z"], dt)
                    args["kw"] = kw
                    damp = DAMP[k]()
                    args["damp"] = damp

                    def call(g):
                        d = Disp(g["m"], cn_fn=cn_d4, **{s: dict(v) for s, v in g["kw"].items()}, dtype=dt)
                        d.register(TwoBodyTerm(damping_fn=g["damp"], charge_dependent=dep[0]))
                        if ATMS[a]:
                            d.register(ATMS[a](charge_dependent=dep[1]))
                        return d.calculate(g["z"], g["x"], g["c"], g["p"], **{s: g[s] for s in ("q", "r4r2", "rvdw", "rcov", "cutoff") if s in g})
                elif kind == "func":
                    args["m"] = model(case[1], t["z"], dt)
                    args["damp"] = DAMP[k]()
                    if i % 2:
                        args["q"] = t["q"]

                    def call(g):
                        return d4.dftd4(g["z"], g["x"], g["c"], g["p"], model=g["m"], damping_function=g["damp"], **{s: g[s] for s in ("q", "r4r2", "rvdw", "rcov", "cutoff") if s in g})
                else:
                    _, c, m = case
                    args["o"] = dict(ga=2.5)
                    args["calc"] = (DispD4 if c == "D4" else DispD4Exact)(m, dtype=dt)

                    def call(g):
                        cls = DispD4 if c == "D4" else DispD4Exact
                        r = [q.calculate(g["z"], g["x"], g["c"], g["p"], **{s: g[s] for s in ("r4r2", "rvdw", "rcov", "cutoff") if s in g}) for q in (cls(m, g["o"], dtype=dt), g["calc"])]
                        return r
                msg = go(f"{case} parameters {sorted(p)} {'batch' if batch else 'single'} {dt} {'gradients' if grad and j else ''}", call, args)
                if msg:
                    return msg, n
    elif kind == "pieces":
        for batch, dt, grad in forms:
            t = inputs(batch, dt)
            if grad:
                for s in ("x", "q", "r4r2", "rvdw", "c"):
                    t[s].requires_grad_(True)
            what = f"{case} {'batch' if batch else 'single'} {dt} {grad}"
            cls = (d4.D4Model, d4.D4SModel)[case[1]]
            z = t["z"]
            cn = (torch.arange(z.numel(), dtype=dt).reshape(z.shape) * 0.37 + 0.2) * (z > 0)
            m = cls(z, dtype=dt)
            gw = m.weight_references(cn, t["q"]).detach().requires_grad_(grad)
            c6 = m.get_atomic_c6(gw).detach().requires_grad_(grad)
            p = tens({s: v for s, v in ALL.items() if s in ("a1", "a2", "s6", "s8", "rs6", "rs8", "alp")}, dt, grad)
            nb = z.shape[-1]
            c9 = torch.full((*z.shape, nb, nb), 30.0, dtype=dt, requires_grad=grad)
            al = torch.linspace(0.1, 2.0, z.numel() * 23, dtype=dt).reshape(*z.shape, 23).requires_grad_(grad)
            dis = torch.linspace(2.0, 9.0, 8, dtype=dt).requires_grad_(grad)
            todo = [
                ("weights", lambda g: g["m"].weight_references(g["cn"], g["q"]), dict(m=m, cn=cn, q=t["q"])),
                ("weights without charges", lambda g: g["m"].weight_references(g["cn"]), dict(m=m, cn=cn)),
                ("weights of nothing", lambda g: g["m"].weight_references(), dict(m=m)),
                ("derivatives", lambda g: g["m"].weight_references(g["cn"], g["q"], with_dgwdq=True, with_dgwdcn=case[1] == 0), dict(m=m, cn=cn, q=t["q"])),
                ("c6", lambda g: g["m"].get_atomic_c6(g["gw"]), dict(m=m, gw=gw)),
                ("pols", lambda g: g["m"].get_weighted_pols(g["gw"]), dict(m=m, gw=gw)),
                ("static", lambda g: g["m"].get_polarizabilities(g["gw"]), dict(m=m, gw=gw)),
                ("properties", lambda g: d4.get_properties(g["z"], g["x"], g["c"], g["cut"]), dict(z=z, x=t["x"], c=t["c"], cut=d4.Cutoff(dtype=dt))),
                ("properties of neutral", lambda g: d4.get_properties(g["z"], g["x"]), dict(z=z, x=t["x"])),
                ("three", lambda g: get_atm_dispersion(g["z"], g["x"], g["c9"], g["v"], g["cut"], s9=g["s9"], alp=g["alp"]),
                 dict(z=z, x=t["x"], c9=c9, v=t["rvdw"], cut=torch.tensor(40.0, dtype=dt), s9=torch.tensor(0.7, dtype=dt), alp=torch.tensor(14.0, dtype=dt))),
                ("trapzd", lambda g: utils.trapzd(g["a"].unsqueeze(-2), g["b"].unsqueeze(-2)), dict(a=al, b=al.detach() * 2)),
                ("trapzd_noref", lambda g: [utils.trapzd_noref(g["a"], g["b"]), utils.trapzd_noref(g["a"])], dict(a=al, b=al.detach() * 2)),
                ("trapzd_atm", lambda g: utils.trapzd_atm(g["a"]), dict(a=(al.unsqueeze(-2).unsqueeze(-2) * al.unsqueeze(-3).unsqueeze(-2) * al.unsqueeze(-3).unsqueeze(-3)).detach())),
            ]
            for s, f in DAMP.items():
                pf = {u: v for u, v in p.items() if u in NEED[s] or u == "alp"} | {"bet": torch.tensor(0.4, dtype=dt)}
                todo.append((f"damping {s}", lambda g: [g["f"](g["d"], g["r"], o, **g["p"]) for o in (6, 8)], dict(f=f(), d=dis, r=torch.full((8,), 5.0, dtype=dt, requires_grad=grad), p=pf)))
                for mat in (False, True):
                    todo.append((f"two {s} {mat}", lambda g, mat=mat: dispersion2(g["z"], g["x"], g["p"], g["c6"], g["r"], g["v"], g["f"], g["cut"], as_matrix=mat),
                                 dict(z=z, x=t["x"], p={**p, "bet": pf["bet"]}, c6=c6, r=t["r4r2"], v=t["rvdw"], f=f(), cut=torch.tensor(30.0, dtype=dt))))
            for name, call, args in todo:
                msg = go(f"{what} {name}", call, args)
                if msg:
                    return msg, n
    else:
        for f, v, doi in itertools.product(("pbe", "b3lyp", "wb97x"), (None, "bj-eeq-atm"), (False, True)):
            a = d4.get_params(method="d4", functional=f, variant=v, keep_doi=doi)
            w = dict(a)
            a.clear()
            b = d4.get_params(method="d4", functional=f, variant=v, keep_doi=doi)
            n += 2
            if dict(b) != w or a:
                return f"{case} {f} {v} {doi}: parameter sets share their content", n
    return None, n
