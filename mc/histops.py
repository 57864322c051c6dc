"""Alphabet of public calls for the history and schedule explorations (C07, C16).

Every operation takes the world `w` (lazily created shared objects of one
history), performs public calls, and returns a list of comparable results. An
operation never changes the meaning of the shared objects; it may damage objects
that were returned to it (they belong to the caller)."""
from __future__ import annotations

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.damping import OptimisedPowerDamping, RationalDamping, ZeroDamping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d4 import D4ATMApprox, DispD4, DispD4Exact
from tad_dftd4.dispersion.threebody import get_atm_dispersion
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2

from tad_mctc.ncoord import exp_count

from .systems import PARAMS, SYS

D, F = torch.double, torch.float32


class World:
    """Objects shared by the operations of one history, with copies of their initial value."""

    def __init__(self):
        self.obj = {}
        self.kept = []

    def get(self, key, make):
        if key not in self.obj:
            o = make()
            self.obj[key] = (o, snapshot(o))
        return self.obj[key][0]

    def sys(self, name, dt=D):
        z, x, c = SYS[name]
        return (
            self.get(("z", name), lambda: torch.tensor(z)),
            self.get(("x", name, dt), lambda: torch.tensor(np.array(x, float), dtype=dt)),
            c,
        )

    def batch(self, names, dt=D):
        n = max(len(SYS[s][0]) for s in names)
        z = [list(SYS[s][0]) + [0] * (n - len(SYS[s][0])) for s in names]
        x = [[list(r) for r in SYS[s][1]] + [[0.0, 0, 0]] * (n - len(SYS[s][0])) for s in names]
        return (
            self.get(("bz", names), lambda: torch.tensor(z)),
            self.get(("bx", names, dt), lambda: torch.tensor(np.array(x, float), dtype=dt)),
            self.get(("bc", names, dt), lambda: torch.tensor([float(SYS[s][2]) for s in names], dtype=dt)),
        )

    def param(self, key, dt=None):
        if dt is None:
            return self.get(("p", key), lambda: dict(PARAMS[key]))
        return self.get(("p", key, dt), lambda: {k: torch.tensor(float(v), dtype=dt) for k, v in PARAMS[key].items()})

    def keep(self, *ts):
        """Results handed to the caller: have to stay as they are."""
        for t in ts:
            self.kept.append((t, snapshot(t)))

    def changed(self):
        """Name of a shared input or kept result that was modified, or None."""
        for k, (o, s) in self.obj.items():
            if s is not None and not same(snapshot(o), s):
                return f"shared argument {k} was modified"
        for i, (o, s) in enumerate(self.kept):
            if not same(snapshot(o), s):
                return f"result {i} returned earlier was modified"
        return None


def snapshot(o):
    if isinstance(o, torch.Tensor):
        return ("t", o.detach().clone().double().numpy(), str(o.dtype), o.requires_grad)
    if isinstance(o, dict):
        return ("d", {k: snapshot(v) for k, v in o.items()})
    if isinstance(o, (int, float, str, bool, type(None))):
        return ("v", o)
    if isinstance(o, (list, tuple)):
        return ("l", [snapshot(v) for v in o])
    if isinstance(o, d4.Cutoff):
        return ("l", [snapshot(v) for v in (o.disp2, o.disp3, o.cn, o.cn_eeq)])
    return None


def same(a, b):
    if a is None or b is None:
        return a is b
    if a[0] != b[0]:
        return False
    if a[0] == "t":
        return a[1].shape == b[1].shape and np.array_equal(a[1], b[1]) and a[2:] == b[2:]
    if a[0] == "d":
        return a[1].keys() == b[1].keys() and all(same(a[1][k], b[1][k]) for k in a[1])
    if a[0] == "l":
        return len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))
    return a == b


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


@op
def e_h2o(w):
    z, x, c = w.sys("H2O")
    e = d4.dftd4(z, x, c, w.param("tpssh"))
    w.keep(e)
    return [e]


@op
def e_h2o_f32(w):
    z, x, c = w.sys("H2O", F)
    e = d4.dftd4(z, x, c, w.param("tpssh"))
    w.keep(e)
    return [e]


@op
def e_h2o_cation(w):
    z, x, c = w.sys("H2O")
    return [d4.dftd4(z, x, 1, w.param("s10", D))]


@op
def e_nacl_d4s(w):
    z, x, c = w.sys("NaCl2-")
    return [d4.dftd4(z, x, c, w.param("pbe"), model="d4s")]


@op
def e_batch(w):
    z, x, c = w.batch(("H2O", "NH4+"))
    e = d4.dftd4(z, x, c, w.param("tpssh"))
    w.keep(e)
    return [e]


@op
def e_batch_d4s(w):
    z, x, c = w.batch(("UF3Cs", "He", "OH-"))
    return [d4.dftd4(z, x, c, w.param("tpssh"), model="d4s")]


@op
def e_grad(w):
    z, x, c = w.sys("HCN")
    x = x.clone().requires_grad_()
    p = {k: v.clone().requires_grad_() for k, v in w.param("s10", D).items()}
    e = d4.dftd4(z, x, c, p).sum()
    g = torch.autograd.grad(e, [x] + list(p.values()), allow_unused=True)
    return [e, *[v for v in g if v is not None]]


@op
def e_inference(w):
    z, x, c = w.sys("AuPtH")
    with torch.inference_mode():
        a = d4.dftd4(z, x, c, w.param("tpssh"))
        b = d4.dftd4(z, x, c, w.param("tpssh"), model="d4s")
        return [a.tolist(), b.tolist()]


@op
def e_nograd_h2o(w):
    z, x, c = w.sys("H2O")
    with torch.no_grad():
        return [d4.dftd4(z, x.clone().requires_grad_(), c, w.param("pbe"), model="d4s")]


@op
def e_nograd_d4(w):
    z, x, c = w.sys("H2O")
    with torch.no_grad():
        return [d4.dftd4(z, x, c, w.param("tpssh")), *d4.get_properties(z, x, c)]


@op
def e_nograd_nacl(w):
    """Same size and type as e_nograd_d4, everything else different."""
    z, x, c = w.sys("NaCl2-")
    with torch.no_grad():
        return [d4.dftd4(z, x, c, w.param("pbe")), DispD4Exact(dtype=D).calculate(z, x, c, w.param("s10"))]


@op
def e_nograd_hcn_d4s(w):
    z, x, c = w.sys("HCN")
    with torch.no_grad():
        return [d4.dftd4(z, x, c, w.param("s10"), model="d4s")]


@op
def e_inference_h2o(w):
    z, x, c = w.sys("H2O")
    with torch.inference_mode():
        a = d4.dftd4(z, x, c, w.param("s10"))
        b = d4.dftd4(z, x, c, w.param("s10"), model="d4s")
        return [a.tolist(), b.tolist()]


@op
def e_hess(w):
    z, x, c = w.sys("LiH")
    p = w.param("tpssh")
    return [torch.autograd.functional.hessian(lambda y: d4.dftd4(z, y, c, p).sum(), x)]


@op
def e_func_hcn(w):
    z, x, c = w.sys("HCN")
    p = w.param("s10")
    return [torch.func.grad(lambda y: d4.dftd4(z, y, c, p).sum())(x)]


@op
def e_func(w):
    z, x, c = w.sys("H2O")
    p = w.param("tpssh")
    return [torch.func.grad(lambda y: d4.dftd4(z, y, c, p).sum())(x)]


@op
def e_defdouble(w):
    z, x, c = w.sys("LiH")
    torch.set_default_dtype(D)
    try:
        e = d4.dftd4(z, x, c, w.param("minimal"))
        r = DispD4().calculate(z, x, c, w.param("tpssh"))
        return [e, r, d4.D4Model(z).weight_references()]
    finally:
        torch.set_default_dtype(F)


@op
def props(w):
    z, x, c = w.sys("NH4+")
    r = d4.get_properties(z, x, c)
    out = [t.clone() for t in r]
    for t in r:  # the caller may do what it likes with its results
        t.mul_(3.0).add_(1.0)
    return out


@op
def props_f32(w):
    z, x, c = w.batch(("H2O", "LiH"), F)
    r = d4.get_properties(z, x)
    w.keep(*r)
    return list(r)


@op
def params_d4(w):
    p = d4.get_params(method="d4", functional="pbe")
    out = dict(p)
    p["s8"] = 99.0
    p.pop("a1")
    p["new"] = 1.0
    q = d4.get_params(method="d4", functional="B3LYP", variant="bj-eeq-atm")
    return [out, dict(q)]


@op
def params_doi(w):
    p = d4.get_params(method="d4", functional="pbe", keep_doi=True)
    r = d4.get_params(method="d3", functional="pbe", keep_doi=True)
    out = [dict(p), dict(r)]
    p.clear()
    r["doi"] = "changed"
    return out


@op
def params_default(w):
    p = d4.get_params(method="d4", functional=None)
    out = dict(p)
    p["s6"] = -1.0
    return [out]


@op
def params_energy(w):
    z, x, c = w.sys("H2O")
    p = d4.get_params(method="d4", functional="pbe", keep_doi=True)
    e = d4.dftd4(z, x, c, p)
    p["a1"] = 9.0
    return [e]


@op
def disp_shared(w):
    d = w.get("disp", lambda: DispD4(dtype=D))
    z, x, c = w.sys("H2O")
    return [d.calculate(z, x, c, w.param("tpssh"))]


@op
def disp_shared_other(w):
    d = w.get("disp", lambda: DispD4(dtype=D))
    z, x, c = w.sys("UF3Cs")
    cut = w.get("cut", lambda: d4.Cutoff(disp2=7.0, disp3=5.0, cn_eeq=4.0, dtype=D))
    return [d.calculate(z, x, c, w.param("s10"), cutoff=cut)]


@op
def disp_shared_batch(w):
    d = w.get("disp", lambda: DispD4(dtype=D))
    z, x, c = w.batch(("H2O", "NH4+"))
    return [d.calculate(z, x, c, w.param("odd"))]


@op
def exact_shared(w):
    d = w.get("exact", lambda: DispD4Exact(model="d4s", dtype=D))
    z, x, c = w.sys("HCN")
    z2, x2, c2 = w.sys("H2O")
    return [d.calculate(z, x, c, w.param("tpssh")), d.calculate(z2, x2, c2, w.param("tpssh"))]


@op
def disp_terms(w):
    d = w.get("disp", lambda: DispD4(dtype=D))
    z, x, c = w.sys("H2O")
    t = TwoBodyTerm(damping_fn=OptimisedPowerDamping(), charge_dependent=False)
    d.register(t)
    try:
        e = d.calculate(z, x, c, dict(w.param("tpssh"), bet=1.0))
    finally:
        d.deregister(TwoBodyTerm(damping_fn=OptimisedPowerDamping(), charge_dependent=False))
    return [e]


@op
def model_shared(w):
    z, x, c = w.sys("H2O")
    m = w.get("model", lambda: d4.D4Model(z, dtype=D))
    g = m.weight_references(torch.tensor([1.6, 0.8, 0.7], dtype=D), torch.tensor([-0.4, 0.2, 0.2], dtype=D))
    c6 = m.get_atomic_c6(g)
    al = m.get_weighted_pols(g)
    out = [t.clone() for t in (g, c6, al)]
    for t in (g, c6, al):
        t.zero_()
    return out


@op
def model_shared_energy(w):
    z, x, c = w.sys("H2O")
    m = w.get("model", lambda: d4.D4Model(z, dtype=D))
    e1 = d4.dftd4(z, x, c, w.param("tpssh"), model=m)
    e2 = d4.dftd4(z, x * 1.1, c, w.param("pbe"), model=m)
    return [e1, e2]


@op
def model_convert(w):
    z, x, c = w.sys("H2O")
    m = w.get("model", lambda: d4.D4Model(z, dtype=D))
    m32 = m.type(F)
    return [m32.weight_references(torch.tensor([1.0, 0.5, 0.0])), m32.get_atomic_c6(m32.weight_references()), str(m.dtype)]


@op
def model_d4s_derivs(w):
    z, x, c = w.sys("NaCl2-")
    m = w.get("model_s", lambda: d4.D4SModel(z, dtype=D))
    q = torch.tensor([-0.8, 0.7, -0.9], dtype=D)
    g, dq = m.weight_references(torch.tensor([0.9, 1.8, 0.7], dtype=D), q, with_dgwdq=True)
    m4 = d4.D4Model(z, dtype=D)
    return [g, dq, *m4.weight_references(torch.tensor([0.9, 1.8, 0.7], dtype=D), q, with_dgwdq=True, with_dgwdcn=True)]


@op
def model_gfn2(w):
    z, x, c = w.sys("NH4+")
    return [d4.dftd4(z, x, c, w.param("tpssh"), model=d4.D4Model(z, ref_charges="gfn2", ga=2.5, dtype=D))]


@op
def zero_damp(w):
    z, x, c = w.sys("H2O")
    f = w.get("zero", ZeroDamping)
    p = w.get("pzero", lambda: dict(rs6=1.1, rs8=1.0, a1=0.4, a2=5.0, alp=14.0, doi="10.1/x"))
    return [d4.dftd4(z, x, c, p, damping_function=f)]


@op
def damp_direct(w):
    r = w.get("r", lambda: torch.linspace(1.0, 9.0, 9, dtype=D))
    r0 = w.get("r0", lambda: torch.linspace(20.0, 40.0, 9, dtype=D))
    f = w.get("rational", RationalDamping)
    return [f(r, r0, 6, a1=0.4, a2=5.0), f(r, r0, 8, a1=0.4, a2=5.0, doi="a"), w.get("zero", ZeroDamping)(r, r0, 9, only_damping=True)]


@op
def fail_shape(w):
    z, x, c = w.sys("H2O")
    out = []
    for kw in (dict(q=torch.zeros(2, dtype=D)), dict(r4r2=torch.zeros(4, dtype=D)), dict(rvdw=torch.zeros(3, dtype=D)), dict(rcov=torch.zeros(5))):
        try:
            w.get("disp", lambda: DispD4(dtype=D)).calculate(z, x, c, w.param("tpssh"), **kw)
            out.append("no error")
        except ValueError:
            out.append("ValueError")
    try:
        d4.dftd4(z, x[:2], c, w.param("tpssh"))
    except ValueError:
        out.append("ValueError")
    return out


@op
def fail_param(w):
    z, x, c = w.sys("H2O")
    out = []
    for p, e, kw in ((dict(s6=1.0), TypeError, {}), (dict(a1=0.4, a2=5.0, foo=1.0), TypeError, {}), (dict(a1=0.4, a2=5.0), ValueError, dict(model="d9"))):
        try:
            d4.dftd4(z, x, c, p, **kw)
            out.append("no error")
        except e:
            out.append(e.__name__)
    for kw in (dict(method="d4", functional="nope"), dict(method="d4", functional="pbe", variant="nope")):
        try:
            d4.get_params(**kw)
            out.append("no error")
        except KeyError:
            out.append("KeyError")
    return out


@op
def standalone(w):
    z, x, c = w.sys("H2O")
    c6 = w.get("c6", lambda: torch.tensor([[24.0, 8.0, 8.0], [8.0, 3.0, 2.9], [8.0, 2.9, 3.1]], dtype=D))
    r4 = w.get("r4", lambda: torch.tensor([2.5, 2.0, 2.0], dtype=D))
    c9 = w.get("c9", lambda: torch.full((3, 3, 3), 20.0, dtype=D))
    rad = w.get("rad", lambda: torch.full((3, 3), 4.0, dtype=D))
    return [
        dispersion2(z, x, w.param("s10"), c6, r4, as_matrix=True),
        dispersion2(z, x, w.param("tpssh"), c6, r4, cutoff=torch.tensor(2.0, dtype=D)),
        get_atm_dispersion(z, x, c9, rad, torch.tensor(40.0, dtype=D)),
    ]


@op
def converted_disp(w):
    z, x, c = w.sys("H2O", F)
    d = w.get("disp", lambda: DispD4(dtype=D))
    n = d.type(F)
    return [n.calculate(z, x, c, w.param("tpssh")), str(d.dtype), len(d.terms)]


@op
def tables(w):
    t = d4.data.R4R2(dtype=D)
    out = t.clone()
    t.zero_()
    from tad_dftd4.data.wfpair import WFPAIR

    v = WFPAIR(dtype=D)
    o2 = v[:20, :20].clone()
    v.zero_()
    return [out, o2]


# -- further operations for histories only (not in the all-pairs schedules of C16) --


@op
def calc_opts(w):
    """Calculator with model options, used once per call; the options belong to the caller."""
    o = w.get("opts", lambda: dict(wf=torch.full((3, 3), 4.5, dtype=D), ga=2.5, gc=1.5))
    d = w.get("disp_opts", lambda: DispD4(model="d4s", model_kwargs=o, dtype=D))
    z, x, c = w.sys("HCN")
    return [d.calculate(z, x, c, w.param("tpssh"))]


@op
def calc_opts_d4(w):
    o = w.get("opts4", lambda: dict(wf=4.5, ref_charges="gfn2"))
    d = w.get("disp_opts4", lambda: DispD4(model="d4", model_kwargs=o, cn_fn_kwargs=w.get("cnkw", lambda: dict(counting_function=exp_count)), dtype=D))
    z, x, c = w.sys("HCN")
    return [d.calculate(z, x, c, w.param("tpssh"))]


@op
def e_hcn_d4s(w):
    z, x, c = w.sys("HCN")
    return [d4.dftd4(z, x, c, w.param("tpssh"), model="d4s")]


@op
def e_perm_d4s(w):
    """The same composition in another order."""
    z, x, c = w.sys("HCN")
    p = [2, 0, 1]
    return [d4.dftd4(z[p], x[p], c, w.param("tpssh"), model="d4s")]


@op
def disp_shared_perm(w):
    d = w.get("disp", lambda: DispD4(dtype=D))
    z, x, c = w.sys("H2O")
    p = [1, 2, 0]
    return [d.calculate(z[p], x[p], c, w.param("tpssh"))]


@op
def exact_perm(w):
    d = w.get("exact", lambda: DispD4Exact(model="d4s", dtype=D))
    z, x, c = w.sys("HCN")
    p = [1, 2, 0]
    return [d.calculate(z[p], x[p], c, w.param("tpssh"))]


@op
def e_elements_swapped(w):
    """Other elements at the same positions."""
    z, x, c = w.sys("H2O")
    z2 = w.get("z_s", lambda: torch.tensor([16, 1, 9]))
    return [d4.dftd4(z2, x, c, w.param("tpssh"))]


@op
def e_charges_padded(w):
    z, x, c = w.batch(("H2O", "NH4+"))
    q = w.get("qpad", lambda: torch.tensor([[-0.5, 0.3, 0.2, 0.7, -0.9], [-0.2, 0.3, 0.3, 0.3, 0.3]], dtype=D))
    r4 = w.get("r4pad", lambda: torch.tensor([[2.6, 2.0, 2.0, 1.1, 0.4], [2.7, 2.0, 2.0, 2.0, 2.0]], dtype=D))
    return [d4.dftd4(z, x, c, w.param("tpssh"), q=q, r4r2=r4)]


def _scratch(w, name):
    """The caller's work arrays: same objects, other contents."""
    if "scratch" not in w.__dict__:
        w.scratch = (torch.zeros(3, dtype=torch.long), torch.zeros(3, 3, dtype=D))
    z, x, c = w.sys(name)
    w.scratch[0].copy_(z)
    w.scratch[1].copy_(x)
    return (*w.scratch, c)


@op
def scratch_h2o(w):
    z, x, c = _scratch(w, "H2O")
    return [d4.dftd4(z, x, c, w.param("tpssh"), model="d4s")]


@op
def scratch_nacl(w):
    z, x, c = _scratch(w, "NaCl2-")
    return [d4.dftd4(z, x, c, w.param("tpssh"), model="d4s")]


@op
def scratch_disp_h2o(w):
    z, x, c = _scratch(w, "H2O")
    return [w.get("disp", lambda: DispD4(dtype=D)).calculate(z, x, c, w.param("tpssh"))]


@op
def scratch_disp_ar(w):
    z, x, c = _scratch(w, "AuPtH")
    return [w.get("disp", lambda: DispD4(dtype=D)).calculate(z, x, c, w.param("tpssh"))]


@op
def tables_inference(w):
    """First use of everything in inference mode, for systems also used with gradients."""
    z, x, c = w.sys("HCN")
    with torch.inference_mode():
        a = d4.dftd4(z, x, c, w.param("s10"))
        r = d4.get_properties(z, x, c)
        return [a.tolist(), *[t.tolist() for t in r]]


HISTONLY = {
    "calc_opts_d4", "e_hcn_d4s", "e_perm_d4s", "disp_shared_perm", "exact_perm", "e_elements_swapped", "e_charges_padded",
    "scratch_h2o", "scratch_nacl", "scratch_disp_h2o", "scratch_disp_ar", "tables_inference",
}


def normalise(r):
    """Comparable form of a result list."""
    out = []
    for v in r:
        if isinstance(v, torch.Tensor):
            out.append(("t", str(v.dtype), v.detach().double().numpy().copy()))
        elif isinstance(v, list):
            out.append(("t", "list", np.array(v, float)))
        elif isinstance(v, dict):
            out.append(("d", "", {k: (float(x) if not isinstance(x, (str, bool)) else x) for k, x in v.items()}))
        else:
            out.append(("v", "", v))
    return out


def compare(got, want):
    """None or message."""
    if len(got) != len(want):
        return f"number of results {len(got)} != {len(want)}"
    for i, (a, b) in enumerate(zip(got, want)):
        if a[:2] != b[:2]:
            return f"result {i}: {a[:2]} != {b[:2]}"
        if a[0] == "t":
            if a[2].shape != b[2].shape:
                return f"result {i}: shape {a[2].shape} != {b[2].shape}"
            tol = 1e-9 if a[1] != "torch.float32" else 1e-4
            if not np.all(np.isfinite(a[2])) or np.abs(a[2] - b[2]).max(initial=0.0) > tol * np.abs(b[2]).max(initial=0.0):
                return f"result {i}: {a[2].ravel()[:6]} != {b[2].ravel()[:6]}"
        elif a[2] != b[2]:
            return f"result {i}: {a[2]} != {b[2]}"
    return None
