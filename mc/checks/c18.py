"""C18: total charge in every accepted form."""
from __future__ import annotations

import itertools

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.damping import ZeroDamping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d4 import D4ATMApprox, DispD4, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm

from .. import refmodel as R
from ..drive import D, F, num, pack, pos
from ..harness import Violation, need, need_close
from ..systems import PARAMS, SYS, TPSSH, big_cluster

PROPERTY = "C18"
LEVEL = "exploration"
RULE = (
    "Full product of systems x charge values x forms (Python numbers, tensors of every type and broadcastable shape) x interface; batches of every shape with every assignment of charges from a set, "
    "each row compared with the reference model of that system and charge; explicit charges x total charges. Non-trivial: non-zero energy; distinct: 8 digits."
)
BOUNDS = {
    "quick": "20 systems x 9 charges x 9 forms and 3 places x 6 interfaces; batch shapes (1,) (2,) (3,) (4,) (1,1) (2,2) (1,3) (3,1) (2,1,2) x all charge assignments from 3 values (4 rows at most) x up to 7 tensor shapes x 4 interfaces; padded batches of 3 systems x 27 assignments; 20 systems x 2 models x explicit charges; clusters of 24 and 40 atoms",
    "thorough": "as quick with assignments from 5 values and clusters up to 90 atoms",
}
CHUNK = 2
VAL = (0, 1, -1, 2, -2, 3, 0.5, -0.1, 1.3)
IF = ("d4", "d4s", "calc", "exact", "two", "props")
SHAPES = ((1,), (2,), (3,), (4,), (1, 1), (2, 2), (1, 3), (3, 1), (2, 1, 2))
NAMES = ("H2O", "HCN", "NaCl2-", "AuPtH")
PAD = ("NH4+", "LiH", "UF3Cs")
ZP = dict(s6=1.0, s8=1.1, rs6=1.1, rs8=1.05, alp=14.0, a1=0.4, a2=5.0)


def space(tier):
    out = []
    for s, v, i in itertools.product(SYS, VAL, IF):
        out.append(("form", s, v, i))
    vals = (0.0, 1.0, -1.0) if tier == "quick" else (0.0, 1.0, -1.0, 2.0, 0.5)
    for sh in SHAPES:
        for t in itertools.product(vals, repeat=int(np.prod(sh))):
            out.append(("batch", sh, t))
    for t in itertools.product(vals, repeat=3):
        out.append(("pad", t))
    for s, m in itertools.product(SYS, ("d4", "d4s")):
        out.append(("explicit", s, m))
        out.append(("part", s, m))
    for n in (24, 40) + ((66, 90) if tier == "thorough" else ()):
        out.append(("big", n))
    return out


_REF = {}


def ref(z, x, v, i):
    key = (tuple(z), str(x), float(v), i)
    if key not in _REF:
        if i == "props":
            cn, q = R.dep_cn(z, x), R.dep_q(z, x, v)
            gw = R.weights(z, cn, q)
            _REF[key] = np.concatenate([cn[:, None], q[:, None], R.atomic_c6(z, gw).sum(1)[:, None], R.weighted_pols(z, gw)[:, :1]], 1)
        else:
            _REF[key] = R.energy(z, x, v, ZP if i == "two" else TPSSH, model="d4s" if i == "d4s" else "d4", atm="exact" if i == "exact" else "approx",
                                 kind="zero" if i == "two" else "rational", terms=("2",) if i == "two" else ("2", "3"))
    return _REF[key]


def run(i, z, x, c):
    if i in ("d4", "d4s"):
        return d4.dftd4(z, x, c, TPSSH, model=i)
    if i == "calc":
        return DispD4(dtype=x.dtype).calculate(z, x, c, TPSSH)
    if i == "exact":
        return DispD4Exact(dtype=x.dtype).calculate(z, x, c, TPSSH)
    if i == "two":
        d = Disp(dtype=x.dtype)
        d.register(TwoBodyTerm(damping_fn=ZeroDamping()))
        return d.calculate(z, x, c, ZP)
    cn, q, c6, al = d4.get_properties(z, x, c)
    return torch.stack([cn, q, c6.sum(-1), al], -1)


TOL = dict(rtol=1e-8, atol=1e-13)


def forms(v):
    yield "float", float(v)
    yield "double", torch.tensor(float(v), dtype=D)
    yield "double (1,)", torch.tensor([float(v)], dtype=D)
    yield "default tensor type", torch.tensor(float(v), dtype=D).to(F).to(D) if float(np.float32(v)) == v else torch.tensor(float(v), dtype=D)
    yield "requires grad", torch.tensor(float(v), dtype=D, requires_grad=True)
    yield "strided", torch.tensor([0.0, float(v)], dtype=D)[1]
    if float(np.float32(v)) == v:
        yield "single", torch.tensor(float(v), dtype=F)
        yield "single (1,)", torch.tensor([float(v)], dtype=F)
    if float(v).is_integer():
        yield "int", int(v)
        yield "int64", torch.tensor(int(v))
        yield "int32", torch.tensor(int(v), dtype=torch.int32)
        yield "int64 (1,)", torch.tensor([int(v)])


def evaluate(case, res):
    kind = case[0]
    if kind == "form":
        _, s, v, i = case
        z, x, _ = SYS[s]
        want = ref(z, x, v, i)
        for f, c in forms(v):
            keep = c.detach().clone() if isinstance(c, torch.Tensor) else c
            r = run(i, num(z), pos(x), c)
            need_close(r, want, f"{case} charge as {f}", **TOL)
            need(bool((c == keep).all()) if isinstance(c, torch.Tensor) else c == keep, f"{case}: charge was modified")
            res.see(f, r)
        for sh in ((210.0, -170.0, 330.0), (-1e3, 0.0, 0.0)):  # where the system lies does not matter
            r = run(i, num(z), pos(np.array(x, float) + np.array(sh)), float(v))
            need_close(r, want, f"{case} shifted by {sh}", rtol=1e-7, atol=1e-9 * np.abs(want).max())
        r = run(i, num(z), pos(x, F), float(v))
        need_close(r, want, f"{case} single precision", rtol=2e-3, atol=1e-3 * np.abs(want).max())
    elif kind == "batch":
        _, sh, t = case
        names = NAMES[: len(t)]
        z, x = num([SYS[n][0] for n in names]).reshape(*sh, 3), pos([SYS[n][1] for n in names]).reshape(*sh, 3, 3)
        full = torch.tensor(t, dtype=D).reshape(sh)
        fs = {"per system": full, "per system, trailing one": full.unsqueeze(-1), "list order view": full.flip(0).flip(0)}
        if all(float(v).is_integer() for v in t):
            fs["int64"] = full.long()
            fs["single"] = full.to(F)
        if len(set(t)) == 1:
            fs |= {"number": t[0], "tensor": torch.tensor(t[0], dtype=D), "(1,)": torch.tensor([t[0]], dtype=D), "ones shape": torch.full((1,) * len(sh), t[0], dtype=D), "expanded": torch.tensor(t[0], dtype=D).expand(sh)}
        if len(sh) == 2:
            a = np.array(t).reshape(sh)
            if (a == a[:1]).all():
                fs["per column"] = torch.tensor(a[0], dtype=D)
                fs["per column (1, n)"] = torch.tensor(a[:1], dtype=D)
            if (a == a[:, :1]).all():
                fs["per row (n, 1)"] = torch.tensor(a[:, :1], dtype=D)
        for i in ("d4", "d4s", "exact", "props"):
            want = np.stack([ref(*SYS[n][:2], v, i) for n, v in zip(names, t)])
            for f, c in fs.items():
                r = run(i, z, x, c)
                need(r.shape[: len(sh) + 1] == (*sh, 3), f"{case} {i} {f}: shape {tuple(r.shape)}")
                need_close(r.reshape(want.shape), want, f"{case} {i} charge as {f}", **TOL)
                res.see(i, f, r)
    elif kind == "pad":
        t = case[1]
        for lay in ("end", "front", "middle"):
            zz, mask = pack([SYS[n][0] for n in PAD], layout=lay)
            xx, _ = pack([[list(map(float, r)) for r in SYS[n][1]] for n in PAD], fill=[1.5, -0.5, 0.7], layout=lay)
            for i in ("d4", "d4s", "calc", "two", "props"):
                r = run(i, num(zz), pos(xx), torch.tensor(t, dtype=D))
                for k, n in enumerate(PAD):
                    need_close(r[k].numpy()[mask[k]], ref(*SYS[n][:2], t[k], i), f"{case} {lay} {i} row {k}", **TOL)
                res.see(i, r)
            if len(set(t)) == 1:
                for c in (t[0], torch.tensor(t[0], dtype=D)):
                    need_close(run("d4", num(zz), pos(xx), c), run("d4", num(zz), pos(xx), torch.tensor(t, dtype=D)), f"{case} {lay} one charge for all", **TOL)
    elif kind == "explicit":
        _, s, m = case
        z, x, c = SYS[s]
        n = len(z)
        for k in range(4):
            q = [R.dep_q(z, x, c), np.zeros(n), np.array([0.3 * (-1) ** i + 0.05 * i for i in range(n)]), R.dep_q(z, x, c) + 0.2][k]
            want = R.energy(z, x, c, TPSSH, model=m, q=q)
            for tot in (0, c, 1, -2.0, 0.37, torch.tensor(5.0, dtype=D), torch.tensor([3.0], dtype=D)):
                for calc in ("f", "c"):
                    qq = torch.tensor(q, dtype=D)
                    e = d4.dftd4(num(z), pos(x), tot, TPSSH, model=m, q=qq) if calc == "f" else DispD4(m, dtype=D).calculate(num(z), pos(x), tot, TPSSH, q=qq)
                    need_close(e, want, f"{case} charges {k} total {tot} {calc}", **TOL)
                    need(bool((qq.numpy() == q).all()), f"{case}: charges were modified")
                    res.see(k, e)
            if k == 0:
                need_close(d4.dftd4(num(z), pos(x), c, TPSSH, model=m), want, f"{case} default charges", **TOL)
            # every atom's charge reaches its own pairs only
        if n > 1:
            q0 = R.dep_q(z, x, c)
            base = d4.dftd4(num(z), pos(x), c, TPSSH, model=m, q=torch.tensor(q0, dtype=D)).numpy()
            for i in range(min(n, 6)):
                q1 = q0.copy()
                q1[i] += 0.25
                e = d4.dftd4(num(z), pos(x), c, TPSSH, model=m, q=torch.tensor(q1, dtype=D))
                need_close(e, R.energy(z, x, c, TPSSH, model=m, q=q1), f"{case} charge of atom {i}", **TOL)
                res.see(i, e)
    elif kind == "part":
        _, s, m = case
        z, x, c = SYS[s]
        e3 = []
        e2 = []
        for v in (0, 1, -1, 2, 0.4):
            e3.append(d4.dftd4(num(z), pos(x), v, dict(TPSSH, s6=0.0, s8=0.0), model=m).numpy())
            e2.append(d4.dftd4(num(z), pos(x), v, dict(TPSSH, s9=0.0), model=m).numpy())
            w2, w3 = R.energy(z, x, v, TPSSH, model=m, parts=True)
            need_close(e2[-1], w2, f"{case} two-body part, charge {v}", **TOL)
            need_close(e3[-1], w3, f"{case} three-body part, charge {v}", **TOL)
            need_close(e3[-1], e3[0], f"{case} three-body part depends on the charge {v}", rtol=1e-12)
            res.see(e2[-1])
        q = torch.tensor([0.4 * (-1) ** i for i in range(len(z))], dtype=D)
        need_close(d4.dftd4(num(z), pos(x), 0, dict(TPSSH, s6=0.0, s8=0.0), model=m, q=q), e3[0], f"{case} three-body part depends on the atomic charges", rtol=1e-12)
    else:
        n = case[1]
        z, x = big_cluster(n)
        for v in (0, 1, -1.5):
            for i in ("d4", "d4s", "props"):
                want = ref(z, x, v, i)
                for f, c in forms(v):
                    r = run(i, num(z), pos(x), c)
                    need_close(r, want, f"{case} charge {v} as {f}", **TOL)
                    res.see(r)
