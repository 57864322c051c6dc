"""C22: calculator classes, damping choices and charge dependence."""
from __future__ import annotations

import itertools

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.damping import RationalDamping, ZeroDamping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d3 import D3ATM, DispD3BJ, DispD3Zero
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm

from .. import refmodel as R
from ..drive import D, DAMP, F, num, pack, pos
from ..harness import need, need_close
from ..systems import PARAMS, SYS, TPSSH, big_cluster

PROPERTY = "C22"
LEVEL = "exploration"
RULE = (
    "Full product of model x two-body damping (or no pair term) x three-body kind (or none) x charge dependence of each term x parameter set x system / padded batch x precision, built from terms and "
    "compared atom by atom with the reference model; the four calculator classes x models x parameter sets. Non-trivial: non-zero energy; distinct: 8 digits."
)
BOUNDS = {
    "quick": "2 models x 5 pair choices x 4 triple choices x 4 charge dependences x 2-3 parameter sets x (9 systems, 4 padded batches) in double and single precision; 4 calculator classes x 2 models x 8 parameter sets x 20 systems and 4 batches; clusters of 24 and 40 atoms; all 103 elements (exact C9, van der Waals radii)",
    "thorough": "as quick with 20 systems, 10 batches and clusters up to 66 atoms",
}
CHUNK = 2
ATM = dict(approx=D4ATMApprox, exact=D4ATMExact, d3=D3ATM)
QS = ("H2O", "NaCl2-", "UF3Cs", "AuPtH", "mix8", "NH4+", "He", "LiH", "Ar3")
QB = (("H2O", "NH4+"), ("UF3Cs", "He", "OH-"), ("mix8", "HCN"), ("LrNo", "NaCl2-", "H-", "C6H6"))
TB = QB + (("AuPtH", "far"), ("water2", "SiH4"), ("CO", "CO", "CO"), ("H2", "mix10"), ("UF3Cs", "mix8", "Ar3"), ("He", "H-"))
X3 = dict(rs9=1.2)
PS = dict(
    rational=[dict(TPSSH, rs9=4.0 / 3.0), dict(s6=0.8123456789, s8=1.4123456789, s9=0.6123456789, s10=0.5123456789, a1=0.3512345678, a2=5.2123456789, alp=13.123456789, rs9=0.912345678), dict(a1=0.4, a2=5.0)],
    zero=[dict(rs6=1.1212345678, rs8=1.0312345678, alp=14.0, a1=0.4, a2=5.0, rs9=1.2534567891, s9=0.7), dict(s6=0.9, s8=1.7, rs6=0.95, rs8=0.9, a1=0.45, a2=4.5)],
    mzero=[dict(rs6=1.1212345678, rs8=1.0312345678, alp=14.0, bet=0.0312345678, a1=0.4, a2=5.0, rs9=1.2534567891), dict(s6=0.9, s8=1.7, rs6=0.95, rs8=0.9, bet=0.0, s9=1.4)],
    op=[dict(a1=0.4512345678, a2=4.3123456789, bet=3.123456789, s8=0.8123456789, rs9=1.1123456789), dict(a1=0.4, a2=5.0, bet=0.0, alp=12.0, s9=0.5)],
    none=[dict(TPSSH, rs9=1.3123456789, alp=11.0), dict(a1=0.3, a2=5.5, s9=2.0)],
)


def space(tier):
    out = []
    sy = list(QS if tier == "quick" else SYS) + list(QB if tier == "quick" else TB)
    for s, m, k in itertools.product(sy, ("d4", "d4s"), PS):
        for i in range(len(PS[k])):
            out.append(("terms", s, m, k, i))
    for s, m in itertools.product(list(SYS) + list(QB if tier == "quick" else TB), ("d4", "d4s")):
        out.append(("class", s, m))
    for n, m in itertools.product((24, 40) + ((66,) if tier == "thorough" else ()), ("d4", "d4s")):
        out.append(("terms", f"cluster{n}", m, "rational", 0))
        out.append(("terms", f"cluster{n}", m, "zero", 0))
    for z in range(1, 104):
        out.append(("element", z))
    return out


def load(s):
    if isinstance(s, tuple):
        sy = [SYS[n] for n in s]
        zz, mask = pack([q[0] for q in sy], layout="middle", extra=1)
        xx, _ = pack([[list(map(float, r)) for r in q[1]] for q in sy], fill=[0.4, 0.1, 0.2], layout="middle", extra=1)
        return num(zz), pos(xx), torch.tensor([float(q[2]) for q in sy], dtype=D), sy, mask
    if s.startswith("cluster"):
        z, x = big_cluster(int(s[7:]))
        sy = [(z, x, 1)]
    else:
        sy = [SYS[s]]
    return num(sy[0][0]), pos(sy[0][1]), torch.tensor(float(sy[0][2]), dtype=D), sy, np.ones((1, len(sy[0][0])), bool)


def embed(rows, mask, single):
    out = np.zeros(mask.shape)
    for i, r in enumerate(rows):
        out[i, mask[i]] = r
    return out[0] if single else out


def evaluate(case, res):
    kind = case[0]
    if kind == "terms":
        _, s, m, k, i = case
        p = PS[k][i]
        z, x, c, sy, mask = load(s)
        single = not isinstance(s, tuple)
        big = single and s.startswith("cluster")
        cnq = [(R.dep_cn(*q[:2]), R.dep_q(*q)) for q in sy]
        cache = {}

        def parts(term, what, qdep):
            """Reference energy of one term."""
            if (term, what, qdep) not in cache:
                kw = dict(terms=("2",), kind=what, qdep2=qdep) if term == 2 else dict(terms=("3",), atm=what, qdep3=qdep)
                cache[term, what, qdep] = embed([R.energy(*q, p, model=m, cn=a, q=b, **kw) for q, (a, b) in zip(sy, cnq)], mask, single)
            return cache[term, what, qdep]

        for a, q2, q3 in itertools.product((None, "approx", "exact", "d3"), (True, False), (True, False)):
            if big and (a in ("exact", "d3") or not q2):
                continue
            if k == "none" and not q2 or a is None and not q3 or k == "none" and a is None:
                continue
            want = 0.0
            terms = []
            if k != "none":
                want = want + parts(2, k, q2)
                terms.append(lambda: TwoBodyTerm(damping_fn=DAMP[k](), charge_dependent=q2))
            if a is not None:
                want = want + parts(3, a, q3)
                terms.append(lambda: ATM[a](charge_dependent=q3))
            for dt in (D, F) if not big else (D,):
                for order in (1, -1):
                    d = Disp(m, dtype=dt)
                    for t in terms[::order]:
                        d.register(t())
                    pp = p if order == 1 else {n: torch.tensor(float(v), dtype=dt) for n, v in p.items()}
                    e = d.calculate(z, x.to(dt), c.to(dt), pp)
                    tol = dict(rtol=1e-8, atol=1e-13) if dt == D else dict(rtol=2e-3, atol=2e-3 * max(np.abs(want).max(), 1e-9))
                    need_close(e, want, f"{case} triples {a} charge dependence {q2} {q3} {dt} order {order}", **tol)
                    res.see(m, k, str(a), e)
                    if len(terms) < 2:
                        break
    elif kind == "class":
        _, s, m = case
        z, x, c, sy, mask = load(s)
        single = not isinstance(s, tuple)
        for pn, p in PARAMS.items():
            ref = lambda **kw: embed([R.energy(*q, kw.pop("p", p), model=m, **kw) for q in sy], mask, single)  # noqa: E731
            tol = dict(rtol=1e-8, atol=1e-13)
            e = DispD4(m, dtype=D).calculate(z, x, c, p)
            need_close(e, ref(), f"{case} {pn} DispD4", **tol)
            need_close(d4.dftd4(z, x, c, p, model=m), e, f"{case} {pn} functional interface", rtol=1e-11, atol=1e-15)
            res.see(e)
            e = DispD4Exact(m, dtype=D).calculate(z, x, c, p)
            need_close(e, ref(atm="exact"), f"{case} {pn} DispD4Exact", **tol)
            res.see(e)
            e = DispD3BJ(m, dtype=D).calculate(z, x, c, p)
            need_close(e, ref(atm="d3", qdep2=False), f"{case} {pn} DispD3BJ terms", **tol)
            res.see(e)
            if "s10" not in p:
                pz = {**{n: v for n, v in p.items()}, "rs6": 1.1123456789, "rs8": 1.0212345678, "rs9": 7.0 / 6.0}
                want = embed([R.energy(*q, pz, model=m, atm="d3", kind="zero", qdep2=False) for q in sy], mask, single)
                e = DispD3Zero(m, dtype=D).calculate(z, x, c, pz)
                need_close(e, want, f"{case} {pn} DispD3Zero terms", **tol)
                res.see(e)
        # defaults of the terms: rational and charge-dependent pairs, zero-damped charge-independent triples
        need([(t.damping_fn == f, t.charge_dependent) for t, f in zip(DispD4().terms, (RationalDamping(), ZeroDamping()))] == [(True, True), (True, False)], "terms of DispD4")
        need([(t.damping_fn == f, t.charge_dependent) for t, f in zip((TwoBodyTerm(), D4ATMApprox(), D4ATMExact(), D3ATM()), (RationalDamping(), *[ZeroDamping()] * 3))] == [(True, True)] + [(True, False)] * 3, "default terms")
        need(DispD4("d4").get_model(z).__class__ is d4.D4Model and DispD4("d4s").get_model(z).__class__ is d4.D4SModel, "models")
    else:
        z1 = case[1]
        zs = [z1, 6, 1 + z1 % 103, 8]
        x = np.array([[0, 0, 0], [3.9, 0.2, 0.1], [0.4, 4.3, 0.6], [3.3, 3.1, 3.0]])
        for m, a in itertools.product(("d4", "d4s"), ATM):
            for q3 in (False, True):
                d = Disp(m, dtype=D)
                d.register(ATM[a](charge_dependent=q3))
                p = dict(a1=0.4, a2=4.5, s9=1.0, rs9=1.1123456789)
                e = d.calculate(num(zs), pos(x), 1, p)
                w = R.energy(zs, x, 1, p, model=m, atm=a, qdep3=q3, terms=("3",))
                need_close(e, w, f"{case} {m} {a} {q3}", rtol=1e-8, scale=np.abs(w).max())
                res.see(m, a, e)
