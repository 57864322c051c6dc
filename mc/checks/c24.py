"""C24: copies and serialised objects behave like the original and are independent.

Explicit-state exploration: the state is a family of calculators (an original and
everything copied from it), each modelled as a term list and a precision. All
sequences of copy, serialise, convert, register, deregister and calculate
operations within the bound run on the real objects; afterwards every member of
the family is evaluated and compared with its model."""
from __future__ import annotations

import copy
import io
import itertools
import os
import pickle
import subprocess
import sys
import tempfile
from functools import lru_cache

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.damping import MZeroDamping, OptimisedPowerDamping, RationalDamping, ZeroDamping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d3 import D3ATM
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm

from tad_mctc.ncoord import cn_d3, exp_count

from .. import harness
from .. import refmodel as R
from ..drive import D, F, num, pos
from ..harness import Violation, need, need_close
from ..systems import PARAMS, SYS

PROPERTY = "C24"
LEVEL = "model_checking"
RULE = ""
BOUNDS = {
    "quick": "8 calculators x all sequences of length <= 3 over 9 operations (deep copy, shallow copy, pickle, torch.save, two conversions, register, deregister, calculate); 14 models x all sequences of length <= 3 over 7 operations; "
    "cutoffs, terms, damping functions and parameter sets x sequences of length 2; calculators with user-defined classes that have a state (6 kinds) x all copy sequences of length <= 3, every member changed in turn; pickle protocols 2-5 read in a new interpreter",
    "thorough": "as quick with sequences of length 4",
}
CHUNK = 4
P = dict(PARAMS["tpssh"], bet=1.5, rs6=1.1, rs8=1.05)
NAME, CH = "H2O", 1.0


def save(o):
    b = io.BytesIO()
    torch.save(o, b)
    b.seek(0)
    return torch.load(b, weights_only=False)


COPY = dict(
    deep=copy.deepcopy, shallow=copy.copy, save=save,
    **{f"pickle{k}": (lambda o, k=k: pickle.loads(pickle.dumps(o, protocol=k))) for k in (2, 3, 4, 5)},
)


class Mine(Disp):
    TERMS = [(D4ATMApprox, None), (TwoBodyTerm, {"charge_dependent": False, "damping_fn": OptimisedPowerDamping()})]


def _inst():
    return d4.D4SModel(num(SYS[NAME][0]), ga=2.5, gc=1.7, dtype=D)


# name -> (constructor, terms, reference options, coordination number)
CALC = {
    "d4": (lambda: DispD4(dtype=D), ("2q", "3a"), {}),
    "d4s": (lambda: DispD4("d4s", dtype=D), ("2q", "3a"), dict(model="d4s")),
    "exact": (lambda: DispD4Exact(dtype=D), ("2q", "3e"), {}),
    "options": (lambda: DispD4(model_kwargs=dict(ga=2.5, gc=1.5, wf=4.0, ref_charges="gfn2"), dtype=D), ("2q", "3a"), dict(ga=2.5, gc=1.5, wf=4.0, ref="gfn2")),
    "counting": (lambda: DispD4(cn_fn=cn_d3, cn_fn_kwargs=dict(counting_function=exp_count), dtype=D), ("2q", "3a"), dict(cn="d3")),
    "instance": (lambda: DispD4(model=_inst(), dtype=D), ("2q", "3a"), dict(model="d4s", ga=2.5, gc=1.7)),
    "own": (lambda: Mine(dtype=D), ("3a", "2o"), {}),
    "empty": (lambda: Disp("d4s", dtype=D), (), dict(model="d4s")),
}
TERMS = {
    "2q": (lambda: TwoBodyTerm(), dict(terms="2", qdep2=True)),
    "3a": (lambda: D4ATMApprox(), dict(terms="3", qdep3=False)),
    "3e": (lambda: D4ATMExact(damping_fn=ZeroDamping(), charge_dependent=False), dict(terms="3", atm="exact")),
    "2o": (lambda: TwoBodyTerm(damping_fn=OptimisedPowerDamping(), charge_dependent=False), dict(terms="2", qdep2=False, kind="op")),
    "3v": (lambda: D3ATM(), dict(terms="3", atm="d3")),
}
COPS = ["deep", "shallow", "pickle5", "save", "float", "double", "reg", "dereg", "calc"]


def _models():
    z = num(SYS["H2O"][0])
    zb = num([[8, 1, 1, 0], [79, 6, 7, 1]])
    out = {}
    for n, cls in (("d4", d4.D4Model), ("d4s", d4.D4SModel)):
        for s, zz in (("one", z), ("batch", zb)):
            out[f"{n} {s}"] = lambda cls=cls, zz=zz: cls(zz.clone(), dtype=D)
            out[f"{n} {s} options"] = lambda cls=cls, zz=zz: cls(zz.clone(), ga=2.2, gc=1.3, wf=torch.tensor(4.5, dtype=D), ref_charges="gfn2", dtype=D)
        out[f"{n} rc6"] = lambda cls=cls: cls(z.clone(), rc6=d4.D4Model(z, dtype=D).rc6 * 1.5, dtype=D)
        out[f"{n} single"] = lambda cls=cls: cls(z.clone(), dtype=F)
    out["d4s pair factors"] = lambda: d4.D4SModel(z.clone(), wf=torch.tensor([[5.0, 4, 3], [4, 6, 7], [3, 7, 2]], dtype=D), dtype=D)
    out["d4 leaf factor"] = lambda: d4.D4Model(z.clone(), wf=torch.tensor(5.0, dtype=D, requires_grad=True), dtype=D)
    return out


MODELS = _models()
MOPS = ["deep", "shallow", "pickle2", "pickle5", "save", "float", "double"]
SMALL = {
    "cutoff": lambda: d4.Cutoff(disp2=4.0, disp3=2.9, cn=20.0, cn_eeq=3.0, dtype=D),
    "cutoff default": lambda: d4.Cutoff(dtype=D),
    "two": lambda: TwoBodyTerm(),
    "two zero": lambda: TwoBodyTerm(damping_fn=ZeroDamping(), charge_dependent=False),
    "three": lambda: D4ATMApprox(charge_dependent=True),
    "three exact": lambda: D4ATMExact(),
    "three d3": lambda: D3ATM(),
    "rational": RationalDamping, "zero": ZeroDamping, "mzero": MZeroDamping, "op": OptimisedPowerDamping,
    "param": lambda: d4.get_params(method="d4", functional="pbe", keep_doi=True),
    "param default": lambda: d4.get_params(method="d4", functional=None),
}


# -- user-defined classes with a state of their own ------------------------------------
class OwnDamping(RationalDamping):
    def __init__(self):
        self.own = [1.5]

    def __call__(self, *a, **k):
        return super().__call__(*a, **k) * self.own[0]


class OwnTerm(TwoBodyTerm):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.own = [torch.tensor(0.7, dtype=D)]

    def calculate(self, *a, **k):
        return super().calculate(*a, **k) * self.own[0]


class OwnAtm(D4ATMApprox):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.own = {0: 0.6}

    def get_c9(self, *a, **k):
        return super().get_c9(*a, **k) * self.own[0]


class D4OwnModel(d4.D4SModel):
    def get_atomic_c6(self, *a, **k):
        return super().get_atomic_c6(*a, **k) * self.own[0]


class OwnCn:
    def __init__(self):
        self.own = [0.8]

    def __call__(self, *a, **k):
        return cn_d3(*a, **k) * self.own[0]


class OwnDisp(DispD4):
    def calculate(self, *a, **k):
        return super().calculate(*a, **k) * self.own[0]


def _own(kind):
    c = (OwnDisp if kind == "disp" else Disp)("d4", dtype=D)
    if kind == "disp":
        c.own = torch.full((1,), 1.2, dtype=D)
    elif kind == "damping":
        c.register(TwoBodyTerm(damping_fn=OwnDamping()))
    elif kind == "term":
        c.register(OwnTerm())
    elif kind == "atm":
        c.register(OwnAtm())
    elif kind == "cn":
        c = DispD4(cn_fn=OwnCn(), dtype=D)
    elif kind == "model":
        m = D4OwnModel(num(SYS[NAME][0]), dtype=D)
        m.own = [1.3]
        c = m
    return c


OWN = {
    "disp": lambda c: c,
    "damping": lambda c: c.terms[0].damping_fn,
    "term": lambda c: c.terms[0],
    "atm": lambda c: c.terms[0],
    "cn": lambda c: c.cn_fn,
    "model": lambda c: c,
}


def own_case(kind, path, res):
    def energy(o):
        return calc(DispD4(o, dtype=D) if kind == "model" else o, D)

    c = _own(kind)
    want = energy(c)
    fam = [c]
    for p in path:
        fam.append(COPY[p](fam[-1]))
    for i, o in enumerate(fam):
        need(torch.equal(energy(o), want) and type(OWN[kind](o)) is type(OWN[kind](c)), f"{kind} with a state after {path}: member {i} differs")
    # groups of members that share their state: only shallow copies do
    group = [0]
    for p in path:
        group.append(group[-1] + (p != "shallow"))
    for i in range(len(fam)):
        before = [energy(o) for o in fam]
        OWN[kind](fam[i]).own[0] = OWN[kind](fam[i]).own[0] * 1.07
        for j, o in enumerate(fam):
            if group[j] != group[i]:
                need(torch.equal(energy(o), before[j]), f"{kind} with a state after {path}: changing member {i} changes member {j}")
        need(not torch.equal(energy(fam[i]), before[i]), f"{kind} with a state after {path}: member {i} ignores its state")
    res.states += len(fam)
    res.transitions += len(path) + len(fam)
    res.traces += 1
    res.see(kind, str(path), want)


def space(tier):
    L = 3 if tier == "quick" else 4
    out = []
    for k in CALC:
        for a in COPS:
            for b in COPS:
                out.append(("calc", k, [a, b], L - 2))
    for k in MODELS:
        for a in MOPS:
            out.append(("model", k, [a], L - 1))
    for k in SMALL:
        for a, b in itertools.product(list(COPY), list(COPY)):
            out.append(("small", k, [a, b]))
    for k in OWN:
        out += [("state", k, list(p)) for n in (1, 2, L) for p in itertools.product(list(COPY) if n < 3 else ["deep", "shallow", "pickle5", "save"], repeat=n)]
    for p in (2, 3, 4, 5):
        out.append(("process", p))
    return out


# -- reference -----------------------------------------------------------------
@lru_cache(maxsize=None)
def ref_term(t, opt):
    o = dict(opt)
    z, x, _ = SYS[NAME]
    if o.pop("cn", None) == "d3":
        o["cn"] = np.array(cn_d3(num(z), pos(x), counting_function=exp_count))
    return R.energy(z, x, CH, P, **o, **TERMS[t][1])


def expected(k, terms):
    e = np.zeros(3)
    for t in terms:
        e = e + ref_term(t, tuple(sorted(CALC[k][2].items())))
    return e


def calc(o, dt):
    z, x, _ = SYS[NAME]
    return o.calculate(num(z), pos(x, dt), CH, P)


def run_calc(k, path):
    """-> (family, number of steps) or None when the path is outside the model."""
    fam = [(CALC[k][0](), CALC[k][1], D)]
    aliased = False
    new = "3v"
    for o in path:
        obj, terms, dt = fam[-1]
        if o in COPY:
            fam.append((COPY[o](obj), terms, dt))
            aliased = o == "shallow"  # may share the list of terms
        elif o in ("float", "double"):
            t = F if o == "float" else D
            if k == "instance" and t is not dt:
                return None  # the caller's model keeps its precision
            fam.append((obj.type(t), terms, t))
            aliased = t is dt  # may return itself, like a tensor
        elif o in ("reg", "dereg"):
            if aliased:
                return None
            if o == "reg":
                obj.register(TERMS[new][0]())
                fam[-1] = (obj, terms + (new,), dt)
            elif terms:
                obj.deregister(TERMS[terms[0]][0]())
                fam[-1] = (obj, terms[1:], dt)
            else:
                try:
                    obj.deregister(TERMS["2q"][0]())
                except ValueError:
                    pass
                else:
                    raise Violation(f"{k} {path}: removed a term from an empty calculator")
        else:
            need_close(calc(obj, dt), expected(k, terms), f"{k} {path}", **tol(dt))
    return fam


def tol(dt):
    return dict(rtol=1e-8, atol=1e-15) if dt is D else dict(rtol=1e-3, atol=1e-8)


def observe_model(m):
    n = m.numbers
    cn = torch.linspace(0.3, 3.7, n.numel(), dtype=m.dtype).reshape(n.shape) * (n > 0)
    q = torch.linspace(-0.4, 0.5, n.numel(), dtype=m.dtype).reshape(n.shape) * (n > 0)
    g = m.weight_references(cn, q)
    return [t.detach().double().numpy() for t in (g, m.get_atomic_c6(g), m.get_weighted_pols(g), m.get_polarizabilities(g))]


def damping_values(f):
    r, r0 = torch.linspace(1.0, 8.0, 8, dtype=D), torch.linspace(3.0, 9.0, 8, dtype=D)
    return torch.stack([f(r, r0, o, a1=0.4, a2=5.0, rs6=1.1, rs8=1.0, alp=14.0, bet=0.8) for o in (6, 8)])


def term_energy(t):
    c = Disp(dtype=D)
    c.register(t)
    return calc(c, D)


def observe_small(o):
    if isinstance(o, d4.Cutoff):
        z, x, c = SYS["UF3Cs"]
        return [o.disp2, o.disp3, o.cn, o.cn_eeq, str(o.dtype), d4.dftd4(num(z), pos(x), c, PARAMS["tpssh"], cutoff=o)]
    if isinstance(o, dict):
        return [sorted((k, v) for k, v in o.items())]
    if callable(o):
        return [damping_values(o), o.radius_type]
    return [term_energy(o), bool(o.charge_dependent), type(o.damping_fn).__name__]


def same_values(a, b):
    return len(a) == len(b) and all(np.array_equal(np.asarray(x), np.asarray(y)) if isinstance(x, (torch.Tensor, np.ndarray)) else x == y for x, y in zip(a, b))


# -- other process ---------------------------------------------------------------------
_CODE = """
import sys, pickle
sys.path.insert(0, {root!r})
import mc.harness, torch, warnings
warnings.simplefilter("ignore")
torch.set_num_threads(1)
from mc.checks import c24
d = pickle.load(open({path!r}, "rb"))
out = {{}}
for k, o in d.items():
    if k[0] == "calc":
        out[k] = [c24.calc(o, c24.D).numpy()]
    elif k[0] == "model":
        out[k] = c24.observe_model(o)
    else:
        out[k] = [v.detach().numpy() if hasattr(v, "detach") else v for v in c24.observe_small(o)]
sys.stdout.buffer.write(pickle.dumps(out))
"""


def evaluate(case, res):
    kind = case[0]
    if kind == "calc":
        _, k, prefix, depth = case
        for n in range(-1, depth + 1):
            for tail in itertools.product(COPS, repeat=max(n, 0)):
                path = prefix[:1] if n < 0 else [*prefix, *tail]
                fam = run_calc(k, path)
                if fam is None:
                    continue
                for i, (o, terms, dt) in enumerate(fam):
                    need(o.dtype == dt, f"{k} {path} member {i}: {o.dtype}")
                    need(type(o) is type(fam[0][0]), f"{k} {path} member {i}: {type(o)}")
                    need_close(calc(o, dt), expected(k, terms), f"{k} after {path}, member {i} of {len(fam)} with terms {terms}", **tol(dt))
                res.states += len(fam)
                res.transitions += len(path)
                res.traces += 1
                res.see(k, str(path), str([(t, str(d)) for _, t, d in fam]))
    elif kind == "model":
        _, k, prefix, depth = case
        for n in range(depth + 1):
            for tail in itertools.product(MOPS, repeat=n):
                path = [*prefix, *tail]
                if k == "d4 leaf factor" and {"float", "double"} & set(path):
                    continue  # tensors with a graph cannot be copied
                m = MODELS[k]()
                want = observe_model(m)
                fam, dt = [(m, m.dtype, True)], m.dtype
                exact = True
                for o in path:
                    if o in COPY:
                        c = COPY[o](fam[-1][0])
                    else:
                        nt = F if o == "float" else D
                        exact = exact and nt is fam[0][1]
                        c = fam[-1][0].type(nt)
                    fam.append((c, dt := (c.dtype if o in COPY else nt), exact))
                for i, (c, t, ex) in enumerate(fam):
                    what = f"model {k} after {path}, member {i}"
                    need(c.dtype == t and type(c) is type(m) and c.ref_charges == m.ref_charges and c.ga == m.ga and c.gc == m.gc, what)
                    need(c.numbers.dtype == torch.long and torch.equal(c.numbers, m.numbers), what + ": numbers")
                    for a, b in zip(observe_model(c), want):
                        if ex:
                            need(np.array_equal(a, b), what + ": values differ")
                        else:
                            need_close(a, b, what, rtol=1e-4, atol=1e-5 * (1 + float(np.abs(b).max())))
                    if k == "d4 leaf factor" and all(o in ("deep", "shallow") for o in path):
                        need(c.wf.requires_grad, what + ": no longer differentiable")
                # changing the original does not reach real copies
                real = [i for i in range(1, len(fam)) if any(o not in ("shallow", "float", "double") for o in path[:i])]
                before = [observe_model(fam[i][0]) for i in real]
                with torch.no_grad():
                    m.wf.mul_(0.5)
                    m.rc6.add_(3.0)
                    m.numbers.copy_(m.numbers.flip(-1))
                for i, b in zip(real, before):
                    need(all(np.array_equal(x, y) for x, y in zip(observe_model(fam[i][0]), b)), f"model {k} after {path}: copy {i} follows changes of the original")
                res.states += len(fam)
                res.transitions += len(path)
                res.traces += 1
                res.see(k, str(path), want[0])
    elif kind == "state":
        own_case(case[1], case[2], res)
    elif kind == "small":
        _, k, path = case
        o = SMALL[k]()
        want = observe_small(o)
        c = o
        for p in path:
            c = COPY[p](c)
            need(type(c) is type(o), f"{case}: {type(c)}")
            need(same_values(observe_small(c), want), f"{case}: copy behaves differently")
            if not isinstance(o, d4.Cutoff):
                need(c == o and not (c != o), f"{case}: copy is not equal to the original")
            res.transitions += 1
        if isinstance(o, dict):
            c["s8"] = -7.0
            c.pop("s9", None)
            need(same_values(observe_small(o), want), f"{case}: the original follows changes of the copy")
        elif isinstance(o, d4.Cutoff):
            if any(p != "shallow" for p in path):
                for t in (c.disp2, c.disp3, c.cn, c.cn_eeq):
                    t.mul_(0.3)
        elif not callable(o):
            cal = Disp(dtype=D)
            cal.register(o)
            cal.deregister(c)  # equal terms
            need(len(cal.terms) == 0, f"{case}: copy does not stand for the original term")
        need(same_values(observe_small(o), want), f"{case}: original changed")
        res.states += len(path) + 1
        res.traces += 1
        res.see(str(case), [v for v in want if isinstance(v, torch.Tensor)])
    else:
        d = {("calc", k): CALC[k][0]() for k in CALC if k != "own"}
        d.update({("model", k): f() for k, f in MODELS.items() if k != "d4 leaf factor"})
        d.update({("small", k): f() for k, f in SMALL.items()})
        with tempfile.TemporaryDirectory() as tmp:
            path = os.path.join(tmp, "o.pkl")
            with open(path, "wb") as f:
                pickle.dump(d, f, protocol=case[1])
            p = subprocess.run([sys.executable, "-c", _CODE.format(root=harness.ROOT, path=path)], capture_output=True)
        need(p.returncode == 0, f"{case}: {p.stderr.decode()[-800:]}")
        got = pickle.loads(p.stdout)
        for k, o in d.items():
            want = [calc(o, D)] if k[0] == "calc" else observe_model(o) if k[0] == "model" else observe_small(o)
            need(len(got[k]) == len(want), f"{case} {k}")
            for a, b in zip(got[k], want):
                if isinstance(b, (torch.Tensor, np.ndarray)):
                    need_close(a, b, f"{case} {k} in another process", rtol=1e-12)
                else:
                    need(a == b, f"{case} {k} in another process: {a} {b}")
            res.states += 1
            res.transitions += 1
            res.traces += 1
            res.see(str(k), case[1])

