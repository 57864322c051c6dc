"""C08: a calculator evaluates exactly its registered terms.

Explicit-state exploration: the model is a pair of lists of term descriptors
(one per calculator); the transitions are register, deregister, convert,
recreate and calculate. Every operation sequence within the bound is replayed on
real calculators and the observable behaviour (energies with and without
explicit charges, errors) compared with the model after the last step; all
prefixes are sequences of their own."""
from __future__ import annotations

import itertools
from functools import lru_cache

import numpy as np
import torch

import tad_dftd4 as d4  # noqa: F401
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d3 import D3ATM
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm

from .. import refmodel as R
from ..drive import D, DAMP, F, num, pos
from ..harness import Violation, need, need_close
from ..systems import SYS, TPSSH

PROPERTY = "C08"
LEVEL = "model_checking"
RULE = ""
BOUNDS = {
    "quick": "two calculators, 4 start configurations; all operation sequences of length <= 3 over 20 operations (4 term kinds) for one start, "
    "length <= 2 over 44 operations (10 term kinds, two of them user-defined subclasses, one with the name of its base class) for all starts",
    "thorough": "all sequences of length <= 3 over 44 operations for all 4 starts, length 4 over 20 operations for one start",
}
CHUNK = 2

P = dict(TPSSH, rs6=1.1, rs8=1.05, rs9=1.2, bet=1.5, alp=15.0)
NAME = "H2O"
CH = 1.0
QEXP = [-0.5, 0.3, 0.45]

class Scaled3(D4ATMApprox):
    """User-defined terms: twice the inherited energy."""

    def calculate(self, *a, **k):
        return 2.0 * super().calculate(*a, **k)


class Scaled2(TwoBodyTerm):
    def calculate(self, *a, **k):
        return 2.0 * super().calculate(*a, **k)


# a kind is the class, not its name
Scaled2.__name__ = Scaled2.__qualname__ = "TwoBodyTerm"
Scaled2.__module__ = TwoBodyTerm.__module__

# descriptor -> (constructor, reference arguments)
TERMS = {
    "2q": (lambda: TwoBodyTerm(), dict(terms="2", qdep2=True)),
    "2n": (lambda: TwoBodyTerm(charge_dependent=False), dict(terms="2", qdep2=False)),
    "3a": (lambda: D4ATMApprox(), dict(terms="3", qdep3=False)),
    "2z": (lambda: TwoBodyTerm(damping_fn=DAMP["zero"](), charge_dependent=True), dict(terms="2", qdep2=True, kind="zero")),
    "3aq": (lambda: D4ATMApprox(charge_dependent=True), dict(terms="3", qdep3=True)),
    "3e": (lambda: D4ATMExact(damping_fn=DAMP["zero"](), charge_dependent=False), dict(terms="3", atm="exact")),
    "3v": (lambda: D3ATM(), dict(terms="3", atm="d3")),
    "2o": (lambda: TwoBodyTerm(damping_fn=DAMP["op"](), charge_dependent=False), dict(terms="2", qdep2=False, kind="op")),
    "2Q": (lambda: Scaled2(), dict(terms="2", qdep2=True)),
    "3A": (lambda: Scaled3(), dict(terms="3", qdep3=False)),
}
QDEP = {"2q", "2z", "3aq", "2Q"}


class Custom(Disp):
    TERMS = [(D4ATMApprox, None), (TwoBodyTerm, {"charge_dependent": False})]


# name -> (class, model, default terms)
KINDS = {
    "D4": (DispD4, "d4", ("2q", "3a")),
    "D4s": (DispD4, "d4s", ("2q", "3a")),
    "Ex": (DispD4Exact, "d4", ("2q", "3e")),
    "Exs": (DispD4Exact, "d4s", ("2q", "3e")),
    "E": (Disp, "d4", ()),
    "Es": (Disp, "d4s", ()),
    "Cu": (Custom, "d4", ("3a", "2n")),
}
STARTS = [("D4", "D4"), ("Exs", "D4s"), ("E", "Ex"), ("Cu", "D4")]
SMALL = ["2q", "2n", "3a", "2z"]


def alphabet(terms):
    out = []
    for o in (0, 1):
        out += [("reg", o, t) for t in terms] + [("dereg", o, t) for t in terms]
        out.append(("conv", o))
    out.append(("calc", 0))
    out.append(("new", 0))
    return out


def space(tier):
    out = []
    A, B = alphabet(SMALL), alphabet(list(TERMS))
    for s in STARTS:
        out.append((s, [], B, 1))
        for a in B:
            out.append((s, [a], B, 1 if tier == "quick" else 2))
    if tier == "quick":
        for a, b in itertools.product(A, A):
            out.append((STARTS[0], [a, b], A, 1))
    else:
        for a, b in itertools.product(A, A):
            out.append((STARTS[0], [a, b], A, 2))
    return out


# -- the model ---------------------------------------------------------------
def m_init(start):
    return tuple((KINDS[k][2], "d", k) for k in start)


def m_step(st, o):
    """-> (new state, ok?)"""
    a = list(st)
    if o[0] == "reg":
        t, d, k = a[o[1]]
        a[o[1]] = (t + (o[2],), d, k)
    elif o[0] == "dereg":
        t, d, k = a[o[1]]
        if o[2] not in t:
            return st, False
        i = t.index(o[2])
        a[o[1]] = (t[:i] + t[i + 1:], d, k)
    elif o[0] == "conv":  # the other calculator becomes a converted copy of this one
        t, d, k = a[o[1]]
        a[1 - o[1]] = (t, "f" if d == "d" else "d", k)
    elif o[0] == "new":
        k = a[0][2]
        a[0] = (KINDS[k][2], "d", k)
    return tuple(a), True


def extra_coverage(cases):
    seen = set()
    n = 0
    for start, prefix, alpha, depth in cases:
        st = m_init(start)
        seen.add(st)
        for o in prefix:
            st, _ = m_step(st, o)
            seen.add(st)
        level = {st}
        for _ in range(depth):
            nxt = set()
            for s in level:
                for o in alpha:
                    t, _ = m_step(s, o)
                    nxt.add(t)
            seen |= nxt
            level = nxt
    return dict(states=len(seen), state_definition="ordered term lists, precision and class of both calculators")


# -- reference energies -----------------------------------------------------------
@lru_cache(maxsize=None)
def ref_term(t, model, q):
    z, x, _ = SYS[NAME]
    kw = dict(TERMS[t][1])
    if q:
        kw["q"] = np.array(QEXP)
    return (2.0 if t in ("2Q", "3A") else 1.0) * R.energy(z, x, CH, P, model=model, **kw)


def expected(state, q):
    t, d, k = state
    e = np.zeros(3)
    for n in t:
        e = e + ref_term(n, KINDS[k][1], q)
    return e


# -- the implementation ---------------------------------------------------------------
def make(k):
    cls, model, _ = KINDS[k]
    return cls(model=model, dtype=D)


def calc(disp, dt, q=None):
    z, x, _ = SYS[NAME]
    dtype = D if dt == "d" else F
    kw = {} if q is None else dict(q=torch.tensor(q, dtype=dtype))
    return disp.calculate(num(z), pos(x, dtype), CH, P, **kw)


def observe(objs, st, path):
    for i in (0, 1):
        t, d, k = st[i]
        what = f"calculator {i} after {path}, model {t}"
        tol = dict(rtol=1e-8, atol=1e-15) if d == "d" else dict(rtol=1e-3, atol=1e-9)
        need_close(calc(objs[i], d), expected(st[i], False), what, **tol)
        if path and path[-1][0] != "conv" and path[-1][1] != i:
            continue  # not touched by the last step: its charge handling was observed on the prefix
        if QDEP & set(t):
            need_close(calc(objs[i], d, QEXP), expected(st[i], True), what + " with charges", **tol)
        else:
            try:
                calc(objs[i], d, QEXP)
            except RuntimeError:
                pass
            else:
                raise Violation(f"{what}: explicit charges accepted although no term uses them")


def replay(start, path):
    objs = [make(k) for k in start]
    st = m_init(start)
    for n, o in enumerate(path):
        new, ok = m_step(st, o)
        if o[0] == "reg":
            objs[o[1]].register(TERMS[o[2]][0]())
        elif o[0] == "dereg":
            try:
                objs[o[1]].deregister(TERMS[o[2]][0]())
                done = True
            except Exception:
                done = False
            need(done == ok, f"{path[:n + 1]} from {st}: deregister {'succeeded' if done else 'failed'}")
        elif o[0] == "conv":
            d = st[o[1]][1]
            objs[1 - o[1]] = objs[o[1]].type(F if d == "d" else D)
        elif o[0] == "calc":
            calc(objs[o[1]], st[o[1]][1])
        else:
            objs[0] = make(st[0][2])
        st = new
    return objs, st


def evaluate(case, res):
    start, prefix, alpha, depth = case
    for L in range(1, depth + 1):
        for tail in itertools.product(alpha, repeat=L):
            path = [*prefix, *tail]
            objs, st = replay(start, path)
            observe(objs, st, path)
            res.transitions += len(path)
            res.traces += 1
            res.see(str(st))
    # class defaults untouched
    for k in set(start):
        need_close(calc(make(k), "d"), expected((KINDS[k][2], "d", k), False), f"new {k} after the sequences of {prefix}", rtol=1e-8)
