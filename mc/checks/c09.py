"""C09: functional parameter lookup."""
from __future__ import annotations

import itertools
import json
import os

import numpy as np

import tad_dftd4 as d4
from tad_dftd4.damping.parameters import get_params
from tad_dftd4.damping.parameters.base import DispersionMethod, Variant

from .. import refmodel as R
from ..drive import num, pos
from ..harness import Violation, need, need_close
from ..systems import SYS

PROPERTY = "C09"
LEVEL = "exploration"
RULE = (
    "The key space is finite: every method x functional x variant of the frozen tables x 6 spellings x DOI option, all near-miss names and foreign variants, and for each "
    "functional all lookup/mutate sequences of length 3 over its variants. Non-trivial: a parameter set or an error is returned; distinct: different parameter sets or keys."
)
BOUNDS = {
    "quick": "288 functionals, 462 parameter blocks, 6 spellings, methods and variants as strings, enumeration members and string subclasses, both DOI options, 4 near-miss names per functional, 8 mutation kinds, sequences of length 2; energies of all D4 blocks with 2 systems",
    "thorough": "as quick with mutation sequences of length 3 and cross-functional mutation of every ordered pair of functionals",
}
ASSUMPTIONS = ["frozen copy of d3.toml and d4.toml taken from the pinned tree"]
CHUNK = 8
G = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden", "params.json")))


class Text(str):
    """A string type of the user."""


def spell(f):
    alt = "".join(c.upper() if i % 2 else c for i, c in enumerate(f))
    return sorted({f, f.upper(), f.capitalize(), f.title(), alt, alt.swapcase()})


def space(tier):
    out = []
    for m in G:
        for f in sorted(G[m]["parameter"]):
            out.append(("func", m, f))
            out.append(("mut", m, f, 3 if tier == "thorough" else 2))
            out.append(("miss", m, f))
        out.append(("default", m))
        out.append(("methods", m))
    for f in sorted(G["d4"]["parameter"]):
        out.append(("energy", f))
    if tier == "thorough":
        for m in G:
            for f in sorted(G[m]["parameter"]):
                out.append(("cross", m, f))
    return out


def look(m, f, v, doi):
    kw = dict(method=m, functional=f)
    if v is not None:
        kw["variant"] = v
    if doi is not None:
        kw["keep_doi"] = doi
    return get_params(**kw)


def want(m, f, v, doi):
    v = G[m]["default"][m][0] if v is None else v
    b = G[m]["parameter"][f].get(v)
    if b is None:
        return None
    return {k: x for k, x in b.items() if doi or k != "doi"}


def check(res, m, f, name, v, doi, what=""):
    w = want(m, f, v, doi)
    try:
        p = look(m, name, v, doi)
    except Exception as e:
        need(w is None, f"{what}{m} {name!r} variant {v}: {type(e).__name__}: {e}")
        res.see("missing", f, str(v))
        return None
    need(w is not None, f"{what}{m} {name!r} variant {v}: returned {p} although not tabulated")
    need(dict(p) == w, f"{what}{m} {name!r} variant {v} doi={doi}: {dict(p)} != {w}")
    res.see(json.dumps(w, sort_keys=True), m, f, str(v))
    return p


MUT = [
    lambda p: p.clear(),
    lambda p: p.update(s8=-7.0),
    lambda p: p.update(a1=0.0, a2=0.0),
    lambda p: p.pop(next(iter(p))),
    lambda p: p.update(doi="x"),
    lambda p: p.pop("doi", None),
    lambda p: p.update(s6=3.0, s9=3.0, extra=1.0),
    lambda p: [p.__setitem__(k, 1.5) for k in list(p)],
]


def fails(f, what):
    try:
        r = f()
    except Exception:
        return
    raise Violation(f"{what}: returned {r} instead of raising")


def evaluate(case, res):
    kind = case[0]
    if kind == "func":
        _, m, f = case
        allv = sorted({v for s in G[m]["parameter"].values() for v in s})
        for name in spell(f):
            for v in [None] + allv:
                for doi in (None, False, True):
                    check(res, m, f, name, v, bool(doi))
        # methods and variants given as members of the enumerations (or other strings of that value)
        for mm in (DispersionMethod(m), Text(m)):
            for v in [None] + allv:
                for vv in {id(o): o for o in [v, *(x for x in Variant if x.value == v), *([Text(v)] if v else [])]}.values():
                    w = want(m, f, v, True)
                    try:
                        p = get_params(method=mm, functional=f, variant=vv, keep_doi=True)
                    except KeyError:
                        need(w is None, f"{mm!r} {f} {vv!r}: not found")
                    else:
                        need(dict(p) == w, f"{mm!r} {f} {vv!r}: {p} instead of {w}")
                    res.see(repr(mm), f, repr(vv))
    elif kind == "mut":
        _, m, f, depth = case
        vs = [None] + sorted(G[m]["parameter"][f])
        for seq in itertools.product([(v, d) for v in vs for d in (False, True)], repeat=depth):
            for i, mu in enumerate(MUT):
                for v, d in seq:
                    p = check(res, m, f, f, v, d, f"after mutation {i}, sequence {seq}: ")
                    if p:
                        mu(p)
            check(res, m, f, f, *seq[0], f"after sequence {seq}: ")
    elif kind == "cross":
        _, m, f = case
        for g in G[m]["parameter"]:
            for mu in MUT:
                p = check(res, m, f, f, None, True)
                if p:
                    mu(p)
                check(res, m, g, g, None, True, f"after mutating {f}: ")
    elif kind == "miss":
        _, m, f = case
        known = G[m]["parameter"]
        for name in (f + "x", f[:-1], " " + f, f + "-", f + " "):
            if name.casefold() not in known and name.casefold() not in ("default", ""):
                fails(lambda: look(m, name, None, False), f"{m} {name!r}")
                res.see("unknown", m, name)
        for v in ("nope", "", "bj-eeq", "d4", "zero-atm"):
            fails(lambda: look(m, f, v, False), f"{m} {f} variant {v!r}")
            res.see("unknown variant", m, f, v)
        # functionals of the other method only
        o = "d3" if m == "d4" else "d4"
        for v in G[o]["parameter"].get(f, {}):
            if v not in known[f]:
                fails(lambda: look(m, f, v, False), f"{m} {f} variant {v!r} of {o}")
    elif kind == "default":
        m = case[1]
        for name in (None, "default"):
            for v in [None] + G[m]["default"][m]:
                w = G[m]["default"]["parameter"][m][v or G[m]["default"][m][0]]
                for rep in range(3):
                    p = look(m, name, v, False)
                    num_w = {k: x for k, x in w.items() if isinstance(x, float)}
                    num_p = {k: x for k, x in p.items() if isinstance(x, float)}
                    need(num_p == num_w, f"default {m} {v}: {dict(p)} != {w}")
                    MUT[rep](p)
                res.see("default", m, str(v))
            fails(lambda: look(m, name, "nope", False), f"default {m} variant nope")
    elif kind == "methods":
        for bad in ("d2", "", "dd4", "xdm", "D99"):
            fails(lambda: look(bad, "pbe", None, False), f"method {bad!r}")

        m = case[1]
        need(dict(look(DispersionMethod(m), "pbe", None, False)) == want(m, "pbe", None, False), "enum method")
        need(dict(d4.get_params(method=m, functional="pbe")) == want(m, "pbe", None, False), "top-level get_params")
        res.see("methods", m)
    else:
        f = case[1]
        for v in sorted(G["d4"]["parameter"][f]):
            for doi in (False, True):
                p = look("d4", f, v, doi)
                for s in ("H2O", "NaCl2-"):
                    z, x, ch = SYS[s]
                    e = d4.dftd4(num(z), pos(x), ch, p)
                    need_close(e, R.energy(z, x, float(ch), want("d4", f, v, False)), f"energy with {f} {v} {s}", rtol=1e-8)
                    res.see(e)
