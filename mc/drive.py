"""Thin wrappers around the public API of the tree under test."""
from __future__ import annotations

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.damping import MZeroDamping, OptimisedPowerDamping, RationalDamping, ZeroDamping

D = torch.double
F = torch.float32
DAMP = {"rational": RationalDamping, "zero": ZeroDamping, "mzero": MZeroDamping, "op": OptimisedPowerDamping}


def num(z, dtype=torch.long):
    return torch.tensor(z, dtype=dtype)


def pos(x, dtype=D):
    return torch.tensor(np.asarray(x, dtype=float), dtype=dtype)


def tparam(p, dtype=D, grad=()):
    """Parameters as tensors."""
    return {k: (v if k == "doi" else torch.tensor(float(v), dtype=dtype, requires_grad=k in grad)) for k, v in p.items()}


def pack(rows, fill=0, layout="end", extra=0):
    """Pad rows (lists) to a common length. layout: end | front | middle | spread."""
    n = max(len(r) for r in rows) + extra
    out, masks = [], []
    for r in rows:
        k = n - len(r)
        r = list(r)
        if layout == "end":
            o, m = r + [fill] * k, [1] * len(r) + [0] * k
        elif layout == "front":
            o, m = [fill] * k + r, [0] * k + [1] * len(r)
        elif layout == "spread":  # padding before, between and after
            pat = []
            for i, v in enumerate(r):
                room = k - sum(1 for a, _ in pat if not a)
                pat += [(0, fill)] * min(room, 1) + [(1, v)]
            pat += [(0, fill)] * (k - sum(1 for a, _ in pat if not a))
            o, m = [v for _, v in pat], [a for a, _ in pat]
        else:  # first atom, padding, remaining atoms
            o, m = r[:1] + [fill] * k + r[1:], [1] * min(1, len(r)) + [0] * k + [1] * (len(r) - 1)
        out.append(o)
        masks.append(m)
    return out, np.array(masks, bool)


def model_inst(key, numbers, dtype=D, **kw):
    return (d4.D4Model if key == "d4" else d4.D4SModel)(numbers, dtype=dtype, **kw)


def energy(z, xyz, charge, p, dtype=D, **kw):
    return d4.dftd4(num(z), pos(xyz, dtype), charge, p, **kw)
