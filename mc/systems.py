"""Deterministic alphabet of small systems (bohr). No randomness."""
from __future__ import annotations

import numpy as np


def _points():
    """27 irregular points: cubic lattice (3.1 bohr) displaced by a fixed quasi-random pattern,
    sorted so that neighbouring indices are neighbours in space."""
    g = (np.sqrt(2) % 1, np.sqrt(3) % 1, np.sqrt(5) % 1)
    pts = []
    k = 0
    for i in (0, 1, 2):
        for j in (0, 1, 2):
            for l in (0, 1, 2):
                k += 1
                d = np.array([(k * g[0]) % 1, (k * g[1]) % 1, (k * g[2]) % 1]) - 0.5
                pts.append(np.array([l, j, i]) * 3.1 + 0.9 * d)
    pts = np.array(pts)
    c = pts[13].copy()
    return pts[np.argsort(((pts - c) ** 2).sum(1), kind="stable")] - c


POINTS = _points()


def cluster(zs, scale=1.0, start=0):
    """Atoms zs on consecutive irregular points."""
    n = len(zs)
    return list(zs), (POINTS[start:start + n] * scale).tolist()


def _ring(n, r, z0=0.0, phase=0.0):
    return [[r * np.cos(2 * np.pi * k / n + phase), r * np.sin(2 * np.pi * k / n + phase), z0] for k in range(n)]


SYS = {
    # name: (numbers, positions, total charge)
    "He": ([2], [[0.1, -0.2, 0.3]], 0),
    "H-": ([1], [[0.0, 0.0, 0.0]], -1),
    "H2": ([1, 1], [[0, 0, 0], [0, 0, 1.4]], 0),
    "LiH": ([3, 1], [[0, 0, -1.5], [0, 0, 1.5]], 0),
    "CO": ([6, 8], [[0, 0, 0], [0.2, 0.3, 2.1]], 0),
    "OH-": ([8, 1], [[0, 0, 0], [0.5, 0.2, 1.75]], -1),
    "H2O": ([8, 1, 1], [[0, 0, 0.22], [0, 1.43, -0.89], [0.0, -1.43, -0.89]], 0),
    "HCN": ([1, 6, 7], [[0, 0, -2.0], [0, 0, 0], [0, 0, 2.18]], 0),
    "NaCl2-": ([17, 11, 17], [[-4.6, 0, 0.1], [0, 0, 0], [4.4, 0.3, 0]], -1),
    "NH4+": ([7, 1, 1, 1, 1], [[0, 0, 0], [1.1, 1.1, 1.1], [-1.1, -1.1, 1.1], [1.1, -1.1, -1.1], [-1.1, 1.1, -1.1]], 1),
    "SiH4": ([14, 1, 1, 1, 1], [[0, 0, 0], [1.6, 1.6, 1.6], [-1.6, -1.6, 1.6], [1.6, -1.6, -1.6], [-1.6, 1.6, -1.6]], 0),
    "Ar3": ([18, 18, 18], [[0, 0, 0], [7.1, 0, 0], [3.5, 6.0, 0.4]], 0),
    "UF3Cs": ([92, 9, 9, 9, 55], [[0, 0, 0], [3.8, 0, 0.3], [-1.9, 3.3, 0], [-1.8, -3.2, 0.1], [0.5, 1.0, 8.0]], 1),
    "AuPtH": ([79, 78, 1], [[0, 0, 0], [4.9, 0.2, 0], [2.0, 2.9, 0.5]], 0),
    "LrNo": ([103, 102], [[0, 0, 0], [5.5, 1.0, 0.2]], 0),
    "water2": (
        [8, 1, 1, 8, 1, 1],
        [[0, 0, 0.22], [0, 1.43, -0.89], [0.0, -1.43, -0.89], [5.4, 0.1, 0.3], [3.6, 0.05, 0.25], [6.1, 0.4, -1.4]],
        0,
    ),
    "C6H6": ([6] * 6 + [1] * 6, _ring(6, 2.64) + _ring(6, 4.69), 0),
    "mix8": (*cluster([26, 8, 6, 1, 16, 35, 11, 1], 1.25), 0),
    "mix10": (*cluster([57, 1, 7, 8, 30, 53, 1, 15, 20, 6], 1.35, 3), 1),
    "far": ([36, 10, 18], [[0, 0, 0], [0, 18.0, 0.5], [0.3, 0.2, 33.0]], 0),
}

TPSSH = dict(s6=1.0, s8=1.85897750, s9=1.0, a1=0.44286966, a2=4.60230534)

PARAMS = {
    "tpssh": TPSSH,
    "pbe": dict(s8=0.95948085, a1=0.38574991, a2=4.80688534),
    "s10": dict(s6=1.0, s8=1.2, s9=1.0, s10=0.7, a1=0.4, a2=5.0, alp=16.0),
    "odd": dict(s6=0.64, s8=2.5, s9=0.5, s10=0.0, a1=0.3, a2=5.5, alp=14.0),
    "nos9": dict(s6=1.0, s8=0.9, s9=0.0, a1=0.5, a2=4.2),
    "minimal": dict(a1=0.4, a2=5.0),
    "onlyatm": dict(s6=0.0, s8=0.0, s9=1.3, a1=0.42, a2=4.4, alp=12.0),
    "neg": dict(s6=1.0, s8=-0.3, s9=-0.2, s10=-0.1, a1=0.6, a2=3.5, alp=10.0),
}


def big_cluster(n, scale=1.0):
    """n atoms of varied elements on a displaced 6x6x6 (more than 216 atoms: 9x9x9) lattice, compact."""
    m = 6 if n <= 216 else 9
    g = (np.sqrt(2) % 1, np.sqrt(3) % 1, np.sqrt(5) % 1)
    pts = []
    k = 0
    for i in range(m):
        for j in range(m):
            for l in range(m):
                k += 1
                d = np.array([(k * g[0]) % 1, (k * g[1]) % 1, (k * g[2]) % 1]) - 0.5
                pts.append((np.array([l, j, i]) - (m - 1) / 2) * 3.6 + 0.8 * d)
    pts = np.array(pts)
    pts = pts[np.argsort((pts**2).sum(1), kind="stable")][:n] * scale
    el = [6, 1, 8, 1, 7, 1, 16, 1, 9, 17, 14, 1, 30, 35, 3, 26]
    return [el[(i * 7) % 16] for i in range(n)], pts.tolist()
