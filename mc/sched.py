"""Controlled scheduler for real Python threads.

Every executed source line (or bytecode instruction) of the package under test is
a switch point, observed with sys.monitoring. Exactly one thread runs at a time; a
plan [(tid, k), ...] runs thread tid until it has passed k switch points in total
(None: until it finishes) and then continues with the next entry. Threads that
block on each other outside the scheduler's knowledge (locks) are released after
`patience` seconds (locks created by the package itself are cooperative, see mc/locks.py,
and need no waiting); a run that still does not finish is reported as a deadlock."""
from __future__ import annotations

import gc
import importlib
import os
import pkgutil
import sys
import threading
import time
import types
import zlib

import torch

from . import harness, locks

PKG = os.path.realpath(os.path.join(harness.REPO, "src", "tad_dftd4")) + os.sep
TOOL = 4
_CUR = None
_E = sys.monitoring.events


def load_all():
    """Import every module of the package."""
    import tad_dftd4

    for m in pkgutil.walk_packages(tad_dftd4.__path__, "tad_dftd4."):
        importlib.import_module(m.name)


def _codes():
    seen, stack = set(), []
    for o in gc.get_objects():
        if type(o) is types.FunctionType:
            stack.append(o.__code__)
    while stack:
        c = stack.pop()
        if c in seen or not os.path.realpath(c.co_filename).startswith(PKG):
            continue
        seen.add(c)
        stack += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return seen


def instrument(opcodes=False):
    """Switch points at all lines (or instructions) of all functions of the package."""
    if sys.monitoring.get_tool(TOOL) is None:
        sys.monitoring.use_tool_id(TOOL, "vsched")
        sys.monitoring.register_callback(TOOL, _E.LINE, _event)
        sys.monitoring.register_callback(TOOL, _E.INSTRUCTION, _event)
    n = 0
    for c in _codes():
        if c.co_name != "<module>":
            sys.monitoring.set_local_events(TOOL, c, _E.INSTRUCTION if opcodes else _E.LINE)
            n += 1
    return n


def _event(code, where):
    s = _CUR
    if s is not None:
        tid = s.ids.get(threading.get_ident())
        if tid is not None:
            s._point(tid)


class Sched:
    def __init__(self, fns, plan, patience=2.0, limit=60.0, probe=None):
        self.fns, self.plan = fns, list(plan)
        self.n = len(fns)
        self.patience, self.limit = patience, limit
        self.go = [threading.Semaphore(0) for _ in fns]
        self.count = [0] * self.n
        self.done = [False] * self.n
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.seg = -1
        self.free = False
        self.lock = threading.Lock()
        self.finished = threading.Semaphore(0)
        self.ids = {}
        self.switches = 0
        self.spin = 0
        self.dead = False
        self.probe = probe

    def _advance(self):
        """Give control to the next runnable plan entry (called by the running thread)."""
        while self.seg + 1 < len(self.plan):
            self.seg += 1
            t, k = self.plan[self.seg]
            if not self.done[t] and (k is None or self.count[t] < k):
                self.switches += 1
                self.go[t].release()
                return t
        for t in range(self.n):  # plan exhausted: let the rest finish
            if not self.done[t]:
                self.plan.append((t, None))
                self.seg = len(self.plan) - 1
                self.switches += 1
                self.go[t].release()
                return t
        return None

    def _point(self, tid):
        self.count[tid] += 1
        if self.probe is not None:
            self.probe(tid, self.count[tid])
        if self.free:
            return
        with self.lock:
            t, k = self.plan[self.seg]
            if t != tid or k is None or self.count[tid] < k:
                return
            nxt = self._advance()
        if nxt is not None:
            self.go[tid].acquire()

    def blocked(self, tid):
        """Thread tid needs a lock held by another thread: run the others first."""
        if self.free:
            time.sleep(0.001)
            return
        with self.lock:
            self.spin += 1
            rest = [t for i in range(1, self.n) for t in [(tid + i) % self.n] if not self.done[t]]
            if not rest or self.spin > 4 * self.n:
                self.dead = True
                self.finished.release()
                t = None
            else:
                t = rest[0]
                self.plan.insert(self.seg + 1, (t, None))
                self.seg += 1
                self.switches += 1
                self.go[t].release()
        self.go[tid].acquire()
        while t is None:
            time.sleep(1.0)

    def _body(self, tid):
        self.ids[threading.get_ident()] = tid
        self.go[tid].acquire()
        try:
            self.result[tid] = self.fns[tid]()
        except BaseException as e:  # noqa: BLE001  reported to the caller
            self.error[tid] = e
        self.ids.pop(threading.get_ident(), None)
        with self.lock:
            self.done[tid] = True
            if not self.free:
                self._advance()
        self.finished.release()

    def run(self):
        """-> True unless the threads deadlock."""
        global _CUR
        _CUR = locks.CURRENT[0] = self
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        with self.lock:
            self._advance()
        left, t0, last = self.n, time.time(), None
        while left:
            if self.finished.acquire(timeout=self.patience):
                if self.dead:
                    _CUR = locks.CURRENT[0] = None
                    return False
                left -= 1
                continue
            state = tuple(self.count)
            if state == last and not self.free:
                self.free = True  # somebody waits for a lock held by a suspended thread
                for g in self.go:
                    for _ in range(64):
                        g.release()
            last = state
            if time.time() - t0 > self.limit:
                _CUR = locks.CURRENT[0] = None
                return False
        for t in ths:
            t.join()
        _CUR = locks.CURRENT[0] = None
        return True


# -- shared state ------------------------------------------------------------------
def _fp(t):
    """Fingerprint of a tensor's value."""
    try:
        d = t.detach()
        v = 0 if d.is_inference() else d._version
        return (id(t), v, str(d.dtype), tuple(d.shape), zlib.crc32(d.contiguous().numpy().tobytes()))
    except Exception:
        return (id(t), tuple(t.shape))


def shared_state(extra=()):
    """Value of everything threads could share: module variables, class attributes, function
    defaults / attributes / closures of the package and the given objects, followed through
    containers and instances."""
    out, seen = {}, set()
    stack = []
    for name, m in list(sys.modules.items()):
        if m is not None and (name == "tad_dftd4" or name.startswith("tad_dftd4.")):
            stack.append((name, m))
    for i, o in enumerate(extra):
        stack.append((f"shared{i}", o))
    while stack:
        path, o = stack.pop()
        if isinstance(o, (str, bytes, int, float, complex, bool, type(None), torch.dtype, torch.device, frozenset)):
            out[path] = o
            continue
        if id(o) in seen:
            out[path] = id(o)
            continue
        seen.add(id(o))
        if isinstance(o, torch.Tensor):
            out[path] = _fp(o)
            continue
        out[path] = id(o)
        if hasattr(o, "cache_info") and hasattr(o, "__wrapped__"):
            out[path + "#cache"] = tuple(o.cache_info())[1:]
        if isinstance(o, types.ModuleType):
            if o.__name__.startswith("tad_dftd4"):
                stack += [(f"{path}.{k}", v) for k, v in list(vars(o).items()) if not k.startswith("__")]
        elif isinstance(o, dict):
            out[path + "#"] = len(o)
            stack += [(f"{path}[{k!r}]", v) for k, v in list(o.items())]
        elif isinstance(o, (list, tuple, set)):
            out[path + "#"] = len(o)
            stack += [(f"{path}[{i}]", v) for i, v in enumerate(list(o))]
        elif isinstance(o, type):
            if str(getattr(o, "__module__", "")).startswith("tad_dftd4"):
                stack += [(f"{path}.{k}", v) for k, v in list(vars(o).items()) if not k.startswith("__")]
        elif isinstance(o, types.FunctionType):
            if str(getattr(o, "__module__", "")).startswith("tad_dftd4"):
                for a in ("__defaults__", "__kwdefaults__", "__dict__"):
                    stack.append((f"{path}.{a}", getattr(o, a)))
                for i, c in enumerate(o.__closure__ or ()):
                    try:
                        stack.append((f"{path}.cell{i}", c.cell_contents))
                    except ValueError:
                        pass
        elif str(type(o).__module__).startswith("tad_dftd4") or type(o).__name__ == "Param":
            for a in {s for c in type(o).__mro__ for s in ([c.__slots__] if isinstance(getattr(c, "__slots__", ()), str) else getattr(c, "__slots__", ()))}:
                if isinstance(a, str) and not a.startswith("__") and hasattr(o, a):
                    stack.append((f"{path}.{a}", getattr(o, a)))
            if hasattr(o, "__dict__"):
                stack.append((f"{path}.__dict__", vars(o)))
    return out
