"""Locks the controlled scheduler knows about.

threading.Lock and threading.RLock created by code of the package under test become
cooperative: a controlled thread that would block tells the scheduler, which runs the
other threads until the lock is free (and reports a deadlock when none can run)."""
from __future__ import annotations

import os
import sys
import threading

_LOCK, _RLOCK = threading.Lock, threading.RLock
CURRENT = [None]  # the running scheduler


class Coop:
    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT[0]
        tid = s.ids.get(threading.get_ident()) if s is not None else None
        if tid is None or not blocking or timeout != -1:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            s.blocked(tid)
        s.spin = 0
        return True

    def release(self):
        self._real.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self._real.release()

    def __getattr__(self, name):
        return getattr(self._real, name)


def install(pkg):
    def factory(real):
        def make(*a, **k):
            f = sys._getframe(1)
            lock = real(*a, **k)
            return Coop(lock) if os.path.realpath(f.f_code.co_filename).startswith(pkg) else lock

        return make

    threading.Lock, threading.RLock = factory(_LOCK), factory(_RLOCK)
