"""Deterministic thread scheduler: real threads, one baton, seeded preemption at traced lines of the code under test."""
from __future__ import annotations

import _thread
import dis
import sys
import threading
import types

from .engine import REPO

ROOTS = (str(REPO / "src") + "/", str(REPO / "service") + "/")
_real_lock = _thread.allocate_lock
_active = None             # running Sched


class SimLock:
    """threading.Lock / RLock that gives the baton away instead of blocking."""
    _re = False

    def __init__(self):
        self._l = _real_lock()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._re and self._owner == me:
            self._n += 1
            return True
        s = _active
        spins = 0
        while not self._l.acquire(False):
            if not blocking or (timeout >= 0 and spins > 50):
                return False
            if s is not None and s.is_mine():
                s.stats["lock_wait"] = s.stats.get("lock_wait", 0) + 1
                spins += 1
                if spins > 200000:
                    raise Deadlock("every thread waits for a lock")
                s.switch(forced=True)
            else:
                got = self._l.acquire(blocking, timeout)
                if not got:
                    return False
                break
        self._owner, self._n = me, 1
        return True

    def release(self):
        if self._re:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._n -= 1
            if self._n:
                return
        self._owner = None
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()
        self._owner, self._n = None, 0

    # Condition support
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        n, self._n = self._n, 0
        self._owner = None
        self._l.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n


class SimRLock(SimLock):
    _re = True


class Deadlock(BaseException):
    pass


def install_locks():
    """Before the code under test is imported: its locks become scheduler-aware."""
    threading.Lock = lambda: SimLock()
    threading.RLock = lambda: SimRLock()


_hot_cache = {}
_MUT = (dict, list, set, types.ModuleType)


def hot(code, glob):
    """Does this function touch module-level mutable state?"""
    h = _hot_cache.get(code)
    if h is None:
        h = False
        for ins in dis.get_instructions(code):
            if ins.opname == "STORE_GLOBAL":
                h = True
                break
            if ins.opname == "LOAD_GLOBAL":
                v = glob.get(ins.argval)
                if (isinstance(v, (dict, list, set, threading.local, SimLock)) or (v is None and ins.argval in glob)
                        or type(v).__name__ == "_lru_cache_wrapper"
                        or (not callable(v) and str(type(v).__module__).startswith(("yapcad", "service")))):
                    h = True
                    break
        _hot_cache[code] = h
    return h


class Sched:
    def __init__(self, rng, mean, hotp=0.0, opcodes=False):
        self.rng = rng
        self.mean = mean                # mean traced lines between preemptions
        self.hotp = hotp                # chance of a preemption at each line of a function that touches shared state
        self.opcodes = opcodes
        self.stats = {}
        self.switches = 0
        self.sites = set()
        self.log = []
        self.cur = None
        self.threads = {}
        self.seen = {}
        self.cap = 3000                 # after this many preemptions, preempt rarely

    def is_mine(self):
        return self.cur is not None and _thread.get_ident() == self.cur[1]

    def quantum(self):
        m = self.mean if self.switches < self.cap else max(self.mean, 20000)
        return max(1, int(self.rng.expovariate(1.0 / m)))

    # ------------------------------------------------------------- tracing
    def trace(self, frame, event, arg):
        code = frame.f_code
        fn = code.co_filename
        if not fn.startswith(ROOTS):
            return None
        is_hot = self.hotp > 0 and hot(code, frame.f_globals)
        if is_hot and self.opcodes:
            frame.f_trace_opcodes = True
        return self.local_hot if is_hot else self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.left -= 1
            if self.left <= 0:
                self.point(frame)
        return self.local

    def local_hot(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.left -= 1
            if self.left <= 0:
                self.point(frame)
            elif self.switches < self.cap:
                k = (frame.f_code, frame.f_lineno)
                n = self.seen.get(k, 0)
                if n < 150:
                    self.seen[k] = n + 1
                    if self.rng.random() < self.hotp:
                        self.point(frame)
        return self.local_hot

    def point(self, frame):
        f = frame
        while f is not None:            # never preempt inside the import system (it holds its own locks)
            n = f.f_code.co_filename
            if n.startswith("<frozen importlib"):
                self.left = 1
                return
            f = f.f_back
        self.sites.add((frame.f_code.co_name, frame.f_lineno))
        self.switch()

    # ------------------------------------------------------------- baton
    def switch(self, forced=False):
        self.left = self.quantum()
        ready = [t for t in self.order if not t[3] and t is not self.cur]
        if not ready:
            return
        t = ready[self.rng.randrange(len(ready))]
        me = self.cur
        self.switches += 1
        self.log.append(t[0])
        self.cur = t
        t[2].release()
        me[2].acquire()

    def run(self, jobs):
        """jobs: list of zero-argument callables. Returns list of (status, value)."""
        global _active
        out = [None] * len(jobs)
        done = _real_lock()
        done.acquire()
        self.order = []

        def body(i, fn):
            me = self.order[i]
            me[2].acquire()
            me[1] = _thread.get_ident()
            sys.settrace(self.trace)
            try:
                out[i] = ("ok", fn())
            except Deadlock as e:
                out[i] = ("deadlock", str(e))
            except BaseException as e:      # noqa
                out[i] = ("exc", e)
            finally:
                sys.settrace(None)
            me[3] = True
            ready = [t for t in self.order if not t[3]]
            if ready:
                t = ready[self.rng.randrange(len(ready))]
                self.left = self.quantum()
                self.log.append(t[0])
                self.cur = t
                t[2].release()
            else:
                self.cur = None
                done.release()
        for i, fn in enumerate(jobs):
            l = _real_lock()
            l.acquire()
            self.order.append([i, None, l, False])
        for i, fn in enumerate(jobs):
            _thread.start_new_thread(_Wrap(body, i, fn), ())
        self.left = self.quantum()
        _active = self
        first = self.order[self.rng.randrange(len(jobs))]
        self.cur = first
        first[2].release()
        done.acquire()
        _active = None
        return out


class _Wrap:
    def __init__(self, body, i, fn):
        self.a = (body, i, fn)

    def __call__(self):
        self.a[0](self.a[1], self.a[2])
