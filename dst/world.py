"""One simulated machine: filesystem, clock, entropy, environment, subprocesses."""
from __future__ import annotations

import datetime as _dtmod
import hashlib
import os
import random
import subprocess
import time
import uuid

from . import simfs
from .simfs import SimCrash, SimFS, Mount, PREFIX

_REAL_DT = _dtmod.datetime
_current = None            # active World


class _Meta(type(_REAL_DT)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _REAL_DT)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _REAL_DT)


class SimDateTime(_REAL_DT, metaclass=_Meta):
    def __new__(cls, *a, **k):
        return _REAL_DT(*a, **k)

    @classmethod
    def now(cls, tz=None):
        if _current is None:
            return _REAL_DT.now(tz)
        return _REAL_DT.fromtimestamp(_current.now, tz)

    @classmethod
    def utcnow(cls):
        if _current is None:
            return _REAL_DT.utcnow()
        return _REAL_DT.fromtimestamp(_current.now, _dtmod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def install_datetime_seam():
    """Must run before the code under test is imported (it binds the class)."""
    import warnings
    warnings.simplefilter("ignore")
    import yaml  # noqa: F401  (bind real datetime first)
    try:
        import pydantic, fastapi, starlette.testclient  # noqa
    except Exception:
        pass
    import email.utils, logging, http.cookiejar  # noqa
    _dtmod.datetime = SimDateTime


_REAL_POPEN = subprocess.Popen


class World:
    def __init__(self, seed=0, start=1_700_000_000.0):
        self.seed = seed
        self.now = start
        self.t0 = start
        self.mono = 1000.0
        self.entropy = random.Random(f"entropy:{seed}")
        self.fs = SimFS(clock=lambda: self.now)
        self.programs = {}
        self.spawn_log = []
        self.spawn_faults = []       # list of dicts consumed in order
        self.fired = self.fs.fired
        self.tick = 0.0              # virtual seconds per filesystem op
        self._saved = []
        self.fs.on_op = self._on_op
        self.extra_on_op = None

    def _on_op(self, cls, path):
        if self.tick:
            self.advance(self.tick)
        if self.extra_on_op is not None:
            self.extra_on_op(cls, path)

    def advance(self, dt):
        self.now += dt
        self.mono += max(0.0, dt)

    @property
    def sim_time(self):
        return self.mono - 1000.0

    def program(self, name, fn):
        self.programs[name] = fn
        self.fs.put(f"{PREFIX}/bin/{name}", b"#!sim\n", mode=0o755)

    def remove_program(self, name):
        self.programs.pop(name, None)
        try:
            self.fs.rm(f"{PREFIX}/bin/{name}")
        except OSError:
            pass

    def __enter__(self):
        global _current
        self._prev = _current
        _current = self
        self.mount = Mount(self.fs)
        self.mount.__enter__()
        self._env = dict(os.environ)
        os.environ["PATH"] = PREFIX + "/bin"
        os.environ["HOME"] = PREFIX + "/home"
        os.environ["TMPDIR"] = PREFIX + "/tmp"
        for k in list(os.environ):
            if k.startswith("YAPCAD_") or k in ("ARCH_CACHE_LINE_SIZE", "XDG_CONFIG_HOME"):
                del os.environ[k]
        self.fs.mkdirs(PREFIX + "/home")
        self.fs.mkdirs(PREFIX + "/work")
        self._set(time, "time", lambda: self.now)
        self._set(time, "time_ns", lambda: int(self.now * 1e9))
        self._set(time, "monotonic", lambda: self.mono)
        self._set(time, "monotonic_ns", lambda: int(self.mono * 1e9))
        self._set(time, "perf_counter", lambda: self.mono)
        self._set(time, "perf_counter_ns", lambda: int(self.mono * 1e9))
        self._set(time, "sleep", self.sleep)
        self._set(os, "urandom", self._urandom)
        self._set(subprocess, "Popen", self._popen_class())
        random.seed(f"g:{self.seed}")
        try:
            import numpy as np
            np.random.seed(int(hashlib.sha256(f"np:{self.seed}".encode()).hexdigest()[:8], 16))
            real_rng = np.random.default_rng
            self._set(np.random, "default_rng",
                      lambda s=None: real_rng(self.entropy.getrandbits(64) if s is None else s))
        except ImportError:
            pass
        return self

    def sleep(self, s):
        self.advance(max(0.0, s))

    def _urandom(self, n):
        return bytes(self.entropy.getrandbits(8) for _ in range(n))

    def _set(self, obj, name, val):
        self._saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def __exit__(self, *exc):
        global _current
        for obj, name, val in reversed(self._saved):
            setattr(obj, name, val)
        self._saved = []
        self.mount.__exit__()
        cur = dict(os.environ)
        self.env_leak = None
        for k in cur:
            if k not in self._env:
                del os.environ[k]
        for k, v in self._env.items():
            os.environ[k] = v
        _current = self._prev
        return False

    # ------------------------------------------------------------ processes
    def _popen_class(world):
        class SimPopen:
            def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                         stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None,
                         env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                         restore_signals=True, start_new_session=False, pass_fds=(), *,
                         user=None, group=None, extra_groups=None, encoding=None, errors=None,
                         text=None, umask=-1, pipesize=-1, process_group=None):
                if shell:
                    world.fs.escapes.append(f"shell {args!r}")
                    raise PermissionError("shell refused by simulator")
                if isinstance(args, (str, bytes, os.PathLike)):
                    args = [args]
                argv = [os.fspath(a) for a in args]
                argv = [a.decode() if isinstance(a, bytes) else a for a in argv]
                self.args = args
                self.text = bool(text or universal_newlines or encoding or errors)
                self.encoding = encoding or "utf-8"
                self.stdin = self.stdout = self.stderr = None
                self.pid = 4242
                self.returncode = None
                self._o, self._e, self._i = stdout, stderr, stdin
                if world.fs.frozen:
                    raise SimCrash()
                world.fs._op("spawn", argv[0])
                name = os.path.basename(argv[0])
                exe = argv[0] if "/" in argv[0] else None
                if exe is None:
                    for d in (env or os.environ).get("PATH", "").split(":"):
                        if d and world.fs.has(d + "/" + argv[0]):
                            exe = d + "/" + argv[0]
                            break
                if exe is None or not world.fs.has(exe) or name not in world.programs:
                    raise FileNotFoundError(2, "No such file or directory", argv[0])
                self._argv, self._name, self._cwd, self._env = argv, name, cwd, env
                self._ran = False
                self._timeout_s = 0.0
                world.spawn_log.append((name, tuple(argv[1:])))

            def _run(self, input=None):
                if self._ran:
                    return
                self._ran = True
                if isinstance(input, str):
                    input = input.encode(self.encoding)
                fault = None
                for f in world.spawn_faults:
                    if not f.get("done") and (f.get("prog") in (None, self._name)):
                        if f.get("skip", 0) > 0:
                            f["skip"] -= 1
                            continue
                        f["done"] = True
                        fault = f
                        break
                world.fs.quiet += 1          # another process's I/O: not our operations
                try:
                    rc, out, err, dur = world._exec(self._name, self._argv, input, self._cwd,
                                                    self._env, fault)
                finally:
                    world.fs.quiet -= 1
                self._rc, self._out, self._err, self._dur = rc, out, err, dur

            def _dest(self, where, data):
                if where in (subprocess.PIPE,):
                    return data.decode(self.encoding, "replace") if self.text else data
                if where is not None and where not in (subprocess.DEVNULL, subprocess.STDOUT) and data:
                    if hasattr(where, "fileno"):
                        where.flush() if hasattr(where, "flush") else None
                        fd = where.fileno()
                        if fd >= simfs.FD_BASE:
                            world.fs.quiet += 1
                            try:
                                world.fs.write_fd(fd, data)
                            finally:
                                world.fs.quiet -= 1
                return None

            def communicate(self, input=None, timeout=None):
                self._run(input)
                if timeout is not None and self._dur > timeout:
                    world.advance(timeout)
                    self._dur -= timeout
                    world.fs._fire("tool_timeout")
                    raise subprocess.TimeoutExpired(self.args, timeout)
                if self._dur == float("inf"):
                    world.fs._fire("tool_hang_no_timeout")
                    raise SimHang(self._name)
                world.advance(self._dur)
                self._dur = 0.0
                self.returncode = self._rc
                if self._e == subprocess.STDOUT:
                    return self._dest(self._o, self._out + self._err), None
                return self._dest(self._o, self._out), self._dest(self._e, self._err)

            def wait(self, timeout=None):
                self.communicate(timeout=timeout)
                return self.returncode

            def poll(self):
                if self.returncode is None:
                    self.communicate()
                return self.returncode

            def kill(self):
                self._run()
                self._rc = -9
                self._dur = 0.0
                self.returncode = -9

            terminate = kill

            def send_signal(self, s):
                self.kill()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                if self.returncode is None and a[0] is None:
                    self.communicate()

        return SimPopen

    def _exec(self, name, argv, input, cwd, env, fault):
        dur = 0.05
        if fault is not None:
            k = fault["kind"]
            self.fs._fire("tool_" + k)
            if k == "exit":
                return fault.get("rc", 2), b"", b"simulated failure\n", dur
            if k == "signal":
                return -9, b"", b"", dur
            if k == "hang":
                return -9, b"", b"", float("inf")
            if k == "slow":
                dur = fault.get("dur", 30.0)
            if k == "silent_ok":          # claims success, does nothing
                return 0, b"", b"", dur
        tx = fault if fault is not None else {}
        rc, out, err = self.programs[name](argv, input or b"", cwd, env, tx)
        if fault is not None and fault["kind"] == "late_exit":      # does its work, then fails
            rc = fault.get("rc", 2)
        elif fault is not None and fault["kind"] == "late_signal":
            rc = -9
        return rc, out, err, dur


class SimHang(BaseException):
    """The code under test waits for ever on a stuck helper process."""


def call(fn, *a, **k):
    """Run code under test; returns (status, value). SimCrash is reported as 'crash'."""
    try:
        return "ok", fn(*a, **k)
    except SimCrash:
        return "crash", None
    except SimHang as e:
        return "hang", str(e)
    except SystemExit as e:
        return "exit", e.code
    except RecursionError as e:
        return "exc", e
    except Exception as e:
        return "exc", e


def exc_name(e):
    return type(e).__name__ if e is not None else "-"
