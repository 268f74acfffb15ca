"""Branching exploration of one operation: clean twin, then the same operation under faults."""
from __future__ import annotations

import copy
import random
import tempfile

from .world import call


class Snap:
    pass


class Explorer:
    """Runs an operation repeatedly from one saved machine state."""

    def __init__(self, w, res):
        self.w = w
        self.res = res

    def snapshot(self, mem=None):
        w = self.w
        w.fs.sync_all()
        s = Snap()
        s.tree = w.fs.clone_tree()
        s.now, s.mono = w.now, w.mono
        s.entropy = w.entropy.getstate()
        s.rnd = random.getstate()
        import numpy as np
        s.np = np.random.get_state()
        s.names = tempfile._name_sequence.r.getstate() if tempfile._name_sequence is not None else None
        s.mem = copy.deepcopy(mem)
        s.spawn = len(w.spawn_log)
        return s

    def restore(self, s):
        w = self.w
        fs = w.fs
        fs.frozen = False
        fs.disarm()
        fs.quiet += 1
        try:
            import gc
            fs.fds = {}
        finally:
            fs.quiet -= 1
        keep, s.tree = s.tree, None
        fs.root = keep
        s.tree = fs.clone_tree()
        fs.restore_tree(keep)
        w.now, w.mono = s.now, s.mono
        w.entropy.setstate(s.entropy)
        random.setstate(s.rnd)
        import numpy as np
        np.random.set_state(s.np)
        if s.names is not None:
            tempfile._name_sequence.r.setstate(s.names)
        w.spawn_faults = []
        return copy.deepcopy(s.mem)

    def clean(self, s, op):
        """Returns (status, value, number of fs operations, mem)."""
        mem = self.restore(s)
        fs = self.w.fs
        fs.arm([])
        st, v = call(op, mem)
        n = fs.ops
        fs.disarm()
        return st, v, n, mem

    def faulty(self, s, op, faults, n, restart="kill", seed=0, spawn_faults=(), late=False):
        """faults: [{"frac","kind"}] placed over n operations. Returns (status, value, fired, mem)."""
        mem = self.restore(s)
        fs = self.w.fs
        before = dict(fs.fired)
        plan = []
        for f in faults:
            g = dict(f)
            g["at"] = min(max(0, n - 1), int(g.pop("frac") * n)) if n else 0
            plan.append(g)
        fs.arm(plan)
        self.w.spawn_faults = [dict(f) for f in spawn_faults]
        st, v = call(op, mem)
        self.w.spawn_faults = []
        fired = {k: c - before.get(k, 0) for k, c in fs.fired.items() if c != before.get(k, 0)}
        self.res.faults.update(fired)
        self.res.stats["faulted_executions"] += 1
        self.completed = st == "ok"          # reported success before any power loss
        if late and st != "crash":
            fs.frozen = True
            self.res.faults["power_loss_after"] += 1
        if st == "crash" or fs.frozen:
            st = "crash"
            fs.restart(restart, random.Random(f"restart:{seed}"))
            self.res.faults["restart_" + restart] += 1
        fs.reset_faults()
        fs.fds = {} if st == "crash" else fs.fds
        return st, v, fired, mem


FS_FAULTS = ["crash", "crash_after", "torn_crash", "eio", "eio_write", "enospc", "eacces",
             "emfile", "close_eio", "short_write", "disk_full"]


def gen_fault(rng, kinds=FS_FAULTS):
    k = rng.choice(kinds)
    f = {"frac": round(rng.random() if rng.random() < 0.75 else rng.uniform(0.8, 1.0), 4), "kind": k}
    if k in ("torn_crash", "short_write"):
        f["cut"] = round(rng.random(), 3)
    return f


def gen_branch(rng, kinds=FS_FAULTS):
    """One faulted branch: usually one fault, sometimes two; restart model and seed."""
    if rng.random() < 0.12:
        return {"faults": [], "restart": "power", "rs": rng.randrange(1 << 20), "late": True}
    fs = [gen_fault(rng, kinds)]
    if rng.random() < 0.2:
        fs.append(gen_fault(rng, kinds))
    return {"faults": fs, "restart": rng.choice(["kill", "power"]), "rs": rng.randrange(1 << 20)}
