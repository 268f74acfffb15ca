"""C08: concurrent jobs in one process do not affect each other."""
import hashlib
import os
import pickle

from .. import jobs as J
from .. import sched as S
from ..engine import Check, Result
from ..world import World


def alone(fn):
    """Run fn in a forked copy of this process; its return value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(fn(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


class C08(Check):
    id = "C08"
    runs = {"quick": 2600, "thorough": 40000}
    batch = 1
    shrink_lists = ("jobs",)
    rule = "a run with a new interleaving in which at least two jobs overlapped (one was preempted inside the code under test and another ran)"
    real = ["yapcad.dsl", "yapcad geometry kernel", "yapcad.boolean", "yapcad.fasteners.catalog", "yapcad.io", "real Python threads"]
    stub = ["the thread scheduler (a seeded baton decides which thread runs at every traced line)", "threading.Lock/RLock (give the baton away instead of blocking)", "clock, randomness"]
    assumptions = ["threads are preempted between source lines of yapcad and service code (and between bytecodes of functions touching module state); library code is atomic"]
    states_measure = "distinct preemption sites (function, line)"

    def preload(self):
        S.install_locks()
        J.preload()

    def gen(self, rng, index, tier):
        n = rng.choice([2, 2, 2, 3, 3, 4] if tier == "quick" else [2, 3, 4, 5])
        jobs = [J.gen_job(rng) for _ in range(n)]
        if rng.random() < 0.7:           # the same operation with other arguments
            twin = dict(J.gen_job(rng), k=jobs[0]["k"])
            twin["prog"] = dict(twin["prog"], k=jobs[0]["prog"]["k"])
            how = rng.random()
            if how < 0.3:
                twin = jobs[0]
            elif how < 0.6:              # differs in one argument
                i, step = rng.randrange(4), rng.choice([1.5, 0.5, 0.04, 0.003, 1e-7])
                twin = dict(jobs[0], a=[v if x != i else v + step for x, v in enumerate(jobs[0]["a"])])
                twin["prog"] = dict(jobs[0]["prog"], a=[v if x != i else v + step for x, v in enumerate(jobs[0]["prog"]["a"])])
            jobs[1] = twin
        return {"seed": rng.randrange(1 << 30), "jobs": jobs, "mean": rng.choice([3, 10, 30, 100, 300, 3000]),
                "hotp": rng.choice([0, 0.03, 0.3]), "opcodes": rng.random() < 0.3}

    def simplify(self, plan):
        for m in (30, 300, 3000):
            if m > plan["mean"]:
                yield dict(plan, mean=m)
        if plan["opcodes"]:
            yield dict(plan, opcodes=False)
        if plan["hotp"]:
            yield dict(plan, hotp=0)

    def run(self, plan):
        import random
        res = Result()
        jobs = plan["jobs"]
        if not jobs:
            return res
        w = World(plan["seed"])
        with w:
            ref = [alone(lambda j=j, i=i: J.run_job(j, f"t{i}x")) for i, j in enumerate(jobs)]
            sc = S.Sched(random.Random(plan["seed"]), plan["mean"], plan["hotp"], plan["opcodes"])
            out = sc.run([lambda j=j, i=i: J.run_job(j, f"t{i}x") for i, j in enumerate(jobs)])
            again = [J.run_job(j, f"t{i}x") for i, j in enumerate(jobs)]
        res.t("switches", sc.switches, hashlib.sha256(bytes(sc.log)).hexdigest()[:16])
        res.faults["preemption"] += sc.switches
        for k, v in sc.stats.items():
            res.faults[k] += v
        for name, line in sc.sites:
            res.state(name, line)
        for i, j in enumerate(jobs):
            label = f"job {i} ({j['k']}{'/' + j['prog']['k'] if j['k'] in ('dsl', 'parse') else ''})"
            others = ",".join(x["k"] for n, x in enumerate(jobs) if n != i)
            st, val = out[i]
            res.t(i, j["k"], st, J.short(val) if st == "ok" else repr(val)[:80])
            if st == "deadlock":
                res.v("deadlock", f"{label}: {val}")
            elif st == "exc":
                res.v("raised", f"{label} alongside {others}: {val!r}"[:300])
            elif val != ref[i]:
                res.v("interference", f"{label} alongside {others}: {J.diff(ref[i], val)}")
            elif again[i] != ref[i]:
                res.v("lasting-damage", f"{label} afterwards, alone: {J.diff(ref[i], again[i])}")
            if st == "ok" and val.endswith("Error") is False:
                res.stats["jobs_equal"] += val == ref[i]
        res.nontrivial = sc.switches > 0 and len(jobs) > 1
        return res


CHECK = C08()
