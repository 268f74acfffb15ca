"""C09: a job's result depends on its inputs only."""
import os
import random

from .. import jobs as J
from ..engine import Check, Result
from ..world import World
from ..peer import Peer

STAMP = 1_700_000_000.0


class C09(Check):
    id = "C09"
    runs = {"quick": 4500, "thorough": 100000}
    batch = 4
    shrink_lists = ("jobs",)
    rule = "a run with a new trace in which at least two jobs ran in each of two processes in different orders"
    real = ["yapcad.dsl", "yapcad geometry kernel", "yapcad.boolean", "yapcad.fasteners.catalog", "yapcad.io", "two real interpreters with different hash seeds"]
    stub = ["clock, randomness and file system (simulated, different on the two sides)"]
    assumptions = ["results are compared exactly (floats bit for bit) apart from generated ids and time stamps"]
    states_measure = "distinct (kind of job, kind of job before it, whether the earlier result was modified)"
    peer = None

    def preload(self):
        self.peer = Peer(self.id, random.Random(os.environ.get("VERIF_SEED", "1")).randrange(1, 4_000_000_000))
        J.preload()
        assert self.peer.ready()

    def preload_peer(self):
        J.preload()

    def gen(self, rng, index, tier):
        n = rng.choice([3, 4, 5, 6, 7] if tier == "quick" else [4, 6, 9])
        jobs = [J.gen_job(rng) for _ in range(n)]
        for i in range(1, n):
            if rng.random() < 0.6:
                b = jobs[rng.randrange(i)]
                how = rng.random()
                if how < 0.3:
                    jobs[i] = dict(b)
                elif how < 0.7:
                    x, step = rng.randrange(5), rng.choice([1.5, 0.5, 0.04, 0.003, 1e-7])
                    t = dict(b, a=[v if q != x else v + step for q, v in enumerate(b["a"])])
                    t["prog"] = dict(b["prog"], a=[v if q != x else v + step for q, v in enumerate(b["prog"]["a"])])
                    if x == 4:
                        t["n"] = b["n"] + 1
                        t["prog"]["n"] = b["prog"]["n"] + 1
                    jobs[i] = t
                else:
                    jobs[i] = dict(jobs[i], k=b["k"], prog=dict(jobs[i]["prog"], k=b["prog"]["k"]))
        for i, j in enumerate(jobs):
            jobs[i] = dict(j, abuse=rng.random() < 0.5, id=i)
        return {"seed": rng.randrange(1 << 30), "jobs": jobs, "order": rng.choice(["rev", "rev", "shuffle"]), "skew": rng.choice([0, 1e9, -1e9, 3600.0, 86400 * 366.0])}

    def simplify(self, plan):
        if any(j["abuse"] for j in plan["jobs"]):
            yield dict(plan, jobs=[dict(j, abuse=False) for j in plan["jobs"]])
        for i, j in enumerate(plan["jobs"]):
            if j["abuse"]:
                yield dict(plan, jobs=[dict(q, abuse=q["abuse"] and n != i) for n, q in enumerate(plan["jobs"])])
        if plan["skew"]:
            yield dict(plan, skew=0)

    def side(self, req):
        """Run the jobs in the given order in this process."""
        import numpy as np
        w = World(req["seed"], start=STAMP + req["skew"])
        out = {}
        with w:
            random.seed(req["seed"])
            np.random.seed(req["seed"] & 0xffffffff)
            for j in req["jobs"]:
                w.advance(random.Random(req["seed"] + j["id"]).uniform(0, 1e6))
                out[j["id"]] = J.run_job(j, "tx", abuse=j["abuse"], dig=True)
        return {str(k): v for k, v in out.items()}

    def run(self, plan):
        res = Result()
        jobs = plan["jobs"]
        if len(jobs) < 1:
            return res
        rng = random.Random(plan["seed"])
        back = list(reversed(jobs))
        if plan["order"] == "shuffle":
            rng.shuffle(back)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            import json
            try:
                d = json.dumps(self.side({"seed": plan["seed"], "skew": 0, "jobs": jobs})).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(d)
            finally:
                os._exit(0)
        os.close(w)
        import json
        b = self.peer.ask({"seed": plan["seed"] + 1, "skew": plan["skew"], "jobs": back})
        with os.fdopen(r, "rb") as f:
            a = json.loads(f.read())
        os.waitpid(pid, 0)
        prev = None
        for j in jobs:
            k = str(j["id"])
            name = j["k"] + ("/" + j["prog"]["k"] if j["k"] in ("dsl", "parse") else "")
            res.t(k, name, a[k], j["abuse"])
            res.state(name, prev, j["abuse"])
            prev = name
            res.stats["results_compared"] += 1
            if j["abuse"]:
                res.faults["caller_modified_earlier_result"] += 1
            if a[k] != b[k]:
                before = [q["k"] for q in jobs[:jobs.index(j)]]
                after = [q["k"] for q in back[:back.index(j)]]
                res.v("not-reproducible", f"job {k} ({name}) gave {a[k]} after {before} but {b[k]} after {after} in a process with another hash seed, clock and randomness")
        res.faults["clock_jump"] += plan["skew"] != 0
        res.faults["other_history_and_hash_seed"] += 1
        res.sim_time += 1e6
        res.nontrivial = len(jobs) > 1
        return res


CHECK = C09()
