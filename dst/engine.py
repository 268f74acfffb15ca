"""Search driver: seeds -> plans -> simulated runs -> violations -> minimised replays."""
from __future__ import annotations

import argparse
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import resource
import select
import signal
import subprocess
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("DST_REPO", "/repo"))
WORKERS = int(os.environ.get("DST_WORKERS", "8"))


class Result:
    def __init__(self):
        self.violations = []        # list of (sig, message)
        self.trace = []             # list of str
        self.faults = collections.Counter()
        self.states = set()
        self.stats = collections.Counter()
        self.sim_time = 0.0
        self.nontrivial = True

    def v(self, sig, msg):
        msg = re.sub(r"0x[0-9a-f]{6,}", "0x?", str(msg))      # addresses differ between executions
        self.violations.append((sig, msg))
        self.trace.append(f"VIOLATION {sig}: {msg}")

    def t(self, *parts):
        self.trace.append(" ".join(str(p) for p in parts))

    def state(self, *parts):
        self.states.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:12])

    def pack(self):
        h = hashlib.sha256("\n".join(self.trace).encode("utf-8", "replace")).hexdigest()
        return {"violations": self.violations, "hash": h, "faults": dict(self.faults),
                "states": sorted(self.states), "stats": dict(self.stats),
                "sim_time": self.sim_time, "nontrivial": self.nontrivial,
                "trace": self.trace}


class Check:
    id = "?"
    level = "exploration"
    runs = {"quick": 400, "thorough": 6000}
    batch = 8
    cpu_limit = 60                  # seconds of CPU for one run before it counts as stuck
    wall_limit = 240
    shrink_lists = ("ops", "faults")
    rule = ""
    real = []
    stub = []
    assumptions = []
    det_runs = 6
    states_measure = "distinct abstract states reached (hash of the observable state after each step)"

    def preload(self):
        pass

    def gen(self, rng, index, tier):
        raise NotImplementedError

    def run(self, plan):
        raise NotImplementedError

    def simplify(self, plan):
        """Yield simpler variants of plan (besides list shrinking)."""
        return ()


def load_check(cid):
    mod = importlib.import_module(f"dst.checks.{cid.lower()}")
    return mod.CHECK


def plan_for(check, seed, index, tier):
    rng = random.Random(f"{check.id}:{seed}:{index}")
    return json.loads(json.dumps(check.gen(rng, index, tier)))


def run_plan(check, plan):
    try:
        res = check.run(plan)
        return res.pack()
    except BaseException as e:                       # harness defect, never a verdict
        return {"harness_error": "".join(traceback.format_exception(e))[-4000:],
                "violations": [], "hash": "", "faults": {}, "states": [], "stats": {},
                "sim_time": 0.0, "nontrivial": False, "trace": []}


# ------------------------------------------------------------------ forked execution
def _child(check, jobs, wfd, keep_trace):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    w = os.fdopen(wfd, "wb")
    dn = os.open("/dev/null", os.O_WRONLY)
    if not os.environ.get("DST_DEBUG"):
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    for key, plan in jobs:
        soft = int(time.process_time() + check.cpu_limit) + 1
        resource.setrlimit(resource.RLIMIT_CPU, (soft, soft + 5))
        t = time.time()
        r = run_plan(check, plan)
        r["wall"] = time.time() - t
        if not keep_trace and not r["violations"]:
            r["trace"] = r["trace"][:40]
        pickle.dump((key, r), w)
        w.flush()
    w.close()


class Pool:
    def __init__(self, check, workers=WORKERS, keep_trace=False):
        self.check = check
        self.workers = workers
        self.keep = keep_trace
        self.live = {}

    def start(self, jobs):
        sys.stdout.flush()
        sys.stderr.flush()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for fd in list(self.live):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                _child(self.check, jobs, w, self.keep)
            except BaseException:
                code = 70
                try:
                    traceback.print_exc()
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.close(w)
        self.live[r] = {"pid": pid, "jobs": jobs, "buf": bytearray(), "t": time.time(), "done": 0}

    def poll(self, timeout=0.5):
        """Yield ('res', key, r) and ('lost', jobs_remaining, reason)."""
        out = []
        if not self.live:
            return out
        ready, _, _ = select.select(list(self.live), [], [], timeout)
        for fd in ready:
            j = self.live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                j["buf"] += b
                continue
            os.close(fd)
            del self.live[fd]
            _, status = os.waitpid(j["pid"], 0)
            out += self._drain(j)
            rest = j["jobs"][j["done"]:]
            if rest:
                out.append(("lost", rest, _why(status)))
        for fd in list(self.live):
            j = self.live[fd]
            if time.time() - j["t"] > self.check.wall_limit:
                try:
                    os.kill(j["pid"], signal.SIGKILL)
                except ProcessLookupError:
                    pass
        return out

    def _drain(self, j):
        out = []
        import io as _io
        s = _io.BytesIO(bytes(j["buf"]))
        while True:
            try:
                key, r = pickle.load(s)
            except Exception:
                break
            j["done"] += 1
            out.append(("res", key, r))
        return out

    def kill(self):
        for fd, j in list(self.live.items()):
            try:
                os.kill(j["pid"], signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.close(fd)
            try:
                os.waitpid(j["pid"], 0)
            except ChildProcessError:
                pass
        self.live = {}


def _why(status):
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        return "cpu" if s == signal.SIGXCPU else f"signal {s}"
    return f"exit {os.WEXITSTATUS(status)}"


def isolated(check, plan, keep_trace=True):
    """Run one plan in a fresh forked process. Returns result dict (maybe {'lost': why})."""
    p = Pool(check, 1, keep_trace)
    p.start([(0, plan)])
    res = {"lost": "?", "violations": []}
    while p.live:
        for ev in p.poll():
            if ev[0] == "res":
                res = ev[2]
            else:
                why = ev[2]
                res = {"lost": why, "violations": [], "hash": "", "trace": []}
                if why == "cpu":
                    res["violations"] = [("stuck", f"run did not terminate within {check.cpu_limit} CPU seconds")]
    return res


def isolated_many(check, plans):
    p = Pool(check, WORKERS, True)
    out = {}
    todo = list(enumerate(plans))
    while todo or p.live:
        while todo and len(p.live) < WORKERS:
            p.start([todo.pop(0)])
        for ev in p.poll():
            if ev[0] == "res":
                out[ev[1]] = ev[2]
            else:
                for k, _ in ev[1]:
                    out[k] = {"lost": ev[2], "violations": [("stuck", "run did not terminate")] if ev[2] == "cpu" else [],
                              "hash": "", "trace": []}
    return [out[i] for i in range(len(plans))]


# ------------------------------------------------------------------ minimisation
def minimise(check, plan, sig, budget_s=75.0, budget_n=600):
    t0 = time.time()
    tried = 0

    def fails_any(cands):
        nonlocal tried
        if not cands:
            return None
        tried += len(cands)
        rs = isolated_many(check, cands)
        for c, r in zip(cands, rs):
            if any(s == sig for s, _ in r.get("violations", [])):
                return c
        return None

    def left():
        return time.time() - t0 < budget_s and tried < budget_n

    def paths(p, pre=()):
        for k, v in p.items():
            if k in check.shrink_lists and isinstance(v, list):
                yield pre + (k,)

    changed = True
    while changed and left():
        changed = False
        for path in list(paths(plan)):
            key = path[-1]
            n = 2
            while left():
                items = plan[key]
                if not items:
                    break
                size = max(1, len(items) // n)
                cands = []
                for i in range(0, len(items), size):
                    c = dict(plan)
                    c[key] = items[:i] + items[i + size:]
                    cands.append(c)
                hit = fails_any(cands)
                if hit is not None:
                    plan = hit
                    changed = True
                    n = max(2, n - 1)
                elif size == 1:
                    break
                else:
                    n = min(len(items), n * 2)
        simp = list(check.simplify(plan))
        if simp and left():
            hit = fails_any(simp[:64])
            if hit is not None:
                plan = hit
                changed = True
    return plan, tried


# ------------------------------------------------------------------ known findings
def known_findings():
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return json.loads(p.read_text())["findings"]


# ------------------------------------------------------------------ main
def setup_paths():
    for p in (str(REPO / "src"), str(REPO), str(VERIF)):
        if p in sys.path:
            sys.path.remove(p)
    sys.path[:0] = [str(VERIF), str(REPO / "src"), str(REPO)]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--hashes", type=int, help="print trace hashes of the first N runs")
    ap.add_argument("--one", type=int, help="run one index verbosely in-process")
    ap.add_argument("--no-min", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    setup_paths()
    t_start = time.time()
    check = load_check(a.check)
    try:
        check.preload()
    except Exception:
        traceback.print_exc()
        print(f"ERROR check={a.check}: the code under test cannot be imported")
        return 2

    if a.replay:
        rec = json.loads(Path(a.replay).read_text())
        r = isolated(check, rec["plan"])
        for line in r.get("trace", []):
            print("  " + line)
        got = r.get("violations", [])
        same_hash = r.get("hash") == rec.get("trace_hash")
        print(f"replay: violations={got} trace_hash_equal={same_hash}")
        if any(s == rec["sig"] for s, _ in got):
            print(f"VIOLATION property={check.id} replay={a.replay}")
            return 1
        return 0 if "harness_error" not in r else 2

    if a.hashes is not None:
        out = []
        for i in range(a.hashes):
            r = isolated(check, plan_for(check, a.seed, i, tier))
            out.append(r.get("hash", ""))
        print(json.dumps(out))
        return 0

    if a.one is not None:
        plan = plan_for(check, a.seed, a.one, tier)
        print(json.dumps(plan)[:3000])
        os.environ["DST_DEBUG"] = "1"
        r = isolated(check, plan)
        for line in r.get("trace", []):
            print("  " + line)
        print({k: v for k, v in r.items() if k not in ("trace", "states")})
        return 0

    total = a.runs or check.runs[tier]
    budget = a.budget or {"quick": 150.0, "thorough": 2400.0}[tier]
    kf = [k for k in known_findings() if k["property"] == check.id]
    kf_sigs = {k["sig"] for k in kf if k.get("status") == "open"}

    # determinism self-check runs alongside, in another process with another hash seed
    det = None
    if check.det_runs:
        env = dict(os.environ, PYTHONHASHSEED="4242", VERIF_SEED=str(a.seed), DST_NESTED="1")
        det = subprocess.Popen([sys.executable, "-m", "dst.engine", a.check, "--tier", tier, "--seed", str(a.seed),
                                "--hashes", str(check.det_runs)], cwd=str(VERIF), env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    pool = Pool(check)
    results = {}
    errors = []
    lost = []
    nxt = 0
    stop = False
    retry = []
    bad = []
    while (nxt < total and not stop) or pool.live or retry:
        while len(pool.live) < WORKERS and (retry or (nxt < total and not stop)):
            if retry:
                jobs = [retry.pop(0)]
            else:
                idx = list(range(nxt, min(total, nxt + check.batch)))
                nxt += len(idx)
                jobs = [(i, plan_for(check, a.seed, i, tier)) for i in idx]
            pool.start(jobs)
        for ev in pool.poll():
            if ev[0] == "res":
                _, key, r = ev
                if r.get("harness_error"):
                    errors.append((key, r["harness_error"]))
                results[key] = r
                fresh = [s for s, _ in r["violations"] if s not in kf_sigs]
                if fresh:
                    bad.append(key)
                    if len(bad) >= 3:
                        stop = True
            else:
                _, rest, why = ev
                # run each remaining job alone; a job that is lost alone is a verdict or an error
                if len(rest) == 1 and (rest[0][0] in {k for k, _ in lost}):
                    key = rest[0][0]
                    if why == "cpu":
                        results[key] = {"violations": [("stuck", f"run did not terminate within {check.cpu_limit} CPU seconds")],
                                        "hash": "", "faults": {}, "states": [], "stats": {}, "sim_time": 0,
                                        "nontrivial": True, "trace": []}
                        bad.append(key)
                        stop = True
                    else:
                        errors.append((key, f"worker lost: {why}"))
                else:
                    lost.append((rest[0][0], why))
                    retry += rest
        if time.time() - t_start > budget and not stop:
            stop = True
    search_wall = time.time() - t_start

    det_info = None
    if det is not None:
        try:
            out, _ = det.communicate(timeout=200)
            other = json.loads(out.decode().strip().splitlines()[-1])
            mine = [results.get(i, {}).get("hash") for i in range(len(other))]
            pairs = [(x, y) for x, y in zip(mine, other) if x]
            det_info = {"compared": len(pairs), "equal": sum(x == y for x, y in pairs),
                        "how": "same seeds re-run in a separate process with a different PYTHONHASHSEED; trace hashes compared"}
        except Exception as e:
            det.kill()
            det_info = {"compared": 0, "equal": 0, "error": repr(e)}

    # ---------------------------------------------------------------- verdict
    vio = None
    for key in sorted(bad):
        r = results[key]
        sig, msg = next((s, m) for s, m in r["violations"] if s not in kf_sigs)
        vio = (key, sig, msg)
        break
    nviol = len(bad)
    replay_path = None
    if vio is not None:
        key, sig, msg = vio
        plan = plan_for(check, a.seed, key, tier)
        conf = isolated(check, plan)
        reproduced = any(s == sig for s, _ in conf.get("violations", []))
        tried = 0
        if not reproduced:
            # the run depended on its predecessors in the same worker batch
            conf2 = isolated(check, plan)
            reproduced = any(s == sig for s, _ in conf2.get("violations", []))
        minplan = plan
        if reproduced and not a.no_min:
            minplan, tried = minimise(check, plan, sig, budget_s=60 if tier == "quick" else 240)
        fin = isolated(check, minplan)
        fm = [m for s, m in fin.get("violations", []) if s == sig]
        (VERIF / "replays").mkdir(exist_ok=True)
        replay_path = f"replays/{check.id}-{a.seed}-{key}.json"
        (VERIF / replay_path).write_text(json.dumps({
            "property": check.id, "seed": a.seed, "index": key, "sig": sig,
            "message": fm[0] if fm else msg, "plan": minplan, "original_plan": plan,
            "trace_hash": fin.get("hash"), "trace": fin.get("trace", []) or r.get("trace", []),
            "reproduced": reproduced, "minimise_evaluations": tried,
            "replay_cmd": f"./check {check.id} --replay {replay_path}"}, indent=1, default=str))

    # ---------------------------------------------------------------- known findings
    seen_sigs = collections.Counter()
    for r in results.values():
        for s, _ in r["violations"]:
            seen_sigs[s] += 1
    kf_lines = []
    for k in kf:
        if k.get("status") == "open":
            n = seen_sigs.get(k["sig"], 0)
            if n == 0 and k.get("plan") is not None:
                rr = isolated(check, k["plan"])
                n = sum(1 for s, _ in rr.get("violations", []) if s == k["sig"])
            kf_lines.append(f"KNOWN-FINDING: property={check.id} {k['what']} (seen {n} times in this run)")

    # ---------------------------------------------------------------- evidence
    faults = collections.Counter()
    states = set()
    stats = collections.Counter()
    sim_time = 0.0
    hashes = set()
    nontriv = 0
    for r in results.values():
        faults.update(r["faults"])
        states.update(r["states"])
        stats.update(r["stats"])
        sim_time += r["sim_time"]
        if r["nontrivial"] and r["hash"] not in hashes:
            hashes.add(r["hash"])
            nontriv += 1
    samples = []
    for i in sorted(results)[:2]:
        samples.append({"seed": f"{check.id}:{a.seed}:{i}",
                        "plan": json.dumps(plan_for(check, a.seed, i, tier))[:1500],
                        "trace_head": results[i]["trace"][:25], "trace_hash": results[i]["hash"]})
    wall = time.time() - t_start
    ev = {
        "property": check.id, "tier": tier, "seed": a.seed, "level": check.level,
        "coverage": {
            "evaluations": len(results), "distinct_nontrivial": nontriv, "rule": check.rule,
            "samples": samples,
            "simulated_runs": len(results),
            "runs_per_hour": round(len(results) / max(search_wall, 1e-6) * 3600),
            "seeds": f"plans derived from VERIF_SEED={a.seed}, indices 0..{len(results) - 1}",
            "simulated_seconds": round(sim_time, 3),
            "faults_injected": dict(sorted(faults.items())),
            "distinct_states": len(states), "distinct_states_measure": check.states_measure,
            "distinct_traces": len(hashes),
            "counters": dict(sorted(stats.items())),
            "components_real": check.real, "components_stub": check.stub,
            "determinism_check": det_info,
            "harness_errors": len(errors),
            "planned_runs": total,
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    if not os.environ.get("DST_NESTED"):
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{check.id}.json").write_text(json.dumps(ev, indent=1, default=str))

    print(f"{check.id}: {len(results)}/{total} runs, {nontriv} distinct non-trivial, "
          f"{len(states)} states, faults={dict(faults)}, determinism={det_info and (det_info['equal'], det_info['compared'])}, "
          f"{wall:.1f}s")
    for line in kf_lines:
        print(line)
    if vio is not None:
        print(f"violation: {vio[1]}: {vio[2]}"[:2000])
        print(f"VIOLATION property={check.id} replay={replay_path}")
        return 1
    if errors:
        print(f"HARNESS ERRORS: {len(errors)}; first (run {errors[0][0]}):\n{errors[0][1]}")
        if len(errors) > max(2, len(results) // 50):
            return 2
    if not results:
        print("no runs completed")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
