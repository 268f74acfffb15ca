"""C06: recorded analysis results tell the truth about the latest run."""
import contextlib
import copy
import io
import json
import sys
from pathlib import Path

from .. import femsim as F
from .. import pkgsim as P
from .. import tools as T
from ..engine import Check, Result
from ..explore import Explorer, gen_branch
from ..world import World, call

PKG = "/sim/work/pkg"
REL = "work/pkg"
MAN = PKG + "/manifest.yaml"
IDS = ["p0", "p1", "plan-2", "p1", "p10", "P1"]
BADIDS = ["../../../evil", "a/b", "..", ".", "", "/sim/work/abs", "../p0", "results/../../x"]
CMPS = ["<=", "<", ">=", ">"]
FEM = ("fenics", "dolfinx")
PROPS = {"volume": ["volume", "volume_mm3"], "area": ["area", "area_mm2"], "bbox": ["bbox.width", "bbox.depth", "bbox.height"],
         "mass": ["mass_kg", "mass_g"], "centroid": ["centroid.x", "centroid.y", "centroid.z"]}
TOOLF = [{"kind": "exit", "rc": 1}, {"kind": "exit", "rc": 201}, {"kind": "signal"}, {"kind": "silent_ok"}, {"kind": "slow", "dur": 900.0},
         {"kind": "late_exit", "rc": 1}, {"kind": "late_signal"}]


def gen_rule(rng, native):
    cmp = rng.choice(CMPS + (["==", "~="] if native else []) + (["!=", "=<", "<"] if rng.random() < 0.3 else []))
    return {"comparison": cmp, "factor": rng.choice([0.5, 2.0, 0.25, 3.0, 1.0]), "drop_cmp": rng.random() < 0.1,
            "abs": rng.choice([None, None, None, None, 0, 0.0, -1, 1e9]), "mm": rng.random() < 0.3}


def gen_plan(rng):
    b = rng.choice(["yapcad", "yapcad", "calculix", "calculix", "calculix", "YAPCAD", "nosuch", "fenics", "fenics", "dolfinx"])
    prop = rng.choice(sorted(PROPS))
    native = b.lower() == "yapcad"
    fem = b in FEM
    names = PROPS[prop] if native else ["displacement.max", "displacement.max_mm"]
    if fem:
        names = names + ["stress.von_mises.max", "stress.von_mises.max_mpa"]
    acc = {}
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        key = rng.choice(names + (["stress.max", "nope"] if rng.random() < 0.3 else []))
        acc[key] = gen_rule(rng, native)
    return {"backend": b, "prop": prop, "acc": acc, "cmd": rng.choice([None, None, None, "ccx", "missing-solver"]),
            "thrust": rng.choice([100.0, 2224.0, 5000.0]), "rad": rng.choice([2, 4]),
            "E": rng.choice([None, 2e11, 3e9]) if fem else None, "hold": rng.choice(["z_min", "z_min", "outer_edge", None]) if fem else None}


def gen_op(rng):
    k = rng.choice(["run", "run", "run", "run", "plan", "plan", "geom", "solver", "clock", "badid"])
    o = {"op": k, "id": rng.choice(IDS)}
    if k in ("plan",):
        o["spec"] = gen_plan(rng)
    if k == "run":
        o["abs"] = rng.random() < 0.2
        o["branches"] = [dict(gen_branch(rng), tool=(dict(rng.choice(TOOLF)) if rng.random() < 0.4 else None))
                         for _ in range(rng.choice([1, 2, 3]))]
        o["settle"] = rng.choice(["clean", "clean", "fault"])
    if k == "geom":
        o["dims"] = [[round(rng.uniform(1, 20), 2) for _ in range(3)] for _ in range(rng.choice([1, 1, 2]))]
    if k == "solver":
        o["disp"] = round(rng.uniform(0.01, 5), 4)
        o["mode"] = rng.choice(["ok", "ok", "ok", "nodat", "empty", "rc", "nan", "absent"])
    if k == "clock":
        o["dt"] = rng.choice([1.0, 86400.0, -3600.0, -1e6, 0.0])
    if k == "badid":
        o["bad"] = rng.choice(BADIDS)
        o["spec"] = gen_plan(rng)
    return o


def strip(e):
    """A result entry without its times and solver chatter."""
    if isinstance(e, dict):
        return {k: strip(v) for k, v in e.items() if k not in ("timestamp", "stdout_tail", "stderr_tail")}
    if isinstance(e, list):
        return [strip(x) for x in e]
    return e


def sp_acc(spec):
    return bool(spec["acc"])


class C06(Check):
    id = "C06"
    runs = {"quick": 900, "thorough": 14000}
    batch = 12
    rule = "a run with a new trace in which results with at least two different statuses were recorded"
    real = ["yapcad.package.analysis.cli/base/calculix/fenics/gmsh_mesher/yapcad_native", "yapcad.package.core", "yapcad.geom3d measurements", "PyYAML"]
    stub = ["ccx solver process (reads the deck it is given, writes .dat/.frd)", "gmsh, meshio, DOLFINx/UFL (solution follows from the geometry, load, stiffness and supports given)", "filesystem", "clock", "entropy"]
    assumptions = ["the solver's exit status and output file are what it reports; a solver that writes wrong numbers is out of scope"]

    def preload(self):
        F.install()
        P.preload()

    def gen(self, rng, index, tier):
        return {"seed": rng.randrange(1 << 30), "plans": {i: gen_plan(rng) for i in sorted(set(IDS))},
                "dims": [[round(rng.uniform(1, 20), 2) for _ in range(3)]], "disp": round(rng.uniform(0.01, 5), 4),
                "ops": [gen_op(rng) for _ in range(rng.randint(3, 10 if tier == "quick" else 20))]}

    def simplify(self, plan):
        for i, op in enumerate(plan["ops"]):
            for b in op.get("branches", []):
                if len(op["branches"]) > 1:
                    q = json.loads(json.dumps(plan))
                    q["ops"][i]["branches"] = [b]
                    yield q

    # ------------------------------------------------------------ reference
    def measures(self, spec, dims, script):
        """What a right run measures: metric name -> value."""
        if spec["backend"].lower() == "yapcad":
            vol = sum(a * b * c for a, b, c in dims)
            area = sum(2 * (a * b + b * c + a * c) for a, b, c in dims)
            big = [max(d[i] for d in dims) for i in range(3)]
            p = spec["prop"]
            if p == "volume":
                return {"volume": vol, "volume_mm3": vol}
            if p == "area":
                return {"area": area, "area_mm2": area}
            if p == "bbox":
                return {"bbox.width": big[0], "bbox.depth": big[1], "bbox.height": big[2]}
            if p == "mass":
                kg = vol * 1e-9 * 2700
                return {"mass_kg": kg, "mass_g": kg * 1000}
            return {f"centroid.{a}": 0.0 for a in "xyz"}
        if spec["backend"] in FEM:
            p = spec["thrust"] * 1000.0
            d = F.displacement(dims[0], p, script["disp"], spec.get("E") or 68.9e9)
            return {"displacement.max": d, "displacement.max_mm": d, "stress.von_mises.max": p, "stress.von_mises.max_mpa": p * 1e-6}
        d = self.ccx_disp(spec, script)
        return {"displacement.max": d, "displacement.max_mm": d}

    def ccx_disp(self, spec, script):
        return round(script["disp"] * spec["thrust"] / 1000.0, 6)

    def limit(self, spec, key, rule, meas):
        base = meas.get(key, 1.0)
        if rule.get("abs") is not None:
            return rule["abs"]
        if key.startswith("centroid"):
            return rule["factor"] - 1.0          # measured value is 0
        return base * rule["factor"]

    def expected(self, spec, limits, meas, absent):
        """Set of truthful statuses."""
        b = spec["backend"].lower()
        if b == "nosuch":
            return {"pending"}
        if b == "calculix":
            if spec["cmd"] == "missing-solver" or absent == "absent":
                return {"skipped"}
            if absent in ("rc", "exit", "signal"):
                return {"error"}
            if absent in ("nodat", "empty", "silent_ok", "nan"):
                return ({"pending", "error", "failed"} | (set() if sp_acc(spec) else {"passed"})) if absent == "nan" else {"pending", "error"}
        if b in FEM:
            if absent in ("absent", "rc", "nodat", "empty"):
                return {"skipped"} if absent == "absent" else {"error"}
            if absent == "nan" or not spec.get("hold"):
                return {"pending", "error", "failed"} | (set() if sp_acc(spec) else {"passed"})
        fails = unknown = False
        for key, rule in spec["acc"].items():
            if key not in meas:
                unknown = True
                continue
            c = "<=" if rule["drop_cmp"] else rule["comparison"]
            v, lim = meas[key], limits[key]
            near = abs(v - lim) <= 1e-6 * max(1.0, abs(v))
            if near and c in CMPS:
                return {"passed", "failed", "pending"}     # exactly on the limit: rounding decides
            res = {"<=": v <= lim, "<": v < lim, ">=": v >= lim, ">": v > lim,
                   "==": near, "~=": near}.get(c)
            if res is None:
                unknown = True
            elif not res:
                fails = True
        if fails:
            return {"failed"}
        return {"pending"} if unknown else {"passed"}

    # ------------------------------------------------------------ run
    def run(self, plan):
        r = Result()
        seen = set()
        with World(plan["seed"]) as w:
            fs = w.fs
            core = P.Y["core"]
            script = {"disp": plan["disp"], "mode": "ok"}
            F.SIM.update(mode="ok", disp=plan["disp"])
            self.script = script
            base_ccx = T.make_ccx(w, script)

            def ccx(argv, stdin, cwd, env, tx):
                # displacement scales with the load in the deck the solver was actually given
                d = str(cwd) if cwd is not None else (fs.cwd or "/sim")
                load = 0.0
                try:
                    deck = fs.get(f"{d}/{argv[-1]}.inp").decode()
                    sec = deck.split("*CLOAD\n", 1)[1].split("*", 1)[0]
                    load = -sum(float(x.split(",")[2]) for x in sec.strip().splitlines())
                except (OSError, IndexError, ValueError):
                    pass
                keep = script["disp"]
                script["disp"] = float("nan") if script["mode"] == "nan" else round(keep * load / 1000.0, 6)
                try:
                    return base_ccx(argv, stdin, cwd, env, tx)
                finally:
                    script["disp"] = keep
            w.program("ccx", ccx)
            m = core.create_package_from_entities([P.build_shape({"k": "prism", "p": d, "meta": {}}) for d in plan["dims"]],
                                                  PKG, name="x", version="1")
            dims = plan["dims"]
            fs.put(f"{PKG}/geometry/part.step", json.dumps({"dims": dims[0]}))
            plans = {}
            for pid, sp in plan["plans"].items():
                self.write_plan(fs, pid, sp, dims, script, plans)
            ex = Explorer(w, r)
            for i, o in enumerate(plan["ops"]):
                k = o["op"]
                if k == "plan":
                    self.write_plan(fs, o["id"], o["spec"], dims, script, plans)
                    r.t(i, "plan", o["id"], json.dumps(o["spec"]))
                elif k == "geom":
                    dims = o["dims"]
                    core.create_package_from_entities([P.build_shape({"k": "prism", "p": d, "meta": {}}) for d in dims],
                                                      "/sim/work/other", name="x", version="1", overwrite=True)
                    fs.put(f"{PKG}/geometry/primary.json", fs.get("/sim/work/other/geometry/primary.json"))
                    fs.put(f"{PKG}/geometry/part.step", json.dumps({"dims": dims[0]}))
                    mm = core.PackageManifest.load(Path(PKG))
                    mm.recompute_hashes()
                    mm.save()
                    r.t(i, "geom", dims)
                elif k == "solver":
                    script["disp"], script["mode"] = o["disp"], o["mode"]
                    F.SIM.update(disp=o["disp"], mode=o["mode"])
                    if o["mode"] == "absent":
                        w.remove_program("ccx")
                    else:
                        w.program("ccx", ccx)
                    r.t(i, "solver", o["mode"], o["disp"])
                elif k == "clock":
                    w.now += o["dt"]
                    r.faults["clock_jump"] += 1
                elif k == "badid":
                    lim = {}
                    self.write_plan(fs, o["bad"], o["spec"], dims, script, lim, name="bad")
                    before = fs.tree("/sim")
                    st, v = call(P.Y["acli"].analyze_package, PKG, "validation/plans/bad.yaml")
                    r.t(i, "badid", repr(o["bad"]), st, type(v).__name__)
                    if fs.tree("/sim") != before:
                        changed = sorted(p for p in set(fs.tree("/sim")) | set(before) if fs.tree("/sim").get(p) != before.get(p))
                        out = [p for p in changed if not p.startswith(REL + "/validation/results") and p != REL + "/manifest.yaml"]
                        if st == "exc" or out or any(x in o["bad"] for x in ("..", "/")):
                            r.v("plan-id-escape", f"plan id {o['bad']!r}: changed {changed[:4]}")
                            return self.fin(r, w, seen)
                else:
                    e = self.do_run(r, w, ex, o, i, plans, dims, script, seen)
                    if e:
                        r.v(*e)
                        return self.fin(r, w, seen)
            if fs.escapes:
                r.v("escape", f"{fs.escapes[:3]}")
        return self.fin(r, w, seen)

    def fin(self, r, w, seen):
        r.sim_time = w.sim_time
        r.faults.update({k: v for k, v in w.fired.items() if k.startswith("tool_")})
        r.nontrivial = len(seen) > 1
        return r

    def write_plan(self, fs, pid, sp, dims, script, plans, name=None):
        meas = self.measures(sp, dims, script)
        limits = {k: self.limit(sp, k, ru, meas) for k, ru in sp["acc"].items()}
        acc = {}
        for k, ru in sp["acc"].items():
            acc[k] = {"limit_mm" if ru.get("mm") and sp["backend"] == "calculix" else "limit": limits[k]}
            if not ru["drop_cmp"]:
                acc[k]["comparison"] = ru["comparison"]
            if ru["comparison"] in ("==", "~="):
                acc[k]["tolerance"] = 1e-6 * max(1.0, abs(limits[k]))
        y = {"id": pid, "kind": "geometric" if sp["backend"].lower() == "yapcad" else "structural", "backend": sp["backend"],
             "acceptance": acc}
        if sp["backend"].lower() == "yapcad":
            y["check"] = {"property": sp["prop"]}
        elif sp["backend"] in FEM:
            y["geometry"] = {"source": "geometry/primary.json", "step_file": f"{PKG}/geometry/part.step"}
            y["loads"] = [{"id": "top", "type": "pressure", "surfaces": ["top"], "magnitude_pa": sp["thrust"] * 1000.0}]
            if sp.get("hold"):
                y["boundaryConditions"] = [{"id": "base", "type": "fixed", "surfaces": [1], "strategy": sp["hold"]}]
            if sp.get("E"):
                y["materials"] = {"default": {"youngs_modulus_pa": sp["E"], "poisson_ratio": 0.33}}
        else:
            y["backendOptions"] = {"thrust_n": sp["thrust"], "radial_divisions": sp["rad"], "outer_radius_mm": 10.0, "inner_radius_mm": 1.0}
        if sp["cmd"]:
            y["execution"] = {"mode": "local", "command": sp["cmd"]}
        fs.put(f"{PKG}/validation/plans/{name or pid}.yaml", P.Y["yaml"].safe_dump(y))
        plans[pid] = (sp, limits)

    def quiet(self, op):
        def run(mem):
            with contextlib.redirect_stdout(io.StringIO()):      # the mesher reports its progress there
                F.SIM["available"] = F.SIM["mode"] != "absent"
                fx = sys.modules.get("yapcad.package.analysis.fenics")
                if not hasattr(fx, "fenics_available"):
                    return op(mem)
                keep = fx.fenics_available
                fx.fenics_available = lambda: F.SIM["available"]
                try:
                    return op(mem)
                finally:
                    fx.fenics_available = keep
        return run

    def results(self, fs):
        raw, d = P.manifest_or_none(fs, PKG)
        if not isinstance(d, dict):
            return None, None
        return d, ((d.get("validation") or {}).get("results") or [])

    def do_run(self, r, w, ex, o, i, plans, dims, script, seen):
        fs = w.fs
        pid = o["id"]
        sp, limits = plans[pid]
        meas = self.measures(sp, dims, script)
        rel = f"validation/plans/{pid}.yaml"
        op = lambda mem: P.Y["acli"].analyze_package(PKG, f"{PKG}/{rel}" if o["abs"] else rel)
        note = f"run {i} of {pid} ({sp['backend']}, solver {script['mode']})"
        snap = ex.snapshot()
        d0, res0 = self.results(fs)
        tree0 = fs.tree("/sim")
        sumpath = f"{PKG}/validation/results/{pid}/summary.json"
        sum0 = fs.get(sumpath) if fs.has(sumpath) else None
        op = self.quiet(op)
        st, v, n, _ = ex.clean(snap, op)
        if st != "ok":
            return ("analysis-failed", f"{note}: {st} {v!r}")
        e = self.judge(fs, pid, sp, limits, meas, script["mode"], d0, res0, note)
        if e:
            return e
        e = self.confined(fs, pid, tree0, note)
        if e:
            return e
        d1, res1 = self.results(fs)
        ent = [x for x in res1 if x.get("plan") == pid]
        seen.add(ent[0]["status"])
        r.t(i, "run", pid, sp["backend"], script["mode"], "->", ent[0]["status"], "ops", n)
        r.state(sp["backend"], script["mode"], ent[0]["status"], len(res1))
        if not P.Y["validator"].validate_package(PKG)[0]:
            return ("package-invalid-after-analysis", f"{note}: {P.Y['validator'].validate_package(PKG)[1]}")
        sum1 = fs.get(sumpath)
        after = fs.clone_tree()
        now, mono = w.now, w.mono
        calc = sp["backend"].lower() == "calculix" and sp["cmd"] != "missing-solver" and script["mode"] != "absent"
        for b in o["branches"]:
            tool = b["tool"] if calc else None
            faults = [] if tool else b["faults"]
            late = bool(b.get("late")) and not tool
            if not tool and not faults and not late:
                continue
            st2, v2, fired, _ = ex.faulty(snap, op, faults, n, b["restart"], b["rs"], spawn_faults=[tool] if tool else (), late=late)
            tag = f"{note} with {tool or faults or 'power loss after'}"
            r.t("  branch", json.dumps(faults), json.dumps(tool), b["restart"], "->", st2, type(v2).__name__ if st2 == "exc" else "")
            r.state("f", st2, sorted(fired), tool and tool["kind"], sp["backend"])
            d2, res2 = self.results(fs)
            if d2 is None:
                return ("manifest-lost", tag)
            mode = script["mode"]
            if tool and tool["kind"] in ("exit", "signal", "silent_ok"):
                mode = tool["kind"]
            if tool and tool["kind"].startswith("late_"):
                mode = "rc"
            got = [x for x in res2 if x.get("plan") == pid]
            old = [x for x in res0 if x.get("plan") == pid]
            s2 = fs.get(sumpath) if fs.has(sumpath) else None
            if st2 == "ok":
                e = self.judge(fs, pid, sp, limits, meas, mode, d0, res0, tag, faulted=bool(faults))
                if e:
                    return e
                seen.add(got[0]["status"])
            else:
                if strip(got) != strip(ent) and got != old and not (len(got) == 1 and got[0].get("status") in ("error", "skipped")):
                    return ("interrupted-run-recorded-something-else", f"{tag} ended {st2}: entry {strip(got)}"[:900])
                if strip([x for x in res2 if x.get("plan") != pid]) != strip([x for x in res0 if x.get("plan") != pid]):
                    return ("interrupted-run-touched-other-results", tag)
                if s2 != sum0:
                    try:
                        js = json.loads(s2)
                    except Exception:
                        return ("summary-torn", f"{tag} ended {st2}: summary.json is {s2!r:.120}")
                    if js.get("status") not in (ent[0]["status"], "error", "skipped"):
                        return ("summary-wrong", f"{tag} ended {st2}: summary says {js.get('status')}, the run gives {ent[0]['status']}")
            e = self.confined(fs, pid, tree0, tag)
            if e:
                return e
            st3, v3 = call(op, None)
            if st3 != "ok":
                return ("analysis-impossible-after-fault", f"{tag}: retry {st3} {v3!r}")
            e = self.judge(fs, pid, sp, limits, meas, script["mode"], d0, res0, tag + ", re-run")
            if e:
                return e
        if o["settle"] == "clean":
            fs.restore_tree(after)
            fs.disarm()
            w.now, w.mono = now, mono
        return None

    def confined(self, fs, pid, tree0, note):
        t = fs.tree("/sim")
        ok = f"{REL}/validation/results/{pid}"
        bad = [p for p in set(t) | set(tree0) if t.get(p) != tree0.get(p) and not p.startswith(ok + "/") and p != ok
               and p != f"{REL}/validation/results"
               and not (p.startswith(REL + "/") and p.count("/") == 2 and p != REL + "/validation")]
        if bad:
            return ("analysis-wrote-elsewhere", f"{note}: {sorted(bad)[:4]}")

    def judge(self, fs, pid, sp, limits, meas, mode, d0, res0, note, faulted=False):
        d, res = self.results(fs)
        if d is None:
            return ("manifest-lost", note)
        mine = [x for x in res if x.get("plan") == pid]
        if len(mine) != 1:
            return ("result-entries", f"{note}: {len(mine)} entries for the plan")
        e = mine[0]
        b = sp["backend"].lower()
        if b == "calculix" and mode == "ok" and sp["cmd"] == "missing-solver":
            mode = "absent"
        want = self.expected(sp, limits, meas, mode if b == "calculix" or b in FEM else "ok")
        if b == "yapcad":
            mode = "ok"
        if b in FEM and not sp.get("hold"):
            mode = "nan"
        if faulted and e.get("status") in ("error", "skipped"):
            want = {e["status"]}             # a run that says it could not be carried out claims nothing
            mode = "nan"
        if e.get("status") not in want:
            return ("status-untrue", f"{note}: recorded {e.get('status')}, truth {sorted(want)}; acceptance {sp['acc']} limits {limits} "
                    f"measured {meas} entry metrics {e.get('metrics')}")
        got = e.get("metrics") or {}
        shows = (b == "yapcad" and mode != "nan") or ((b == "calculix" or b in FEM) and mode == "ok" and want != {"skipped"})
        if shows:
            for k, x in meas.items():
                if k not in got or abs(got[k] - x) > 1e-4 * max(1e-9, abs(x)) + 1e-9:
                    return ("metric-wrong", f"{note}: {k} recorded {got.get(k)}, this run measured {x}")
        elif got and mode != "nan":
            return ("metrics-without-measurement", f"{note}: {got}")
        try:
            s = json.loads(fs.get(f"{PKG}/{e['path']}"))
        except Exception as ex_:
            return ("summary-unreadable", f"{note}: {ex_!r}")
        if s.get("status") != e["status"] or s.get("plan") != pid:
            return ("summary-disagrees", f"{note}: summary {s.get('status')} manifest {e['status']}")
        if [x for x in res if x.get("plan") != pid] != [x for x in res0 if x.get("plan") != pid]:
            return ("other-results-changed", note)
        pl = [p for p in d["validation"].get("plans", []) if p.get("id") == pid]
        if len(pl) != 1:
            return ("plan-entries", f"{note}: {len(pl)}")
        strip_v = lambda x: {k: y for k, y in x.items() if k != "validation"}
        if strip_v(d) != strip_v(d0):
            return ("analysis-changed-package", note)


CHECK = C06()
