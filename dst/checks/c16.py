"""C16: mate solving reflects the present mate, datums and parent pose."""
import math

from ..engine import Check, Result
from ..world import World, call
from .c15 import tf, mul, inv, rt, ident

Y = {}
DIRS = [[1, 0, 18], [1, 2, 2.2], [0, 0, 1], [1, 0, 0], [0, 1, 0], [0, 0, -1], [-1, 0, 0], [1, 1, 0], [1, 2, 2], [0, 3, -4], [2, -1, 2], [0, 0, 7]]
TYPES = ["COINCIDENT", "RIGID", "CONCENTRIC", "PARALLEL", "PERPENDICULAR", "DISTANCE", "ANGLE", "REVOLUTE"]
PARTS = ["base", "arm", "arm1", "lib/plate.json"]          # the last one is a file
DN = ["top", "bot"]
AX = ["Z", "Z", "Z", "X", "-Y", "-Z"]


def gen_datum(rng, dirs):
    d = rng.choice(dirs)
    if rng.random() < 0.4:                      # nearly, but not exactly, a direction used elsewhere
        n = math.sqrt(sum(x * x for x in d))
        d = [round(x / n + rng.uniform(-0.06, 0.06), 3) for x in d]
    return {"k": rng.choice(["PLANE", "AXIS", "CIRCLE"]), "o": [round(rng.uniform(-20, 20), 2) for _ in range(3)], "d": d}


def gen_op(rng, dirs):
    k = rng.choice(["solve"] * 8 + ["face"] * 5 + ["reg"] * 4 + ["edit"] * 5 + ["fedit"] * 3 + ["all", "chain", "chain", "spoil", "spoil", "fspoil", "inval", "missing", "validate", "clear", "clear", "fault", "fault"])
    o = {"op": k, "m": rng.randrange(4), "axis": rng.choice(AX), "p": rng.randrange(len(PARTS)), "d": rng.randrange(2), "pose": rt(rng) if rng.random() < 0.5 else None,
         "in": rng.random() < 0.15}
    if k == "reg":
        o["datum"] = gen_datum(rng, dirs)
        o["how"] = rng.choice(["datum", "source", "mutate"])
    if k in ("edit", "fedit"):
        o["f"] = rng.choice(["type", "datum_a", "datum_b", "part_b", "part_a", "offset", "angle", "offset", "type"])
        o["v"] = {"type": rng.choice(TYPES), "offset": rng.choice([0.0, 5.0, -2.5]), "angle": rng.choice([0.0, 0.5])}.get(o["f"], rng.choice(DN if o["f"].startswith("datum") else PARTS))
    return o


class C16(Check):
    id = "C16"
    runs = {"quick": 4000, "thorough": 80000}
    batch = 16
    shrink_lists = ("ops",)
    rule = "a run with a new trace that solved a mate again after one of its inputs had changed"
    real = ["yapcad.assembly.solver", "yapcad.assembly.face_mate", "yapcad.assembly.datum_registry"]
    stub = ["clock", "filesystem (in-memory, read errors)"]
    assumptions = ["FaceToFaceMate.invalidate_cache is not needed for correctness", "the meaning of an ANGLE mate's angle and of mate_axis is taken from a fresh solver"]
    states_measure = "distinct (operation, mate kind, datum kinds, axis, with parent pose, solved before)"

    def preload(self):
        import numpy as np
        import logging
        logging.disable(logging.CRITICAL)
        from yapcad.assembly import solver, face_mate, mate, datum
        from yapcad.assembly.datum_registry import DatumRegistry
        Y.update(np=np, S=solver, F=face_mate, M=mate.Mate, MT=mate.MateType, R=DatumRegistry, D=datum.Datum, DT=datum.DatumType)

    def gen(self, rng, index, tier):
        dirs = rng.sample(DIRS, rng.choice([2, 3, 3, len(DIRS)]))
        return {"seed": rng.randrange(1 << 30), "datums": [[gen_datum(rng, dirs) for _ in DN] for _ in PARTS],
                "mates": [{"type": rng.choice(TYPES), "part_a": rng.choice(PARTS), "datum_a": rng.choice(DN), "part_b": rng.choice(PARTS), "datum_b": rng.choice(DN),
                           "offset": 0.0, "angle": 0.3} for _ in range(4)],
                "faces": [{"type": rng.choice(["COINCIDENT", "CONCENTRIC", "PARALLEL"]), "part_a": rng.choice(PARTS), "datum_a": rng.choice(DN), "part_b": rng.choice(PARTS),
                           "datum_b": rng.choice(DN), "offset": rng.choice([0.0, 0.0, 3.0]), "angle": rng.choice([0.0, 0.0, 40.0])} for _ in range(4)],
                "ops": [gen_op(rng, dirs) for _ in range(rng.randint(5, 30 if tier == "quick" else 90))]}

    def mk(self, p, d, s):
        D, DT = Y["D"], Y["DT"]
        k = {"origin": list(s["o"]) + [1]}
        k["direction" if s["k"] == "AXIS" else "normal"] = list(s["d"]) + [0]
        if s["k"] == "CIRCLE":
            k["radius"] = 2.0
        return D(DN[d], DT[s["k"]], **k)

    def relation(self, kind, a, b, T, offset=0.0, extra=0.0):
        """None or what is wrong with T as the child-in-parent transform of this mate."""
        np = Y["np"]
        T = np.array(T, dtype=float)
        R, t = T[:3, :3], T[:3, 3]
        if T.shape != (4, 4) or abs(R.T @ R - np.eye(3)).max() > 1e-6 or np.linalg.det(R) < 0.5 or abs(T[3] - [0, 0, 0, 1]).max() > 1e-9:
            return "not a rigid transform"
        oa, ob = np.array(a["o"], float), np.array(b["o"], float)
        da, db = np.array(a["d"], float), np.array(b["d"], float)
        da, db = da / np.linalg.norm(da), db / np.linalg.norm(db)
        at, rd = R @ ob + t, R @ db
        near = lambda x, y: abs(x - y).max() < 1e-6
        if kind in ("COINCIDENT", "RIGID"):
            if not near(at, oa + offset * da):
                return f"origins do not coincide: {at.tolist()} {(oa + offset * da).tolist()}"
            if not near(rd, -da):
                return "normals are not opposed"
        elif kind in ("CONCENTRIC", "REVOLUTE"):
            if not near(at, oa + offset * da):
                return f"origins do not coincide: {at.tolist()} {(oa + offset * da).tolist()}"
            if not near(rd, da):
                return "axes are not aligned"
        elif kind == "PARALLEL":
            if not near(rd, da):
                return "directions are not parallel"
        elif kind == "PERPENDICULAR":
            if abs(rd @ da) > 1e-6:
                return "directions are not perpendicular"
        elif kind == "DISTANCE":
            if not near(t, oa + offset * da) or not near(R, np.eye(3)):
                return "not at the given distance"
        elif kind == "ANGLE":
            if not near(R @ da, da):
                return "not a rotation about the parent's direction"
        return None

    def run(self, plan):
        r = Result()
        np, S, F = Y["np"], Y["S"], Y["F"]
        with World(plan["seed"]) as w:
            Y["R"].clear()
            dat = [[dict(d) for d in p] for p in plan["datums"]]
            live = {}
            import json

            def put():
                w.fs.put("/sim/work/lib/plate.json", json.dumps({"part_name": "Plate", "datums": {n: {"type": d["k"], "origin": d["o"],
                         "direction" if d["k"] == "AXIS" else "normal": d["d"], "radius": 2.0} for n, d in zip(DN, dat[3])}}).encode())

            def fill():
                put()
                for q, p in enumerate(PARTS[:3]):
                    for j, _ in enumerate(DN):
                        Y["R"].register_datum(p, self.mk(q, j, dat[q][j]))
            Y["R"].add_search_path("/sim/work")
            fill()
            ms = [dict(m) for m in plan["mates"]]
            fs = [dict(m) for m in plan["faces"]]
            mates = [Y["M"](name=f"m{'1' * i}", mate_type=Y["MT"][m["type"]], part_a=m["part_a"], datum_a=m["datum_a"], part_b=m["part_b"], datum_b=m["datum_b"],
                            offset=m["offset"], angle=m["angle"]) for i, m in enumerate(ms)]
            faces = [F.FaceToFaceMate(name=f"f{i}", parent_part=m["part_a"], parent_datum=m["datum_a"], child_part=m["part_b"], child_datum=m["datum_b"],
                                      constraint=Y["MT"][m["type"]], offset_distance=m["offset"], rotation_about_normal=m["angle"]) for i, m in enumerate(fs)]
            solver = S.MateConstraintSolver()
            solved = {}
            version = 0
            gone = False
            D = lambda p, n: dat[PARTS.index(p)][DN.index(n)]
            for i, o in enumerate(plan["ops"]):
                k, x = o["op"], o["m"]
                m, mate, fm, face = ms[x], mates[x], fs[x], faces[x]
                r.t(i, k, x, o.get("f"))
                pose = None if o["pose"] is None else np.array(tf(o["pose"]))
                e = None
                if k == "reg":
                    version += 1
                    dat[o["p"]][o["d"]] = dict(o["datum"])
                    put()
                    new = self.mk(o["p"], o["d"], o["datum"])
                    pn = PARTS[o["p"]]
                    if o["how"] == "source":
                        call(Y["R"].register_source, pn, {DN[j]: self.mk(o["p"], j, dat[o["p"]][j]) for j in range(len(DN))})
                    elif o["how"] == "mutate" and not gone:
                        old = Y["R"].get_datum(pn, DN[o["d"]])
                        for f in ("datum_type", "origin", "normal", "direction", "radius"):
                            setattr(old, f, getattr(new, f))
                    elif not gone:
                        call(Y["R"].register_datum, pn, new)
                elif k == "edit":
                    version += 1
                    m[o["f"]] = o["v"]
                    if o["f"] == "type":
                        mate.mate_type = Y["MT"][o["v"]]
                    else:
                        setattr(mate, o["f"], o["v"])
                elif k == "fedit":
                    f = o["f"]
                    v = o["v"]
                    if f == "type" and v not in ("COINCIDENT", "CONCENTRIC", "PARALLEL"):
                        continue
                    version += 1
                    fm[f] = v
                    setattr(face, {"type": "constraint", "part_a": "parent_part", "part_b": "child_part", "datum_a": "parent_datum", "datum_b": "child_datum",
                                   "offset": "offset_distance", "angle": "rotation_about_normal"}[f], Y["MT"][v] if f == "type" else v)
                elif k == "fault":
                    Y["R"].clear()
                    for q, p in enumerate(PARTS[:3]):
                        for j, _ in enumerate(DN):
                            Y["R"].register_datum(p, self.mk(q, j, dat[q][j]))
                    w.fs.arm([{"at": o["d"] + 2 * o["p"], "kind": ["eio", "eacces", "emfile"][x % 3]}])
                    st, v = call(solver.solve_mate, mate, pose, o["axis"])
                    w.fs.disarm()
                    hit = sum(w.fs.fired.values())
                    r.faults.update(w.fs.fired)
                    w.fs.fired.clear()
                    if st != "ok":
                        e = ("solve-raised", f"{m} under a read error: {v!r}")
                    elif v.success:
                        e = self.judge(v, m, D, pose, o["axis"], mate)
                    elif not hit:
                        e = ("solve-failed", f"{m}: {v.error_message}")
                    else:
                        e, v = self.solve_one(solver, mate, m, D, pose, o["axis"])
                elif k == "clear":
                    if o["in"]:
                        Y["R"].clear()
                        a = solver.solve_mate(mate)
                        if a.success and m["part_a"] != m["part_b"]:
                            e = ("solved-without-datums", f"{mate.name} solved although its datums are not registered")
                        fill()
                elif k == "missing":
                    if o["in"]:     # the same mate solved just before, with the datum there
                        call(solver.solve_mate, mate, pose, o["axis"])
                    side = "datum_b" if o["d"] % 2 else "datum_a"
                    keep = getattr(mate, side)
                    setattr(mate, side, "nope")
                    st, v = call(solver.solve_mate, mate, pose, o["axis"])
                    setattr(mate, side, keep)
                    if st != "ok" or v.success:
                        e = ("missing-datum-solved", f"{st} {v!r}")
                elif k == "inval":
                    st, v = call(solver.invalidate_cache, mate.name if o["in"] else None)
                    call(face.invalidate_cache)
                    if st != "ok":
                        e = ("invalidate-failed", repr(v))
                elif k in ("solve", "spoil"):
                    key = (x, o["axis"])
                    if key in solved and solved[key] != version:
                        r.nontrivial = True
                        r.stats["solved_again_after_change"] += 1
                    e, v = self.solve_one(solver, mate, m, D, pose, o["axis"])
                    if e is None and k == "spoil":
                        v.transform[:3, 3] += 100.0
                        v.details["mate_type"] = "x"
                        v.success = False
                        r.faults["caller_modified_result"] += 1
                    r.state(k, m["type"], D(m["part_a"], m["datum_a"])["k"], D(m["part_b"], m["datum_b"])["k"], o["axis"], pose is not None, key in solved)
                    solved[key] = version
                elif k in ("face", "fspoil"):
                    if ("f", x) in solved and solved["f", x] != version:
                        r.nontrivial = True
                    e, v = self.face_one(face, fm, D, pose)
                    if e is None and k == "fspoil":
                        v[:3, 3] += 100.0
                        r.faults["caller_modified_result"] += 1
                    r.state(k, fm["type"], D(fm["part_a"], fm["datum_a"])["k"], D(fm["part_b"], fm["datum_b"])["k"], pose is not None, ("f", x) in solved)
                    solved["f", x] = version
                elif k == "validate":
                    a, b = D(fm["part_a"], fm["datum_a"]), D(fm["part_b"], fm["datum_b"])
                    if fm["offset"] == 0.0 and fm["type"] in ("COINCIDENT", "CONCENTRIC") and a["k"] != "AXIS" and b["k"] != "AXIS":
                        st, v = call(face.validate)
                        if st != "ok" or not v.satisfied:
                            e = ("computed-mate-not-satisfied", f"{face}: {v!r}")
                elif k == "all":
                    poses = {p: np.array(tf(rt_for(plan["seed"], i, q))) for q, p in enumerate(PARTS[:2])}
                    gave = {p: q.copy() for p, q in poses.items()}
                    st, v = call(solver.solve_all, mates, poses)
                    if list(gave) != list(poses) or any((gave[p] != poses[p]).any() for p in gave):
                        e = ("poses-changed", f"solve_all changed the caller's poses {sorted(gave)} to {sorted(poses)}")
                    elif st != "ok" or sorted(v) != sorted(q.name for q in mates):
                        e = ("solve-all-wrong", f"{st} {v!r}")
                    else:
                        for q, mm in zip(mates, ms):
                            e = e or self.judge(v[q.name], mm, D, poses.get(mm["part_a"]), "Z", q)
                elif k == "chain":
                    base = pose if pose is not None else np.eye(4)
                    use = [mates[(x + q) % 4] for q in range(3)]
                    lost = o["p"] if o["d"] == 0 else 3     # this mate of the chain cannot be solved
                    if lost < 3:
                        keep, use[lost].datum_b = use[lost].datum_b, "nope"
                        r.faults["datum_missing_in_chain"] += 1
                    st, v = call(S.solve_mate_chain, use, base, solver if o["in"] else None)
                    if lost < 3:
                        use[lost].datum_b = keep
                    if st != "ok":
                        e = ("chain-failed", repr(v))
                    else:
                        cur = base
                        want = {}
                        for q in range(min(lost, 3)):
                            mm, mt = ms[(x + q) % 4], use[q]
                            ref = S.MateConstraintSolver(use_cache=False).solve_mate(mt, cur)
                            cur = ref.transform
                            want[mm["part_b"]] = cur
                        if list(v) != list(want) or any(abs(v[q] - want[q]).max() > 1e-9 * (1 + abs(want[q]).max()) for q in want):
                            e = ("chain-wrong", f"{ {q: z.tolist() for q, z in v.items()} } != { {q: z.tolist() for q, z in want.items()} }")
                if e:
                    r.v(*e)
                    break
            if not r.stats["solved_again_after_change"]:
                r.nontrivial = False
        return r

    def solve_one(self, solver, mate, m, D, pose, axis):
        st, v = call(solver.solve_mate, mate, pose, axis)
        if st != "ok":
            return ("solve-raised", f"{m}: {v!r}"), None
        return self.judge(v, m, D, pose, axis, mate), v

    def judge(self, v, m, D, pose, axis, mate):
        np, S = Y["np"], Y["S"]
        if not v.success or v.transform is None:
            return ("solve-failed", f"{m}: {v.error_message}")
        ref = S.MateConstraintSolver(use_cache=False).solve_mate(mate, pose, axis)
        if abs(ref.transform - v.transform).max() > 1e-9 * (1 + abs(ref.transform).max()) or v.details != ref.details:
            return ("depends-on-history", f"{m} axis {axis}: {v.transform.tolist()} {v.details}; a fresh solver gives {ref.transform.tolist()} {ref.details}")
        T = v.transform
        if pose is not None:
            T = np.linalg.inv(pose) @ T
        if axis != "Z":
            T = T.copy()
            T[:3, :3] = T[:3, :3] @ S.MATE_AXIS_ROTATIONS[axis].T
        bad = self.relation(m["type"], D(m["part_a"], m["datum_a"]), D(m["part_b"], m["datum_b"]), T, m["offset"] if m["type"] == "DISTANCE" else 0.0)
        if bad:
            return ("mate-not-satisfied", f"{m} axis {axis}: {bad}; {v.transform.tolist()}")
        return None

    def face_one(self, face, m, D, pose):
        np = Y["np"]
        st, v = call(face.compute_transform, pose)
        if st != "ok":
            return ("face-mate-raised", f"{m}: {v!r}"), None
        T = np.linalg.inv(pose) @ v if pose is not None else v
        a, b = D(m["part_a"], m["datum_a"]), D(m["part_b"], m["datum_b"])
        if m["type"] == "PARALLEL" and "AXIS" in (a["k"], b["k"]):
            return None, v
        bad = self.relation(m["type"], a, b, T, m["offset"])
        if bad:
            return ("face-mate-not-satisfied", f"{m}: {bad}; {v.tolist()}"), None
        return None, v


def rt_for(seed, i, q):
    import random
    return rt(random.Random(f"{seed}:{i}:{q}"))


CHECK = C16()
