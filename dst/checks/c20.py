"""C20: an assembly answers for its present parts, transforms, mates and constraints."""
import copy
import json
import math
import random

from ..engine import Check, Result
from ..world import World, call
from .c15 import tf, mul, rt

Y = {}
INST = ["arm", "Arm", "arm_1", "base", "plate/1", "motor"]
DEFS = ["ARM", "BASE", "PLATE"]
DN = ["top", "axis", "hole", "tip", "frame"]
KIND = {"top": "PLANE", "axis": "AXIS", "hole": "CIRCLE", "tip": "POINT", "frame": "FRAME"}
MT = ["COINCIDENT", "CONCENTRIC", "PARALLEL", "PERPENDICULAR", "TANGENT", "DISTANCE", "ANGLE", "RIGID", "REVOLUTE", "PRISMATIC", "CYLINDRICAL", "SPHERICAL", "PLANAR",
      "PIN_SLOT", "UNIVERSAL", "SCREW", "GEAR", "RACK_PINION", "CAM", "SLOT"]
FREE = {"RIGID": 0, "REVOLUTE": 1, "PRISMATIC": 1, "SCREW": 1, "CYLINDRICAL": 2, "PIN_SLOT": 2, "UNIVERSAL": 2, "SPHERICAL": 3, "PLANAR": 3, "COINCIDENT": 3,
        "PARALLEL": 4, "PERPENDICULAR": 5, "TANGENT": 5, "DISTANCE": 5, "ANGLE": 5, "GEAR": 6, "RACK_PINION": 6}
CT = ["FACING", "TANGENT_TO_CIRCLE", "RADIAL_FROM_CENTER", "PARALLEL_TO", "PERPENDICULAR_TO", "AT_RADIUS", "CUSTOM"]
UNIT = {s + a: [(1.0 if s == "+" else -1.0) if a == b else 0.0 for b in "xyz"] for s in "+-" for a in "xyz"}
DIRS = [[0, 0, 1], [1, 0, 0], [0, 1, 0], [0, 0, -1], [0, -1, 0], [1, 1, 0], [0, 3, 4], [2, -1, 2]]
JOINT = {"RIGID": "Fixed", "REVOLUTE": "Revolute", "PRISMATIC": "Prismatic", "SPHERICAL": "Ball"}
FILES = ["/sim/work/tf.json", "/sim/work/chain.json", "/sim/work/none.json"]


def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def gen_datum(rng, name):
    d = {"o": [round(rng.uniform(-20, 20), 2) for _ in range(3)] if rng.random() < 0.7 else [0.0, 0.0, 0.0]}
    k = KIND[name]
    if k != "POINT":
        d["d"] = list(rng.choice(DIRS))
    if k == "FRAME":
        d["d"], d["y"] = rng.choice([([1, 0, 0], [0, 1, 0]), ([0, 0, 2], [1, 0, 0])])
    if k == "CIRCLE":
        d["r"] = rng.choice([1.0, 2.5])
    return d


def gen_constraint(rng):
    c = {"type": rng.choice(CT), "part": rng.choice(INST), "datum": rng.choice(DN), "center": rng.choice([None, [0, 0, 0], [0, 0, 0], [5.0, -3.0, 2.0]]),
         "radius": rng.choice([None, 5.0, 10.0, 12.5]), "direction": rng.choice([None, "inward", "outward", "+z", "-X", "+y", "up"]),
         "axis": rng.choice([None, [0, 0, 1], [0, 2, 0], [1, 1, 0]]), "tol_deg": rng.choice([1.0, 5.0, 30.0]), "tol_mm": rng.choice([0.1, 3.0, 10.0]),
         "severity": rng.choice(["error", "error", "warning", "info"]), "custom": rng.choice(["above", "raises", "none", "changes"])}
    if rng.random() < 0.6:                      # complete
        c.update(center=c["center"] or [0, 0, 0], radius=c["radius"] or 10.0, axis=c["axis"] or [0, 0, 1])
        if c["type"] == "FACING":
            c.update(direction=rng.choice(sorted(UNIT)), datum=rng.choice(["top", "hole"]))
        if c["type"] == "RADIAL_FROM_CENTER":
            c["direction"] = rng.choice(["inward", "outward"])
    return c


def gen_mate(rng):
    t = rng.choice(MT)
    dn = DN if rng.random() < 0.4 else ["axis", "hole"] if t == "CONCENTRIC" else ["axis", "top"] if t in ("PARALLEL", "PERPENDICULAR") else ["top", "hole"]
    a, b = rng.choice(INST), rng.choice(INST)
    return {"type": t, "a": a, "da": rng.choice(dn), "b": b, "db": rng.choice(dn), "angle": rng.choice([0.0, 30.0])}


def gen_file(rng):
    kind = rng.choice(["ok"] * 5 + ["chain"] * 3 + ["one-bad"] * 4 + ["text", "cut", "empty", "list", "no-parts", "parts-list", "gone"])
    parts = rng.sample(INST + ["other"], rng.randint(1, 5))
    return {"kind": kind, "parts": [[p, rt(rng), rng.choice(["flat", "rows", "world"])] for p in parts],
            "bad": [rng.randrange(5), rng.choice(["missing", "short", "ragged", "text", "null", "number", "rows3", "deep", "list"])], "cut": rng.randrange(1, 200)}


def gen_op(rng):
    k = rng.choice(["add"] * 5 + ["place"] * 5 + ["nudge"] * 4 + ["mate"] * 6 + ["constraint"] * 6 + ["cedit"] * 4 + ["medit"] * 2 + ["datum"] * 5 + ["load"] * 2 + ["bolt"] * 2
                   + ["file"] * 3 + ["import"] * 5 + ["world"] * 5 + ["validate"] * 8 + ["raise"] * 3 + ["dof"] * 3 + ["report"] * 3 + ["export"] * 4 + ["intent"] * 2 + ["failed"] * 2)
    o = {"op": k, "asm": rng.choice([0, 0, 0, 1]), "part": rng.choice(INST), "def": rng.choice(DEFS), "n": rng.randrange(100)}
    if k in ("add", "place"):
        o.update(rt=rt(rng) if rng.random() < 0.7 or k == "place" else None, spoil=rng.random() < 0.4, named=rng.random() < 0.85)
    elif k == "nudge":
        o.update(axis=rng.randrange(3), by=round(rng.uniform(-9, 9), 1))
    elif k == "mate":
        o["m"] = gen_mate(rng)
    elif k == "constraint":
        o["c"] = gen_constraint(rng)
    elif k == "cedit":
        o.update(f=rng.choice(["center", "radius", "direction", "axis", "tol_deg", "tol_mm", "severity", "datum", "part"]), c=gen_constraint(rng))
    elif k == "medit":
        o.update(f=rng.choice(["type", "da", "db"]), m=gen_mate(rng))
    elif k == "datum":
        n = rng.choice(DN)
        o.update(name=n, how=rng.choice(["add", "add", "replace", "edit", "edit", "turn", "move", "drop"]), d=gen_datum(rng, n))
    elif k == "file":
        o.update(f=rng.randrange(2), w=gen_file(rng))
    elif k == "import":
        o.update(f=rng.choice([0, 0, 1, 1, 2]), fault=[rng.randrange(4), rng.choice(["eio", "eio_read", "eacces", "emfile"])] if rng.random() < 0.35 else None, path=rng.random() < 0.5)
    elif k in ("world", "validate", "dof", "export"):
        o.update(name=rng.choice(DN), spoil=rng.random() < 0.5)
    elif k == "intent":
        o.update(parts=[rng.choice(INST) for _ in range(rng.randint(1, 5))], params=[rng.choice("abcdefg") * 2 for _ in range(rng.randint(0, 5))], conn=rng.sample(INST, 2))
    return o


class Salted(str):
    """A name whose hash, and so its place in a set, is the simulator's choice."""
    salt = 0

    def __hash__(self):
        return hash((Salted.salt, sum((i + 1) * ord(c) * 2654435761 for i, c in enumerate(self)) * (2 * Salted.salt + 1)))

    def __eq__(self, other):
        return str.__eq__(self, other)


class C20(Check):
    id = "C20"
    runs = {"quick": 8000, "thorough": 200000}
    batch = 20
    shrink_lists = ("ops",)
    rule = "a run with a new trace in which an assembly was asked again after a part, datum, mate or constraint had changed"
    real = ["yapcad.assembly.assembly", "yapcad.assembly.datum", "yapcad.assembly.constraint", "yapcad.assembly.mate", "yapcad.assembly.mechatron_export", "yapcad.assembly.load_case",
            "yapcad.assembly.intent", "yapcad.kinematics (export of a chain)"]
    stub = ["filesystem (in-memory, read errors)", "hash seed (names with a chosen hash)", "clock"]
    assumptions = ["verdicts within 1e-6 of a tolerance are not judged", "constraint names are unique"]
    states_measure = "distinct (operation, constraint or mate type, datum kind, outcome)"

    def preload(self):
        import logging
        import numpy as np
        logging.disable(logging.CRITICAL)
        from yapcad.assembly import assembly, datum, constraint, mate, load_case, intent, mechatron_export
        from yapcad import kinematics
        Y.update(np=np, A=assembly, D=datum, C=constraint, M=mate, L=load_case, I=intent, X=mechatron_export, K=kinematics)

    def gen(self, rng, index, tier):
        ops = [{"op": "add", "asm": 0, "part": p, "def": rng.choice(DEFS), "n": 0, "rt": rt(rng) if rng.random() < 0.8 else None, "spoil": rng.random() < 0.3, "named": True}
               for p in rng.sample(INST, rng.randint(2, 5))]
        more = []
        if rng.random() < 0.3:                      # many constraints, some on the same datum
            cs = [gen_constraint(rng) for _ in range(rng.randint(4, 12))]
            on = [(rng.choice([o["part"] for o in ops]), rng.choice(DN)) for _ in range(3)]
            for c in cs:
                if rng.random() < 0.8:
                    c["part"], c["datum"] = rng.choice(on)
                more.append({"op": "constraint", "asm": 0, "part": c["part"], "def": "ARM", "n": 0, "c": c})
        return {"seed": rng.randrange(1 << 30), "defs": [{n: gen_datum(rng, n) for n in rng.sample(DN, rng.randint(2, 5))} for _ in DEFS],
                "ops": ops + more + [gen_op(rng) for _ in range(rng.randint(5, 35 if tier == "quick" else 100))]}

    # -- the model --------------------------------------------------------
    def world_datum(self, s, part, name):
        d = s["defs"][s["parts"][part]][name]
        T = s["tf"][part]
        w = {"o": [sum(T[i][j] * d["o"][j] for j in range(3)) + T[i][3] for i in range(3)]}
        for f in ("d", "y"):
            if f in d:
                w[f] = unit([sum(T[i][j] * d[f][j] for j in range(3)) for i in range(3)])
        return w

    def verdict(self, s, c):
        """(passed or None when too near to call, error value or None) of constraint c, or 'refused'."""
        if c["part"] not in s["parts"] or c["datum"] not in s["defs"][s["parts"][c["part"]]]:
            return "refused"
        k = KIND[c["datum"]]
        w = self.world_datum(s, c["part"], c["datum"])
        t = c["type"]
        has = k in ("PLANE", "AXIS", "CIRCLE")

        def within(err, tol):
            return (None if abs(err - tol) < 1e-6 else err <= tol), err
        if t == "CUSTOM":
            return {"above": None if abs(w["o"][2]) < 1e-6 else w["o"][2] > 0, "raises": False, "none": False, "changes": True}[c["custom"]], None
        if t in ("PARALLEL_TO", "PERPENDICULAR_TO"):
            if c["axis"] is None or not has:
                return False, None
            dot = min(1.0, abs(sum(a * b for a, b in zip(unit(c["axis"]), w["d"]))))
            return within(math.degrees(math.acos(dot) if t == "PARALLEL_TO" else math.asin(dot)), c["tol_deg"])
        if t == "FACING":
            if k not in ("PLANE", "CIRCLE") or c["direction"] is None or c["direction"].lower() not in UNIT:
                return False, None
            dot = sum(a * b for a, b in zip(UNIT[c["direction"].lower()], w["d"]))
            return within(math.degrees(math.acos(max(-1.0, min(1.0, dot)))), c["tol_deg"])
        if c["center"] is None or t in ("AT_RADIUS", "TANGENT_TO_CIRCLE") and c["radius"] is None:
            return False, None
        x, y = w["o"][0] - c["center"][0], w["o"][1] - c["center"][1]
        rad = math.hypot(x, y)
        if t == "AT_RADIUS":
            return within(abs(rad - c["radius"]), c["tol_mm"])
        if t == "RADIAL_FROM_CENTER" and c["direction"] not in ("inward", "outward"):
            return False, None
        if 1e-12 < rad < 1e-7:
            return None, None
        if rad <= 1e-12 or not has:
            return False, None
        dx, dy = w["d"][:2]
        if t == "TANGENT_TO_CIRCLE":
            n = math.hypot(dx, dy)
            if n < 1e-7:
                return (True if n < 1e-12 else None), None
            return within(math.degrees(math.asin(min(1.0, abs((x * dx + y * dy) / rad / n)))), c["tol_deg"])
        dot = (x * dx + y * dy) / rad * (1 if c["direction"] == "outward" else -1)
        ang = math.degrees(math.acos(max(-1.0, min(1.0, dot))))
        return (None if abs(ang - c["tol_deg"]) < 1e-6 else ang < c["tol_deg"]), None

    @staticmethod
    def suits(m, ka, kb):
        if m == "CONCENTRIC":
            return ka in ("AXIS", "CIRCLE") and kb in ("AXIS", "CIRCLE")
        if m in ("PARALLEL", "PERPENDICULAR"):
            return ka in ("AXIS", "PLANE") and kb in ("AXIS", "PLANE")
        if m == "TANGENT":
            return ka in ("PLANE", "CIRCLE") or kb in ("PLANE", "CIRCLE")
        return True

    def snapshot(self, s):
        parts = []
        for p, d in s["parts"].items():
            ds = []
            for n, v in s["defs"][d].items():
                e = {"name": n, "datum_type": KIND[n].capitalize(), "origin": v["o"]}
                if KIND[n] in ("AXIS",):
                    e["direction"] = v["d"]
                if KIND[n] in ("PLANE", "CIRCLE"):
                    e["normal"] = v["d"]
                if "r" in v:
                    e["radius"] = v["r"]
                ds.append(e)
            parts.append({"id": p, "datums": ds})
        groups = {}
        for m in s["mates"]:
            groups.setdefault((m["a"], m["b"]), []).append(m)
        ifs = []
        for (a, b), ms in groups.items():
            def dat(m):
                return s["defs"][s["parts"][a]].get(m["da"]), KIND[m["da"]]

            def axis(m):
                d, k = dat(m)
                return d["d"] if d and k == "AXIS" else [0, 0, 1]
            motion = next((m for m in ms if m["type"] in JOINT), None)
            j = {"type": JOINT[motion["type"]] if motion else "Fixed"}
            if j["type"] in ("Revolute", "Prismatic"):
                j["axis"] = axis(motion)
            cons = []
            for m in ms:
                if m["type"] in ("CONCENTRIC", "COINCIDENT", "TANGENT", "ANGLE"):
                    v = m["type"].capitalize()
                    if v == "Concentric" and not motion:
                        v = "AxisCoincident"
                    cons.append({"type": v, "parent_datum": m["da"], "child_datum": m["db"]})
                    if v == "Angle":
                        cons[-1]["angle_deg"] = m["angle"]
                elif m["type"] == "PARALLEL":
                    cons.append({"type": "AxisAlign", "child_datum": m["db"], "target_axis": axis(m)})
            e = {"parent_part": a, "child_part": b, "joint": j, "mate_constraints": cons}
            for m in ms:
                d, k = dat(m)
                if d and k in ("PLANE", "CIRCLE"):
                    e["insertion_vector"] = [-x for x in d["d"]]
                    break
            if (a, b) in s["bolts"]:
                e["bolt_pattern"] = s["bolts"][a, b]
            ifs.append(e)
        return parts, ifs, list(s["loads"].values())

    # -- the run ----------------------------------------------------------
    def run(self, plan):
        r = Result()
        with World(plan["seed"]) as w:
            self.w, self.r = w, r
            defs = {n: copy.deepcopy(d) for n, d in zip(DEFS, plan["defs"])}
            PD = {n: Y["D"].PartDefinition(n) for n in DEFS}
            for n in DEFS:
                for k, d in defs[n].items():
                    PD[n].add_datum(self.datum(k, d))
            self.S = [{"parts": {}, "tf": {}, "mates": [], "cons": {}, "loads": {}, "bolts": {}, "defs": defs} for _ in range(2)]
            self.asm = [Y["A"].Assembly(f"asm{i}") for i in range(2)]
            self.live = [{"mates": [], "cons": {}} for _ in range(2)]
            self.PD, self.defs, self.files = PD, defs, {}
            self.asked = self.again = 0
            for i, o in enumerate(plan["ops"]):
                r.t(i, o["op"], o["asm"], o["part"])
                e = getattr(self, "do_" + o["op"])(o, o["asm"], i)
                r.state(o["op"], o.get("c", {}).get("type"), o.get("m", {}).get("type"), o.get("how"), o.get("name"), self.asked % 2, None if e is None else e[0])
                if e:
                    r.v(*e)
                    break
                e = self.present()
                if e:
                    r.v(e[0], f"after {o['op']}: {e[1]}")
                    break
            r.nontrivial = bool(self.again)
            r.faults.update(w.fs.fired)
        return r

    def datum(self, name, d):
        k = KIND[name]
        kw = {"origin": list(d["o"])}
        if k in ("AXIS",):
            kw["direction"] = list(d["d"])
        if k in ("PLANE", "CIRCLE"):
            kw["normal"] = list(d["d"])
        if k == "CIRCLE":
            kw["radius"] = d["r"]
        if k == "FRAME":
            kw.update(x_axis=list(d["d"]), y_axis=list(d["y"]))
        return Y["D"].Datum(name, Y["D"].DatumType[k], **kw)

    def present(self):
        """The assemblies hold exactly what was accepted."""
        for n, a in enumerate(self.asm):
            s, l = self.S[n], self.live[n]
            if list(a.parts) != list(s["parts"]) or any(a.parts[p] is not self.PD[d] for p, d in s["parts"].items()) or list(a.transforms) != list(s["tf"]):
                return "parts-wrong", f"{list(a.parts)} {list(a.transforms)} != {s['parts']}"
            for p, T in s["tf"].items():
                if abs(Y["np"].asarray(a.transforms[p], dtype=float) - Y["np"].array(T)).max() > 1e-9:
                    return "transform-wrong", f"{p}: {Y['np'].asarray(a.transforms[p]).tolist()} != {T}"
            if [m for m in a.mates] != l["mates"] or [c.name for c in a.constraints] != list(s["cons"]) or any(c is not l["cons"][c.name] for c in a.constraints):
                return "mates-or-constraints-wrong", f"{[m.name for m in a.mates]} {[c.name for c in a.constraints]}"
            for p in INST[:3]:
                for q in INST[:3]:
                    if (a.get_bolt_pattern(p, q) is None) != ((p, q) not in s["bolts"]):
                        return "bolt-pattern-wrong", f"{p} {q}: {a.get_bolt_pattern(p, q)} in {list(s['bolts'])}"
            if list(a.load_cases) != list(s["loads"]) or list(a.bolt_patterns) != list(s["bolts"]):
                return "registries-wrong", f"{list(a.load_cases)} {list(a.bolt_patterns)}"
        for d in DEFS:
            if list(self.PD[d].datums) != list(self.defs[d]):
                return "datums-wrong", f"{d}: {list(self.PD[d].datums)}"
            for k, v in self.defs[d].items():
                got = self.coords(self.PD[d].datums[k])
                if self.far(got, {f: v[f] for f in ("o", "d", "y") if f in v}):
                    return "datum-changed", f"{d}.{k}: {got} != {v}"
        return None

    @staticmethod
    def coords(d):
        o = {"o": list(d.origin[:3])}
        for f in ("direction", "normal", "x_axis"):
            if getattr(d, f) is not None:
                o["d"] = list(getattr(d, f)[:3])
        if d.y_axis is not None:
            o["y"] = list(d.y_axis[:3])
        return o

    @staticmethod
    def far(a, b):
        return sorted(a) != sorted(b) or any(len(a[f]) != len(b[f]) or any(abs(x - y) > 1e-6 for x, y in zip(a[f], b[f])) for f in b)

    def refused(self, st, v, what):
        if st == "exc" and isinstance(v, Y["A"].AssemblyError):
            return None
        return "not-refused", f"{what}: {st} {v!r}"

    def touched(self):
        self.asked |= 1

    def question(self):
        if self.asked & 1 and self.asked > 1:
            self.again += 1
        self.asked = 2

    def do_add(self, o, n, i):
        s = self.S[n]
        name = o["part"] if o["named"] else o["def"]
        M = None if o["rt"] is None else Y["np"].array(tf(o["rt"]))
        st, v = call(self.asm[n].add_part, self.PD[o["def"]], o["part"] if o["named"] else None, M)
        if name in s["parts"]:
            return self.refused(st, v, f"adding {name} again")
        if st != "ok":
            return "add-part-failed", repr(v)
        s["parts"][name] = o["def"]
        s["tf"][name] = [list(x) for x in (tf(o["rt"]) if o["rt"] else [[float(a == b) for b in range(4)] for a in range(4)])]
        if M is not None and o["spoil"]:
            M[:3, 3] += 50.0
            self.r.faults["caller_modified_argument"] += 1
        self.touched()

    def do_place(self, o, n, i):
        if o["part"] in self.S[n]["parts"]:
            self.asm[n].transforms[o["part"]] = Y["np"].array(tf(o["rt"]))
            self.S[n]["tf"][o["part"]] = [list(x) for x in tf(o["rt"])]
            self.touched()

    def do_nudge(self, o, n, i):
        if o["part"] in self.S[n]["parts"]:
            self.asm[n].transforms[o["part"]][o["axis"], 3] += o["by"]
            self.S[n]["tf"][o["part"]][o["axis"]][3] += o["by"]
            self.touched()

    def do_mate(self, o, n, i):
        m, s = o["m"], self.S[n]
        mate = Y["M"].Mate(name=f"m{i}", mate_type=Y["M"].MateType[m["type"]], part_a=m["a"], datum_a=m["da"], part_b=m["b"], datum_b=m["db"], angle=m["angle"])
        st, v = call(self.asm[n].add_mate, mate)
        ok = all(p in s["parts"] and d in s["defs"][s["parts"][p]] for p, d in ((m["a"], m["da"]), (m["b"], m["db"]))) and self.suits(m["type"], KIND[m["da"]], KIND[m["db"]])
        if not ok:
            return self.refused(st, v, f"{m}")
        if st != "ok":
            return "add-mate-failed", f"{m}: {v!r}"
        s["mates"].append(dict(m, name=f"m{i}"))
        self.live[n]["mates"].append(mate)
        self.touched()

    def validator(self, kind):
        def f(d):
            if kind == "raises":
                raise RuntimeError("broken validator")
            if kind == "changes":
                d.origin[0] += 7.0
                d.direction = d.normal = [0, 0, 1, 0]
                return True
            return d.origin[2] > 0
        return None if kind == "none" else f

    def do_constraint(self, o, n, i):
        c, s = o["c"], self.S[n]
        con = Y["C"].Constraint(name=f"c{i}", constraint_type=Y["C"].ConstraintType[c["type"]], part=c["part"], datum=c["datum"], center=c["center"], radius=c["radius"],
                                direction=c["direction"], axis=c["axis"], tolerance_deg=c["tol_deg"], tolerance_mm=c["tol_mm"], severity=c["severity"],
                                validator=self.validator(c["custom"]))
        st, v = call(self.asm[n].add_constraint, con)
        if c["part"] not in s["parts"] or c["datum"] not in s["defs"][s["parts"][c["part"]]]:
            return self.refused(st, v, f"{c}")
        if st != "ok":
            return "add-constraint-failed", f"{c}: {v!r}"
        s["cons"][con.name] = dict(c)
        self.live[n]["cons"][con.name] = con
        self.touched()

    def do_cedit(self, o, n, i):
        s = self.S[n]
        if not s["cons"]:
            return
        k = sorted(s["cons"])[o["n"] % len(s["cons"])]
        f = o["f"]
        s["cons"][k][f] = o["c"][f]
        setattr(self.live[n]["cons"][k], {"tol_deg": "tolerance_deg", "tol_mm": "tolerance_mm"}.get(f, f), o["c"][f])
        self.touched()

    def do_medit(self, o, n, i):
        s = self.S[n]
        if not s["mates"]:
            return
        k = o["n"] % len(s["mates"])
        f = o["f"]
        s["mates"][k][f] = o["m"][f]
        m = self.live[n]["mates"][k]
        if f == "type":
            m.mate_type = Y["M"].MateType[o["m"]["type"]]
        else:
            setattr(m, {"da": "datum_a", "db": "datum_b"}[f], o["m"][f])
        self.touched()

    def do_datum(self, o, n, i):
        name, D, P = o["name"], self.defs[o["def"]], self.PD[o["def"]]
        if o["how"] == "add":
            st, v = call(P.add_datum, self.datum(name, o["d"]))
            if name in D:
                return None if st == "exc" and isinstance(v, ValueError) else ("not-refused", f"adding datum {name} again: {st} {v!r}")
            if st != "ok":
                return "add-datum-failed", repr(v)
            D[name] = copy.deepcopy(o["d"])
        elif name not in D:
            return
        elif o["how"] == "drop":
            del D[name], P.datums[name]
        else:
            want = copy.deepcopy(o["d"])
            if o["how"] == "turn":
                want["o"] = list(D[name]["o"])
            elif o["how"] == "move":
                want = dict(copy.deepcopy(D[name]), o=want["o"])
            new = self.datum(name, want)
            if o["how"] == "replace":
                P.datums[name] = new
            else:
                for f in ("origin", "direction", "normal", "x_axis", "y_axis", "radius"):
                    setattr(P.datums[name], f, getattr(new, f))
            D[name] = want
        self.touched()

    def do_load(self, o, n, i):
        s, L = self.S[n], Y["L"]
        part = "_assembly" if o["n"] % 4 == 0 else o["part"]
        lc = L.LoadCase(id=f"lc{o['n'] % 5}", name=f"case {i}", group="custom", direction=[0.0, 0.0, 1.0], attach=L.LoadAttach(part=part, position=[1.0, 2.0, float(i)]), magnitude_n=10.0 * o["n"])
        st, v = call(self.asm[n].add_load_case, lc)
        if part != "_assembly" and part not in s["parts"] or lc.id in s["loads"]:
            return self.refused(st, v, f"load case {lc.id} on {part}")
        if st != "ok":
            return "add-load-failed", repr(v)
        s["loads"][lc.id] = {"id": lc.id, "name": f"case {i}", "magnitude_n": 10.0 * o["n"], "attach": {"part": part, "position": [1.0, 2.0, float(i)]}}
        got = self.asm[n].get_load_case(lc.id)
        if got is not lc or self.asm[n].get_load_case("none") is not None:
            return "load-case-wrong", f"{lc.id}: {got}"

    def do_bolt(self, o, n, i):
        s, L = self.S[n], Y["L"]
        a, b = o["part"], INST[o["n"] % (3 if o["n"] < 50 else len(INST))]
        bp = L.BoltPattern(pcd_mm=20.0 + i, n_bolts=4, bolt_spec=f"M{i}", access_direction=[0.0, 0.0, 1.0])
        st, v = call(self.asm[n].add_bolt_pattern, a, b, bp)
        if a not in s["parts"] or b not in s["parts"] or (a, b) in s["bolts"]:
            return self.refused(st, v, f"bolt pattern {a} {b}")
        if st != "ok":
            return "add-bolt-failed", repr(v)
        s["bolts"][a, b] = {"pcd_mm": 20.0 + i, "n_bolts": 4, "bolt_spec": f"M{i}", "access_direction": [0.0, 0.0, 1.0]}
        if self.asm[n].get_bolt_pattern(a, b) is not bp:
            return "bolt-pattern-wrong", f"{a} {b}"

    def do_file(self, o, n, i):
        f, g = FILES[o["f"]], o["w"]
        kind = g["kind"]
        if kind == "gone":
            if self.w.fs.has(f):
                self.w.fs.rm(f)
            self.files[f] = None
            return
        good = {}
        if kind == "chain":
            K = Y["K"]
            ch = K.KinematicChain("c")
            prev, acc = "GLOBAL_DATUM", [[float(a == b) for b in range(4)] for a in range(4)]
            try:
                for p, x, _ in g["parts"]:
                    ch.add_part(self.chain_part(p, prev, x))
                    prev = p
                    acc = mul(acc, tf(x))
                    good[p] = acc
                ch.export_json(f)
            except Exception as e:
                return "chain-export-failed", repr(e)
            self.files[f] = good
            return
        data = {}
        for j, (p, x, how) in enumerate(g["parts"]):
            T = [list(q) for q in tf(x)]
            data[p] = {"transform": sum(T, [])} if how == "flat" else {"transform": T} if how == "rows" else {"parent": "DATUM", "world_transform": {"translation": [9, 9, 9], "matrix": T}}
            good[p] = T
        if kind == "one-bad":
            p = g["parts"][g["bad"][0] % len(g["parts"])][0]
            T = good[p]
            data[p] = {"missing": {"name": p}, "short": {"transform": sum(T, [])[:15]}, "ragged": {"transform": [T[0], T[1], T[2][:3], T[3]]}, "text": {"transform": "identity"},
                       "null": {"transform": None}, "number": {"transform": 4}, "rows3": {"transform": T[:3]}, "deep": {"transform": [[[1], [2], [3], [4]]] * 4}, "list": [1, 2]}[g["bad"][1]]
            good[p] = "bad"
        text = json.dumps({"name": "c", "parts": data})
        if kind == "text":
            text, good = "not json", None
        elif kind == "cut":
            text, good = text[:min(len(text) - 1, g["cut"])], None
        elif kind == "empty":
            text, good = "", None
        elif kind == "list":
            text, good = json.dumps([data]), None
        elif kind == "no-parts":
            text, good = json.dumps(data), None
        elif kind == "parts-list":
            text, good = json.dumps({"parts": list(data)}), None
        self.w.fs.put(f, text.encode())
        self.files[f] = good

    def chain_part(self, name, parent, x):
        K = Y["K"]
        return K.KinematicPart(name=name, parent=parent, parent_frame="ORIGIN", joint=K.Joint(name=name + "_j", base_transform=K.Transform.from_matrix(tf(x))))

    def do_import(self, o, n, i):
        s, f = self.S[n], FILES[o["f"]]
        if o["fault"]:
            self.w.fs.arm([{"at": o["fault"][0], "kind": o["fault"][1]}])
        from pathlib import Path
        st, v = call(self.asm[n].import_transforms_from_kinematic_chain, Path(f) if o["path"] else f)
        self.w.fs.disarm()
        hit = sum(c for k, c in self.w.fs.fired.items())
        self.r.faults.update(self.w.fs.fired)
        self.w.fs.fired.clear()
        good = self.files.get(f)
        want = None if good is None else {p: T for p, T in good.items() if p in s["parts"]}
        if want is None or "bad" in want.values():
            return self.refused(st, v, f"importing {good}")
        if st != "ok":
            return self.refused(st, v, "import under a read error") if hit else ("import-failed", f"{want}: {v!r}")
        for p, T in want.items():
            s["tf"][p] = [list(x) for x in T]
        if want:
            self.touched()

    def do_world(self, o, n, i):
        s = self.S[n]
        st, v = call(self.asm[n].get_transformed_datum, o["part"], o["name"])
        if o["part"] not in s["parts"] or o["name"] not in s["defs"][s["parts"][o["part"]]]:
            return self.refused(st, v, f"{o['part']}.{o['name']}")
        if st != "ok":
            return "world-datum-failed", repr(v)
        self.question()
        want = self.world_datum(s, o["part"], o["name"])
        got = self.coords(v)
        if self.far(got, want) or v.name != o["name"] or v.datum_type.name != KIND[o["name"]] or v.radius != s["defs"][s["parts"][o["part"]]][o["name"]].get("r"):
            return "world-datum-wrong", f"{o['part']}.{o['name']}: {got} != {want}"
        if o["spoil"]:
            v.origin[0] += 5
            v.name = "spoiled"
            v.tags.append("x")
            for f in ("direction", "normal", "x_axis"):
                if getattr(v, f):
                    getattr(v, f)[0] += 3
            self.r.faults["caller_modified_result"] += 1

    def verdicts(self, s):
        out = {}
        for k, c in s["cons"].items():
            out[k] = self.verdict(s, c)
            if out[k] == "refused":
                return None
        return out

    def do_validate(self, o, n, i):
        s = self.S[n]
        want = self.verdicts(s)
        st, v = call(self.asm[n].validate)
        if want is None:
            return self.refused(st, v, "validating a constraint whose part or datum is gone")
        if st != "ok":
            return "validate-failed", repr(v)
        if s["cons"]:
            self.question()
        if list(v.constraint_results) != list(want):
            return "verdicts-missing", f"{list(v.constraint_results)} != {list(want)}"
        for k, (ok, err) in want.items():
            g = v.constraint_results[k]
            if ok is not None and bool(g.passed) != ok or err is not None and abs(g.error_value - err) > 1e-3:
                return "verdict-wrong", f"{k} {s['cons'][k]}: {g}, but it is {ok} {err}"
        fails = [k for k in want if not v.constraint_results[k].passed]
        errs = [k for k in fails if s["cons"][k]["severity"] == "error"]
        if v.is_valid != (not errs) or v.failed_constraints != errs:
            return "validity-wrong", f"{v.is_valid} {v.failed_constraints} != {errs}"
        warn = [k for k in fails if s["cons"][k]["severity"] == "warning"]
        if len(v.warnings) != len(warn) or any(not x.startswith(k + ":") for k, x in zip(warn, v.warnings)):
            return "warnings-wrong", f"{v.warnings} != {warn}"
        st, text = call(v.report)
        if st != "ok" or any(k not in text for k in want) or ("INVALID" in text) != bool(errs):
            return "validation-report-wrong", f"{text!r}"
        if o["spoil"]:
            v.constraint_results.clear()
            v.failed_constraints.append("x")
            self.r.faults["caller_modified_result"] += 1

    def do_raise(self, o, n, i):
        s = self.S[n]
        want = self.verdicts(s)
        st, v = call(self.asm[n].validate_and_raise)
        if want is None:
            return self.refused(st, v, "validating a constraint whose part or datum is gone")
        if any(x[0] is None for x in want.values()):
            return
        errs = [k for k, x in want.items() if not x[0] and s["cons"][k]["severity"] == "error"]
        if not errs:
            return None if st == "ok" else ("raised-though-valid", repr(v))
        e = self.refused(st, v, f"raising for {errs}")
        if e:
            return e
        if any(f"{k}: " not in str(v) for k in errs):
            return "failure-not-named", f"{errs}: {v}"

    def do_dof(self, o, n, i):
        s = self.S[n]
        st, v = call(self.asm[n].get_degrees_of_freedom)
        if st != "ok":
            return "dof-failed", repr(v)
        if any(m["type"] in ("CAM", "SLOT") for m in s["mates"]):
            return
        want = {p: max(0, 6 - sum(6 - FREE.get(m["type"], 6) for m in s["mates"] if m["b"] == p)) for p in s["parts"]}
        skip = {m["b"] for m in s["mates"] if m["type"] == "CONCENTRIC"}         # 2 or 4: the documents differ
        if list(v) != list(want) or any(v[p] != want[p] for p in want if p not in skip) or any(not 0 <= x <= 6 for x in v.values()):
            return "dof-wrong", f"{v} != {want}"
        if s["mates"]:
            self.question()
        if o["spoil"]:
            v.clear()
            self.r.faults["caller_modified_result"] += 1

    def do_report(self, o, n, i):
        s = self.S[n]
        st, v = call(self.asm[n].report)
        if st != "ok":
            return "report-failed", repr(v)
        names = list(s["parts"]) + [m["name"] for m in s["mates"]] + list(s["cons"])
        if any(x not in v for x in names):
            return "report-incomplete", f"{[x for x in names if x not in v]} not in {v!r}"
        want = self.verdicts(s)
        if want is None:
            return None if "ERROR" in v else ("report-hides-error", v)
        if "ERROR" in v:
            return "report-error", v
        if any(x[0] is None for x in want.values()):
            return
        errs = [k for k, x in want.items() if not x[0] and s["cons"][k]["severity"] == "error"]
        if ("INVALID" in v) != bool(errs) or any(f"FAILED: {k} " not in v for k in errs) or v.count("FAILED: ") != len(errs):
            return "report-wrong", f"{errs}: {v}"

    def do_export(self, o, n, i):
        s = self.S[n]
        if any(m[d] not in s["defs"][s["parts"][m[p]]] or not self.suits(m["type"], KIND[m["da"]], KIND[m["db"]]) for m in s["mates"] for p, d in (("a", "da"), ("b", "db"))):
            return
        st, v = call(Y["X"].to_mechatron_snapshot, self.asm[n])
        st2, t = call(Y["X"].to_mechatron_json, self.asm[n])
        if st != "ok" or st2 != "ok":
            return "export-failed", f"{v!r} {t!r}"
        if json.loads(t) != json.loads(json.dumps(v)):
            return "json-differs", t
        parts, ifs, loads = self.snapshot(s)
        if s["parts"]:
            self.question()
        e = self.like(v["parts"], parts, "parts") or self.like(v["interfaces"], ifs, "interfaces") or self.like(v.get("load_cases", []), loads, "load_cases")
        if e:
            return "export-wrong", e
        if len({x["id"] for x in v["interfaces"]}) != len(ifs):
            return "export-wrong", f"interface ids {[x['id'] for x in v['interfaces']]}"
        for x, want in zip(v["interfaces"], ifs):
            if ("insertion_vector" in x) != ("insertion_vector" in want) or ("bolt_pattern" in x) != ("bolt_pattern" in want):
                return "export-wrong", f"{x} != {want}"
        if o["spoil"]:
            self.wreck(v)
            self.r.faults["caller_modified_result"] += 1

    def wreck(self, v):
        for x in list(v.values()) if isinstance(v, dict) else list(v):
            if isinstance(x, (dict, list)):
                self.wreck(x)
        v.clear()

    def like(self, got, want, at):
        """None, or where got lacks what want holds (vectors may be dicts of x, y, z)."""
        if isinstance(want, dict):
            if not isinstance(got, dict):
                return f"{at}: {got!r}"
            for k in want:
                if k not in got:
                    return f"{at}.{k} missing"
                e = self.like(got[k], want[k], f"{at}.{k}")
                if e:
                    return e
            return None
        if isinstance(want, list):
            if isinstance(got, dict) and set(got) == {"x", "y", "z"}:
                got = [got["x"], got["y"], got["z"]]
            if not isinstance(got, list) or len(got) != len(want):
                return f"{at}: {got!r} != {want!r}"
            for j, (a, b) in enumerate(zip(got, want)):
                e = self.like(a, b, f"{at}[{j}]")
                if e:
                    return e
            return None
        if isinstance(want, (int, float)):
            return None if isinstance(got, (int, float)) and abs(got - want) < 1e-6 else f"{at}: {got!r} != {want!r}"
        return None if got == want else f"{at}: {got!r} != {want!r}"

    def do_intent(self, o, n, i):
        I = Y["I"]
        out = []
        for salt in (1, 2 + o["n"]):
            Salted.salt = salt
            a = I.AssemblyIntent(name="x", derived_parameters=[Salted(p) for p in o["params"]])
            for j, p in enumerate(o["parts"]):
                a.add_requirement(I.ContactRequirement(name=f"r{j}", part=Salted(p), surface="s", target="wall") if j % 2 else I.ReachRequirement(name=f"r{j}", part=Salted(p)))
            a.add_connection(I.Connection(parent=Salted(o["conn"][0]), child=Salted(o["conn"][1])))
            got = [call(a.collect_derived_parameters), call(a.validate), call(a.collect_constraints), call(a.report)]
            if any(st != "ok" for st, _ in got):
                return "intent-failed", f"{got!r}"
            out.append([[str(x) for x in v] if isinstance(v, list) else v for _, v in got])
        self.r.faults["hash_seed_changed"] += 1
        if out[0] != out[1]:
            return "intent-order-depends-on-hash", f"{out[0]} != {out[1]}"
        want = set(o["params"]) | {x for j, p in enumerate(o["parts"]) for x in ((f"{p}.contact_radius", f"{p}.contact_position") if j % 2 else (f"{p}.link_length", "total_reach"))}
        if sorted(out[0][0]) != sorted(want):
            return "intent-parameters-wrong", f"{out[0][0]} != {sorted(want)}"

    def do_failed(self, o, n, i):
        """A request with something unknown in it is refused."""
        a = self.asm[n]
        k = o["n"] % 3
        if k == 0:
            return self.refused(*call(a.get_transformed_datum, "nobody", "top"), "nobody")
        if k == 1:
            return self.refused(*call(a.add_bolt_pattern, "nobody", o["part"], Y["L"].BoltPattern(10.0, 3, "M3", [0, 0, 1])), "bolt pattern on nobody")
        return self.refused(*call(a.import_transforms_from_kinematic_chain, "/sim/work"), "importing a directory")


CHECK = C20()
