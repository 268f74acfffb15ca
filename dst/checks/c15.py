"""C15: kinematic chains: transforms are never stale, refusals change nothing, export/import is faithful and whole."""
import json
import math
import os
import random

from ..engine import Check, Result
from ..explore import Explorer, gen_branch
from ..peer import Peer
from ..world import World, call

TYPES = ["fixed", "revolute", "prismatic", "cylindrical", "spherical"]
F = "/sim/work/out/chain.json"
Y = {}


def ident():
    return [[1.0 if i == j else 0.0 for j in range(4)] for i in range(4)]


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(4)) for j in range(4)] for i in range(4)]


def inv(m):
    r = [[m[j][i] for j in range(3)] for i in range(3)]
    t = [-sum(r[i][k] * m[k][3] for k in range(3)) for i in range(3)]
    return [r[0] + [t[0]], r[1] + [t[1]], r[2] + [t[2]], [0.0, 0.0, 0.0, 1.0]]


def trans(x, y, z):
    m = ident()
    m[0][3], m[1][3], m[2][3] = x, y, z
    return m


def rot(axis, deg):
    n = math.sqrt(sum(a * a for a in axis))
    if n < 1e-10:
        return ident()
    x, y, z = (a / n for a in axis)
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    q = 1 - c
    return [[c + x * x * q, x * y * q - z * s, x * z * q + y * s, 0.0],
            [y * x * q + z * s, c + y * y * q, y * z * q - x * s, 0.0],
            [z * x * q - y * s, z * y * q + x * s, c + z * z * q, 0.0], [0.0, 0.0, 0.0, 1.0]]


def tf(t):
    """t = [x, y, z, ax, ay, az, deg] -> matrix"""
    return mul(trans(*t[:3]), rot(t[3:6], t[6]))


def motion(j):
    k, a, v = j["type"], j["axis"], j["value"]
    if k in ("revolute", "cylindrical"):
        return rot(a, v)
    if k == "prismatic":
        n = math.sqrt(sum(q * q for q in a))
        u = [q / n for q in a] if n > 1e-10 else a
        return trans(*(q * v for q in u))
    return ident()


def far(a, b):
    s = max(1.0, max(abs(x) for r in a for x in r))
    return not all(abs(a[i][j] - b[i][j]) <= 1e-7 * s for i in range(4) for j in range(4))


class Model:
    """Parts in the order added; poses recomputed from scratch on every question."""

    def __init__(self):
        self.p = {}

    def world(self, name, frame="ORIGIN"):
        if name == "GLOBAL_DATUM":
            return ident()
        p = self.p[name]
        m = mul(mul(self.world(p["parent"], p["pframe"]), tf(p["joint"]["base"])), motion(p["joint"]))
        if frame != "ORIGIN" and frame in p["frames"]:
            m = mul(m, tf(p["frames"][frame]))
        return m


def rt(rng):
    a = rng.choice([(0, 0, 1), (1, 0, 0), (0, 1, 0), (1, 1, 0), (1, -2, 3)])
    return [round(rng.uniform(-50, 50), 2) for _ in range(3)] + list(a) + [rng.choice([0, 0, 30, 90, -45, 180, round(rng.uniform(-180, 180), 2)])]


def gen_op(rng):
    k = rng.choice(["add"] * 6 + ["set"] * 5 + ["direct"] * 4 + ["frame"] * 4 + ["base", "axis", "newjoint", "type", "nudge", "props", "late", "dup", "orphan", "unknown", "datum", "redatum",
                   "export", "roundtrip", "remote", "dictround"] + ["q"] * 6 + ["qrel"] * 2 + ["qall"] * 2 + ["spoil"] * 2)
    o = {"op": k, "i": rng.randrange(12), "j": rng.randrange(12), "f": rng.randrange(4), "g": rng.randrange(4)}
    if k in ("add", "frame", "base", "datum", "redatum", "newjoint", "late"):
        o["t"] = rt(rng)
    if k == "nudge":
        o["d"] = rng.choice([0.0004, -0.0003, 0.01, 0.04])
        o["how"] = rng.choice(["base", "value", "frame"])
    if k in ("add", "newjoint", "type"):
        o["type"] = rng.choice(TYPES + ["revolute", "revolute", "prismatic"])
        o["axis"] = rng.choice([[0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 2, 2], [0, 0, -3], [0, 0, 0], [0.3, 0, 0.4]])
        o["lim"] = rng.choice([[-180.0, 180.0], [-90.0, 90.0], [0.0, 10.0], [-5.0, 400.0], [5.0, 10.0], [-9.0, -1.0]])
        o["root"] = rng.random() < 0.15
        o["nm"] = rng.randrange(1000)
    if k == "axis":
        o["axis"] = rng.choice([[1, 0, 0], [0, 1, 0], [0, 3, 4]])
    if k in ("set", "direct"):
        o["v"] = rng.choice([0.0, 45.0, 90.0, -30.0, 200.0, -720.0, 5.0, 1e-6, 12.3456789012, round(rng.uniform(-200, 400), 3)])
        o["clamp"] = rng.random() < 0.6
    if k == "direct":
        o["how"] = rng.choice(["attr", "set_value"])
    if k in ("export", "roundtrip"):
        o["branches"] = [gen_branch(rng) for _ in range(2)]
    return o


NAMES = ["A", "B", "ARM", "LINK_1", "LINK_10", "ZED", "wrist", "ünï", "tool-7", "b", "p0", "p1", "p2", "p3", "FOREARM", "M"]
FR = ["MOUNT", "END", "TIP", "F 4"]


class C15(Check):
    id = "C15"
    runs = {"quick": 5000, "thorough": 100000}
    batch = 8
    shrink_lists = ("ops",)
    rule = "a run with a new trace that moved a joint or frame after a transform had been queried"
    real = ["yapcad.kinematics", "yapcad.assembly.datum_registry", "two real interpreters with different hash seeds"]
    stub = ["filesystem (in-memory, crash/torn/error model)", "clock"]
    assumptions = ["transforms are rigid", "after a datum is re-registered the frame bound to it is invalidated, as its documentation asks"]
    states_measure = "distinct (operation, depth of the part, joint kind, number of children, was queried before)"
    peer = None

    def preload(self):
        self.peer = Peer(self.id, random.Random(os.environ.get("VERIF_SEED", "1")).randrange(1, 4_000_000_000))
        self.preload_peer()
        assert self.peer.ready()

    def preload_peer(self):
        import numpy as np
        from yapcad import kinematics as K
        from yapcad.assembly.datum_registry import DatumRegistry
        from yapcad.assembly.datum import Datum, DatumType
        Y.update(K=K, np=np, R=DatumRegistry, Datum=Datum, DT=DatumType)

    def side(self, req):
        c = Y["K"].KinematicChain.from_dict(req["data"])
        return {"parts": list(c.parts), "kids": {n: list(c.get_children(n)) for n in c.parts},
                "world": {n: t.matrix.tolist() for n, t in c.get_all_world_transforms().items()}}

    def gen(self, rng, index, tier):
        n = rng.randint(6, 22 if tier == "quick" else 60)
        return {"seed": rng.randrange(1 << 30), "ops": [{"op": "add", "i": rng.randrange(12), "j": 0, "f": rng.randrange(4), "g": 0, "t": rt(rng),
                "type": rng.choice(["revolute", "prismatic"]), "axis": [0, 0, 1], "lim": [-180.0, 180.0], "root": False, "nm": rng.randrange(1000)}
                for _ in range(rng.randint(1, 3))] + [gen_op(rng) for _ in range(n)]}

    def T(self, t):
        return Y["K"].Transform.from_matrix(tf(t))

    def run(self, plan):
        r = Result()
        K = Y["K"]
        with World(plan["seed"]) as w:
            w.fs.mkdirs("/sim/work")
            Y["R"].clear()
            chain = K.KinematicChain(["c", " two words ", "é"][plan["seed"] % 3])
            m = Model()
            seen = set()
            moved = False
            for i, o in enumerate(plan["ops"]):
                e = self.step(i, o, w, r, chain, m, seen, plan)
                if isinstance(e, tuple):
                    r.v(*e)
                    break
                if e == "moved" and seen:
                    moved = True
                e = self.agree(chain, m, r, i, o)
                if e:
                    r.v(*e)
                    break
            r.nontrivial = moved
            r.sim_time = w.sim_time
        return r

    def agree(self, chain, m, r, i, o):
        """The shape of the tree (transforms are compared only when asked for, so as not to disturb caches)."""
        if list(chain.parts) != ["GLOBAL_DATUM"] + list(m.p):
            return ("parts-differ", f"after {o['op']}: {list(chain.parts)} != {list(m.p)}")
        for n in m.p:
            kids = [q for q in m.p if m.p[q]["parent"] == n]
            if list(chain.get_children(n)) != kids:
                return ("children-differ", f"after {o['op']}: {n}: {chain.get_children(n)} != {kids}")
        return None

    def check_world(self, chain, m, n, f):
        st, v = call(chain.get_world_transform, n, f)
        if st != "ok":
            return ("transform-refused", f"{n}.{f}: {v!r}"), None
        want = m.world(n, f)
        if far(want, v.matrix.tolist()):
            return ("stale-or-wrong-transform", f"{n}.{f} is {v.matrix.tolist()}, the present joints and frames give {want}"), None
        return None, v

    def step(self, i, o, w, r, chain, m, seen, plan):
        K, k = Y["K"], o["op"]
        names = list(m.p)
        n = names[o["i"] % len(names)] if names else None
        r.t(i, k, n, o.get("v"))
        if k == "add":
            nm = NAMES[o["nm"] % len(NAMES)]
            if nm in m.p:
                nm = f"{nm}{o['nm']}"
            if nm in m.p:
                return
            parent = None if o["root"] or not names else n
            fr = list(m.p[parent]["frames"]) if parent else []
            pf = fr[o["f"] % len(fr)] if fr and o["g"] else "ORIGIN"
            ask = "NOPE" if o["g"] == 3 and o["f"] == 3 else pf
            if ask == "NOPE":
                pf = "ORIGIN"
            part = K.KinematicPart(name=nm, parent=parent, parent_frame=ask, joint=K.Joint("j" + nm, K.JointType(o["type"]), base_transform=self.T(o["t"]),
                                   axis=tuple(o["axis"]), min_limit=o["lim"][0], max_limit=o["lim"][1]))
            st, v = call(chain.add_part, part)
            if st != "ok":
                return ("add-refused", f"{nm} under {parent}.{ask}: {v!r}")
            m.p[nm] = {"parent": parent or "GLOBAL_DATUM", "pframe": pf, "frames": {},
                       "joint": {"type": o["type"], "axis": list(o["axis"]), "value": 0.0, "lim": o["lim"], "base": o["t"]}}
            return
        if n is None:
            return
        p, mp = chain.parts[n], m.p[n]
        d = 0
        a = n
        while a in m.p:
            d, a = d + 1, m.p[a]["parent"]
        r.state(k, min(d, 5), mp["joint"]["type"], len(chain.get_children(n)), n in seen)
        if k in ("set", "direct"):
            lo, hi = mp["joint"]["lim"]
            clamp = o["clamp"] and o.get("how") != "attr"
            if k == "set":
                st, v = call(chain.set_joint_value, n, o["v"], o["clamp"])
            elif o["how"] == "attr":
                st, v = call(setattr, p.joint, "value", o["v"])
            else:
                st, v = call(p.joint.set_value, o["v"], o["clamp"])
            if st != "ok":
                return ("set-refused", f"{n}={o['v']}: {v!r}")
            mp["joint"]["value"] = max(lo, min(hi, o["v"])) if clamp else o["v"]
            if chain.get_joint_value(n) != mp["joint"]["value"]:
                return ("joint-value-wrong", f"{n}: {chain.get_joint_value(n)} != {mp['joint']['value']}")
            return "moved"
        if k == "frame":
            f = FR[o["f"]]
            if f in p.frames and p.frames[f].datum_source is None and o["g"] < 2:
                p.frames[f].transform = self.T(o["t"])
            else:
                call(p.add_frame, f, self.T(o["t"]))
            mp["frames"][f] = o["t"]
            return "moved"
        if k == "base":
            p.joint.base_transform = self.T(o["t"])
            mp["joint"]["base"] = o["t"]
            return "moved"
        if k == "axis":
            p.joint.axis = tuple(o["axis"])
            mp["joint"]["axis"] = o["axis"]
            return "moved"
        if k == "type":
            p.joint.joint_type = K.JointType(o["type"])
            mp["joint"]["type"] = o["type"]
            return "moved"
        if k == "nudge":
            if o["how"] == "value":
                p.joint.value = mp["joint"]["value"] = mp["joint"]["value"] + o["d"]
            elif o["how"] == "base":
                mp["joint"]["base"] = [mp["joint"]["base"][0] + o["d"]] + mp["joint"]["base"][1:]
                p.joint.base_transform = self.T(mp["joint"]["base"])
            else:
                f = FR[o["f"]]
                if f not in p.frames or p.frames[f].datum_source is not None:
                    return
                mp["frames"][f] = [mp["frames"][f][0] + o["d"]] + mp["frames"][f][1:]
                p.frames[f].transform = self.T(mp["frames"][f])
            return "moved"
        if k == "props":
            p.is_printable = bool(o["f"] % 2)
            p.description = ["", "left arm", " x "][o["g"] % 3]
            p.color = (0.25 * o["f"], 0.0, 1.0)
            p.stl_path = [None, "a b.stl"][o["g"] % 2]
            p.material = ["PETG", ""][o["f"] // 2]
            return
        if k == "late":     # the frame is asked for before its datum exists
            f = FR[o["f"]]
            p.frames[f] = K.CoordinateFrame(f, datum_source=f"late{i}", datum_name="d")
            mp["frames"][f] = [0.0, 0.0, 0.0, 0, 0, 1, 0]
            e, _ = self.check_world(chain, m, n, f)
            if e:
                return e
            M = tf(o["t"])
            st, v = call(Y["R"].register_datum, f"late{i}", Y["Datum"]("d", Y["DT"].FRAME, origin=[M[0][3], M[1][3], M[2][3], 1],
                         x_axis=[M[x][0] for x in range(3)] + [0], y_axis=[M[x][1] for x in range(3)] + [0], normal=[M[x][2] for x in range(3)] + [0]))
            if st != "ok":
                return ("datum-refused", repr(v))
            r.faults["datum_registered_late"] += 1
            mp["frames"][f] = o["t"]
            seen.add(n)
            return "moved"
        if k == "newjoint":
            p.joint = K.Joint("n" + n, K.JointType(o["type"]), base_transform=self.T(o["t"]), axis=tuple(o["axis"]), min_limit=o["lim"][0], max_limit=o["lim"][1])
            mp["joint"] = {"type": o["type"], "axis": list(o["axis"]), "value": 0.0, "lim": o["lim"], "base": o["t"]}
            return "moved"
        if k in ("datum", "redatum"):
            f = FR[o["f"]]
            M = tf(o["t"])
            d = Y["Datum"](f"d{o['f']}", Y["DT"].FRAME, origin=[M[0][3], M[1][3], M[2][3], 1], x_axis=[M[x][0] for x in range(3)] + [0], y_axis=[M[x][1] for x in range(3)] + [0],
                           normal=[M[x][2] for x in range(3)] + [0])
            if k == "redatum" and (f not in p.frames or p.frames[f].datum_source is None):
                return
            if k == "redatum":
                d.name = p.frames[f].datum_name
            st, v = call(Y["R"].register_datum, p.frames[f].datum_source if k == "redatum" else "src" + n, d)
            if st != "ok":
                return ("datum-refused", repr(v))
            if k == "datum":
                p.frames[f] = K.CoordinateFrame(f, datum_source="src" + n, datum_name=f"d{o['f']}")
            else:
                p.frames[f].invalidate_cache()
            mp["frames"][f] = o["t"]
            return "moved"
        if k in ("dup", "orphan", "unknown"):
            was = json.dumps(chain.to_dict())
            if k == "dup":
                st, v = call(chain.add_part, K.KinematicPart(name=n, parent=None, description="again", material="x"))
            elif k == "orphan":
                free = [q for q in NAMES if q not in m.p]
                lost = K.KinematicPart(name=free[o["i"] % len(free)] if free else "LOST", parent=free[o["j"] % len(free)] if free and o["g"] else "nobody")
                st, v = call(chain.add_part, lost)
            else:
                st, v = call(chain.set_joint_value, "nobody", 3.0)
            if st != "exc" or not isinstance(v, ValueError):
                return ("bad-request-accepted", f"{k}: {st} {v!r}")
            if json.dumps(chain.to_dict()) != was:
                return ("refused-but-changed", f"{k} changed {was[:300]} to {json.dumps(chain.to_dict())[:300]}")
            return
        fr = ["ORIGIN"] + list(mp["frames"]) + (["NO SUCH"] if o["g"] == 3 else [])
        f = fr[o["f"] % len(fr)]
        if k in ("q", "spoil"):
            e, v = self.check_world(chain, m, n, f)
            if e:
                return e
            seen.add(n)
            if k == "spoil":
                v.matrix[:3, :] += 17.0
                r.faults["caller_modified_result"] += 1
            return
        if k == "qall":
            st, v = call(chain.get_all_world_transforms)
            if st != "ok" or list(v) != names:
                return ("all-transforms-wrong", f"{st} {list(v) if st == 'ok' else v!r}")
            for q in names:
                if far(m.world(q), v[q].matrix.tolist()):
                    return ("stale-or-wrong-transform", f"get_all_world_transforms: {q} is {v[q].matrix.tolist()}, expected {m.world(q)}")
                seen.add(q)
            return
        if k == "qrel":
            n2 = names[o["j"] % len(names)]
            fr2 = ["ORIGIN"] + list(m.p[n2]["frames"])
            f2 = fr2[o["g"] % len(fr2)]
            st, v = call(chain.get_relative_transform, n, n2, f, f2)
            want = mul(inv(m.world(n, f)), m.world(n2, f2))
            if st != "ok" or far(want, v.matrix.tolist()):
                return ("relative-transform-wrong", f"{n}.{f} -> {n2}.{f2}: {v.matrix.tolist() if st == 'ok' else v!r}, expected {want}")
            seen.add(n)
            return
        if k == "dictround":
            st, c2 = call(lambda: K.KinematicChain.from_dict(json.loads(json.dumps(chain.to_dict()))))
            return self.same(st, c2, m, "to_dict/from_dict", chain)
        if k == "remote":
            st, d = call(lambda: json.loads(json.dumps(chain.to_dict())))
            if st != "ok":
                return ("export-failed", repr(d))
            a = self.peer.ask({"data": d})
            r.faults["other_process_and_hash_seed"] += 1
            if a["parts"] != ["GLOBAL_DATUM"] + self.order(m) or any(a["kids"][q] != [x for x in self.order(m) if m.p[x]["parent"] == q] for q in names):
                return ("import-order-differs", f"another process imports {a['parts']}, the chain has {self.order(m)}")
            for q in names:
                if far(m.world(q), a["world"][q]):
                    return ("import-differs", f"{q}")
            return
        if k in ("export", "roundtrip"):
            return self.export(o, w, r, chain, m)

    def order(self, m):
        """Import order: generations (parents first), file order inside each."""
        out, left = [], list(m.p)
        while left:
            ready = [q for q in left if m.p[q]["parent"] not in left]
            out += ready
            left = [q for q in left if q not in ready]
        return out

    def same(self, st, c2, m, how, chain):
        if st != "ok":
            return ("import-failed", f"{how}: {c2!r}")
        if sorted(c2.parts) != sorted(["GLOBAL_DATUM"] + list(m.p)):
            return ("import-differs", f"{how}: {list(c2.parts)}")
        if c2.name != chain.name:
            return ("import-differs", f"{how}: {c2.name!r}, exported {chain.name!r}")
        for q, p in m.p.items():
            g, s = c2.parts[q], chain.parts[q]
            was, now = ([x.stl_path, x.is_printable, x.material, list(x.color), x.description, x.joint.name, list(x.joint.axis),
                         [(y.name, y.datum_source, y.datum_name, y.description) for y in x.frames.values()]] for x in (s, g))
            if was != now:
                return ("import-differs", f"{how}: {q}: {now}, exported {was}")
            if (g.parent, g.parent_frame, g.joint.value, g.joint.joint_type.value, [g.joint.min_limit, g.joint.max_limit]) != \
                    (p["parent"], p["pframe"], p["joint"]["value"], p["joint"]["type"], list(p["joint"]["lim"])):
                return ("import-differs", f"{how}: {q}: {g}")
            for f in ["ORIGIN"] + list(p["frames"]):
                st, v = call(c2.get_world_transform, q, f)
                if st != "ok" or far(m.world(q, f), v.matrix.tolist()):
                    return ("import-differs", f"{how}: {q}.{f} {v!r}")
        return None

    def export(self, o, w, r, chain, m):
        K, fs = Y["K"], w.fs
        ex = Explorer(w, r)
        old = fs.get(F) if fs.has(F) else None
        snap = ex.snapshot()
        if o["op"] == "export":
            op = lambda mem: chain.export_json(F)
            st, v, n, _ = ex.clean(snap, op)
            if st != "ok":
                return ("export-failed", repr(v))
            new = fs.get(F)
            st, c2 = call(K.KinematicChain.from_json, F)
            e = self.same(st, c2, m, "export_json/from_json", chain)
            if e:
                return e
            after = fs.clone_tree()
            for b in o["branches"]:
                st, v, fired, _ = ex.faulty(snap, op, b["faults"], n, b["restart"], b["rs"], late=b.get("late", False))
                cur = fs.get(F) if fs.has(F) else None
                which = "new" if cur == new else "old" if cur == old else "torn"
                r.t("  export", json.dumps(b["faults"]), b["restart"], st, which)
                if which == "torn":
                    return ("torn-export", f"with {b['faults']}/{b['restart']} ({st}) the file holds {cur[:60] if cur is not None else None!r}")
                if (st == "ok" or ex.completed) and which != "new":
                    return ("export-lost", f"export reported success with {b['faults']} but the file is {which}")
                junk = [q for q in fs.tree("/sim/work/out") if q and not q.endswith("chain.json")]
                if st == "exc" and junk and len(b["faults"]) < 2:
                    return ("stray-files", f"failed export left {junk}")
                st, v = call(op, None)
                if st != "ok" or fs.get(F) != new:
                    return ("export-impossible-after-fault", f"{v!r}")
            fs.restore_tree(after)
            fs.disarm()
            return
        if old is None:
            return
        op = lambda mem: K.KinematicChain.from_json(F)
        st, v, n, _ = ex.clean(snap, op)
        if st != "ok":
            return ("import-failed", repr(v))
        want = v.to_dict()
        for b in o["branches"]:
            st, v, fired, _ = ex.faulty(snap, op, b["faults"], n, "kill", b["rs"])
            if st == "ok" and v.to_dict() != want:
                return ("partial-import", f"with {b['faults']}")


CHECK = C15()
