"""C21: collision and clearance verdicts are those of the present geometry, places and interfaces."""
import copy
import json
import math
import random
import sys
import types

from ..engine import Check, Result
from ..world import World, call
from .c15 import tf, ident
from .c20 import Salted

Y = {}
PARTS = ["gear", "Gear", "plate", "pin"]
FILES = [f"/sim/work/{n}.stl" for n in ("gear", "gear2", "plate", "pin")]
NAMES = ["teeth", "teeth_b", "bore", "tap", "bolt", "hub", "rim"]


class Tf:
    """A transform object, as the kinematics package gives them."""

    def __init__(self, m):
        self.matrix = m


def stub_rtree():
    """The spatial index trimesh asks for: a scan, in place of the compiled library."""
    import numpy as np
    ix, m = types.ModuleType("rtree.index"), types.ModuleType("rtree")

    class Property:
        def __init__(self, **k):
            self.__dict__.update(k)

    class Index:
        def __init__(self, stream=(), properties=None, **k):
            it = [(i, b) for i, b, _ in stream]
            self.ids = np.array([i for i, _ in it])
            b = np.array([b for _, b in it])
            self.d = b.shape[1] // 2
            self.lo, self.hi = b[:, :self.d], b[:, self.d:]
            self.bounds = self.lo.min(0).tolist() + self.hi.max(0).tolist()

        def intersection(self, b, objects=False):
            b = np.asarray(b)
            return iter(self.ids[((self.lo <= b[self.d:]) & (self.hi >= b[:self.d])).all(axis=1)].tolist())
    ix.Property, ix.Index, m.index, m.Index = Property, Index, ix, Index
    sys.modules["rtree"], sys.modules["rtree.index"] = m, ix


def gen_box(rng):
    return [[rng.choice([2.0, 4.0, 6.0, 10.0, 16.0]) for _ in range(3)], [0.0, 0.0, 0.0] if rng.random() < 0.6 else [round(rng.uniform(-6, 6), 1) for _ in range(3)]]


def gen_geom(rng, file=False):
    k = rng.choice(["stl"] * 6 + ["garbage", "empty", "cut", "absent"]) if file else rng.choice(["file"] * 5 + ["mesh"] * 4 + ["scene"] * 3 + ["none", "raises", "other"])
    boxes = [gen_box(rng)]
    if k == "scene" and rng.random() < 0.5:      # two pieces well apart
        b = gen_box(rng)
        b[1] = [boxes[0][1][0] + 20.0, boxes[0][1][1], boxes[0][1][2]]
        boxes.append(b)
    return {"k": k, "boxes": boxes, "file": rng.randrange(len(FILES)), "cut": rng.randrange(1, 600), "placed": rng.random() < 0.7}


def gen_tf(rng):
    a = rng.choice([(0, 0, 1), (1, 0, 0), (0, 1, 0), (1, 1, 0), (1, -2, 3)])
    s = rng.choice([4, 7, 9, 14, 40])
    t = [round(rng.uniform(-s, s), 2) for _ in range(3)] if rng.random() < 0.85 else [rng.choice([0.0, 5.0, 10.0]), 0.0, 0.0]
    return t + list(a) + [rng.choice([0, 0, 0, 30, 90, 180, round(rng.uniform(-180, 180), 2)])]


def gen_form(rng):
    return rng.choice(["array"] * 4 + ["rows", "flat", "object", "none", "object-rows", "tuple", "short", "text"])


def gen_center(rng):
    return rng.choice([[0.0, 0.0, 0.0], [round(rng.uniform(-15, 15), 1) for _ in range(3)], [rng.choice([12.0, 20.0, 26.0, 33.0, 45.0]), 0.0, rng.choice([0.0, 3.0, 8.0])]])


def gen_iface(rng, t=None):
    t = t or rng.choice(["gear", "gear", "thread"])
    i = {"type": t, "name": rng.choice(NAMES), "part": rng.choice(PARTS), "center": gen_center(rng),
         "axis": rng.choice([[0, 0, 1], [0, 0, 1], [0, 0, -2], [1, 0, 0], [0, 3, 4]])}
    return {**i, **gen_fields(rng, t)}


def gen_fields(rng, t):
    if t == "gear":
        return {"module": rng.choice([1.0, 1.0, 1.0, 1.0005, 2.0]), "teeth": rng.choice([12, 20, 36]), "pressure_angle": rng.choice([20.0, 20.0, 20.0, 20.3, 14.5]),
                "face_width": rng.choice([5.0, 10.0]), "helix_angle": rng.choice([0.0, 0.0, 15.0, -15.0])}
    return {"pitch": rng.choice([0.5, 0.5, 0.5, 0.7]), "major_diameter": rng.choice([3.0, 3.0, 3.0, 4.0]), "engagement_length": rng.choice([4.0, 8.0]), "is_internal": rng.random() < 0.5}


def gen_con(rng):
    t = rng.choice(["NO_OVERLAP"] * 5 + ["COINCIDENT", "AT_DISTANCE", "MIN_DISTANCE"] * 2 + ["PARALLEL", "PERPENDICULAR", "CUSTOM"])
    b = [[-rng.choice([1.0, 3.0, 5.0]), -2.0, 0.0], [2.0, rng.choice([1.0, 4.0]), rng.choice([3.0, 8.0])]]
    b2 = [[-2.0, -2.0, -rng.choice([1.0, 3.0])], [rng.choice([1.0, 6.0]), 2.0, 2.0]]
    return {"type": t, "a": rng.choice(PARTS), "b": rng.choice(PARTS) if rng.random() < 0.9 else None, "fa": rng.randrange(len(FILES)), "fb": rng.randrange(len(FILES)),
            "stl": rng.choice(["both", "both", "both", "one", "no"]), "ba": b if rng.random() < 0.8 else None, "bb": b2 if rng.random() < 0.8 else None,
            "face_a": rng.choice([None, None, "TOP", "BOTTOM", "LEFT", "shaft"]), "face_b": rng.choice([None, None, "TOP", "RIGHT", "shaft"]),
            "center": rng.choice([None, [0.0, 0.0, 0.0], [3.0, 4.0, 0.0]]), "radius": rng.choice([None, 5.0, 10.0, 12.0]), "tol": rng.choice([0.1, 2.0, 8.0]), "deg": rng.choice([1.0, 35.0]),
            "aa": rng.choice("xyz"), "ab": rng.choice("xyz"), "severity": rng.choice(["error", "error", "warning", "info"]), "custom": rng.choice(["low", "raises", "none"])}


COLL = ["geom"] * 5 + ["file"] * 6 + ["move"] * 2 + ["clear"] * 2 + ["check"] * 10 + ["recheck"] * 8 + ["assembly"] * 4 + ["newdet"] * 2 + ["twice"] * 2
FACE = ["setreg"] * 2 + ["register"] * 7 + ["many"] * 3 + ["unregister"] * 3 + ["wipe"] + ["iedit"] * 6 + ["find"] * 2
CLEAR = ["place"] * 6 + ["unplace"] + ["con"] * 5 + ["cedit"] * 6 + ["wipecon"] + ["validate"] * 9
MODES = {"all": COLL + FACE + CLEAR, "collision": COLL, "interface": FACE + ["recheck"] * 12 + ["check"] * 2 + ["newdet", "assembly"], "clearance": CLEAR + ["file"] * 5}


def gen_op(rng, mode):
    k = rng.choice(MODES[mode])
    o = {"op": k, "d": rng.choice([0, 0, 0, 1]), "p": rng.choice(PARTS), "q": rng.choice(PARTS), "n": rng.randrange(100)}
    fault = [rng.randrange(6), rng.choice(["eio", "eio_read", "eacces", "emfile"])] if rng.random() < 0.2 else None
    if k == "geom":
        o["g"] = gen_geom(rng)
    elif k == "file":
        o.update(f=rng.randrange(len(FILES)), g=gen_geom(rng, True), same=rng.random() < 0.3)
    elif k == "move":
        o["by"] = [round(rng.uniform(-8, 8), 1) for _ in range(3)]
    elif k in ("check", "twice"):
        o.update(ta=gen_tf(rng), tb=gen_tf(rng), fa=gen_form(rng), fb=gen_form(rng), m=rng.choice([None, "AABB", "MESH", "MESH", "BREP"]), fault=fault if k == "check" else None)
        if k == "twice":
            o.update(fa="array", fb="array")
    elif k == "assembly":
        o.update(parts=rng.sample(PARTS, rng.randint(0, 4)), tfs=[gen_tf(rng) for _ in PARTS], forms=[gen_form(rng) if rng.random() < 0.3 else "array" for _ in PARTS],
                 skip=rng.choice([None, [], 1, 1, 2]), pairs=[[rng.choice(PARTS), rng.choice(PARTS)] for _ in range(2)], fault=fault)
    elif k == "newdet":
        o.update(how=rng.choice(["given", "given", "none"]))
    elif k == "register":
        o["i"] = gen_iface(rng)
    elif k == "many":
        o["is"] = [gen_iface(rng) for _ in range(rng.randint(0, 4))]
    elif k in ("unregister", "find"):
        o["name"] = rng.choice(NAMES)
    elif k == "iedit":
        o.update(gear=gen_fields(rng, "gear"), thread=gen_fields(rng, "thread"), what=rng.randrange(5), center=gen_center(rng))
    elif k == "place":
        o.update(t=gen_tf(rng), form=rng.choice(["array", "rows", "object"]), who=rng.choice(PARTS + [p + ".shaft" for p in PARTS]))
    elif k == "unplace":
        o["who"] = rng.choice(PARTS + [p + ".shaft" for p in PARTS])
    elif k in ("con", "cedit"):
        o["c"] = gen_con(rng)
        o["f"] = rng.choice([["fa", "fb"], ["fa", "fb", "ba", "bb", "severity", "a", "b"]]) if o["c"]["type"] == "NO_OVERLAP" else rng.choice(
            [["face_a", "face_b"], ["tol", "radius", "center", "severity", "a", "b", "ba"]])
    elif k == "validate":
        o.update(fault=fault, raises=rng.random() < 0.3)
    return o


# -- solids of the model: lists of boxes, each a (half, centre, R) in the world -------------

def placed(boxes, M):
    np = Y["np"]
    M = np.array(M)
    return [(np.array(e) / 2, M[:3, :3] @ np.array(c) + M[:3, 3], M[:3, :3]) for e, c in boxes]


def bounds(bs):
    np = Y["np"]
    e = [abs(R) @ h for h, c, R in bs]
    return np.min([c - x for (h, c, R), x in zip(bs, e)], axis=0), np.max([c + x for (h, c, R), x in zip(bs, e)], axis=0)


def gap(A, B):
    """Signed separation of two boxes: the largest over the separating-axis candidates."""
    np = Y["np"]
    (h, c, R), (k, d, S) = A, B
    axes = [R[:, i] for i in range(3)] + [S[:, i] for i in range(3)]
    for i in range(3):
        for j in range(3):
            x = np.cross(R[:, i], S[:, j])
            n = np.linalg.norm(x)
            if n > 1e-6:
                axes.append(x / n)
    return max(abs(x @ (d - c)) - abs(x @ R) @ h - abs(x @ S) @ k for x in axes)


def flush(A, B):
    """Whether faces of two boxes lie in one plane: whether points there are inside is then trimesh's random choice."""
    (h, c, R), (k, d, S) = A, B
    for i in range(3):
        for j in range(3):
            if abs(abs(R[:, i] @ S[:, j]) - 1) < 1e-9:
                for s in (-1, 1):
                    for t in (-1, 1):
                        if abs(R[:, i] @ (c + s * h[i] * R[:, i] - d - t * k[j] * S[:, j])) < 1e-3:
                            return True
    return False


def depth(bs, pts):
    """How far inside one of the boxes each point is (negative outside)."""
    np = Y["np"]
    return np.max([(h - abs((pts - c) @ R)).min(axis=1) for h, c, R in bs], axis=0)


def spread(bs, rng, n):
    """n points uniform over the surface."""
    np = Y["np"]
    faces, area = [], []
    for b in bs:
        for i in range(3):
            h = b[0]
            a = 4 * h[(i + 1) % 3] * h[(i + 2) % 3]
            faces += [(b, i, s) for s in (-1, 1)]
            area += [a, a]
    area = np.array(area)
    pick = np.searchsorted(np.cumsum(area) / area.sum(), rng.random_sample(n))
    out = np.empty((n, 3))
    uv = rng.random_sample((n, 2)) * 2 - 1
    for f, (b, i, s) in enumerate(faces):
        w = pick == f
        p = np.empty((w.sum(), 3))
        p[:, i], p[:, (i + 1) % 3], p[:, (i + 2) % 3] = s * b[0][i], uv[w, 0] * b[0][(i + 1) % 3], uv[w, 1] * b[0][(i + 2) % 3]
        out[w] = p @ b[2].T + b[1]
    return out


class C21(Check):
    id = "C21"
    runs = {"quick": 6000, "thorough": 120000}
    batch = 10
    shrink_lists = ("ops",)
    rule = "a run with a new trace in which a collision or clearance question was asked again after geometry, a file, a place, an interface or a constraint had changed"
    real = ["yapcad.collision.detector", "yapcad.collision.registry", "yapcad.collision.interface, gear_interface, thread_interface", "yapcad.collision.result",
            "yapcad.assembly.kinematic_integration", "trimesh (loading, sampling, containment, proximity)"]
    stub = ["filesystem (in-memory, read errors)", "rtree (a scan over the bounding boxes)", "entropy and hash seed", "pythonocc and FCL (absent)"]
    assumptions = ["parts are boxes or sets of separate boxes", "overlaps that few sampled points can show are not judged", "an interface's name, part and type do not change while it is registered"]
    states_measure = "distinct (operation, geometry kinds, method, verdict, interface outcome)"

    def preload(self):
        import logging
        import numpy as np
        logging.disable(logging.CRITICAL)
        stub_rtree()
        import trimesh
        from yapcad.collision import detector, registry, gear_interface, thread_interface, result, interface
        from yapcad.assembly import kinematic_integration
        Y.update(np=np, tm=trimesh, D=detector, R=registry, G=gear_interface, T=thread_interface, C=result, K=kinematic_integration, I=interface, fresh=np.random.default_rng)

    def gen(self, rng, index, tier):
        ops = [{"op": "file", "d": 0, "p": PARTS[0], "q": PARTS[0], "n": 0, "f": f, "g": {**gen_geom(rng, True), "k": "stl"}, "same": False} for f in range(len(FILES))]
        for p in PARTS:
            ops.append({"op": "geom", "d": 0, "p": p, "q": p, "n": 0, "g": gen_geom(rng)})
        if rng.random() < 0.5:
            for p in rng.sample(PARTS, 2):
                ops.append({"op": "register", "d": 0, "p": p, "q": p, "n": 0, "i": {**gen_iface(rng, "gear"), "part": p, "name": NAMES[PARTS.index(p)]}})
        if rng.random() < 0.6:
            for p in PARTS:
                ops.append({"op": "place", "d": 0, "p": p, "q": p, "n": 0, "t": gen_tf(rng), "form": "array", "who": p})
        n = rng.randint(5, 25 if tier == "quick" else 60)
        mode = rng.choice(["all", "all", "collision", "interface", "clearance", "clearance"])
        if mode == "interface":                      # one pair, asked about again and again
            p, q = rng.sample(PARTS, 2)
            ops = [{"op": "geom", "d": 0, "p": x, "q": x, "n": 0, "g": {"k": "mesh", "boxes": [[[16.0, 16.0, 10.0], [0.0, 0.0, 0.0]]], "file": 0, "cut": 1, "placed": True}} for x in (p, q)] + ops[8:]
            ops.append({"op": "check", "d": 0, "p": p, "q": q, "n": 0, "ta": [0.0] * 3 + [0, 0, 1, 0], "tb": [5.0, 3.0, 1.0, 0, 0, 1, 0], "fa": "array", "fb": "rows", "m": None, "fault": None})
        more = [gen_op(rng, mode) for _ in range(n)]
        for o in more:
            if mode == "interface" and "i" in o:
                o["i"]["part"] = rng.choice([p, q])
            for m in o.get("is", []) if mode == "interface" else []:
                m["part"] = rng.choice([p, q])
        return {"seed": rng.randrange(1 << 30), "points": rng.choice([150, 250]), "ops": ops + more}

    def run(self, plan):
        r = Result()
        np = Y["np"]
        with World(plan["seed"]) as w:
            self.w, self.r, self.plan = w, r, plan
            w.fs.mkdirs("/sim/work")
            ent = random.Random(f"rng:{plan['seed']}")

            def default_rng(seed=None):
                return Y["fresh"](ent.getrandbits(64) if seed is None else seed)
            w._set(np.random, "default_rng", default_rng)
            Salted.salt = plan["seed"] % 97
            self.geom = [{p: {"k": "none", "boxes": []} for p in PARTS} for _ in range(2)]      # what provider d would answer
            self.obj = [{p: None for p in PARTS} for _ in range(2)]
            self.had = [{p: [] for p in PARTS} for _ in range(2)]                              # answers since the cache was last cleared
            self.file = {f: {"k": "absent", "boxes": []} for f in FILES}
            self.regs = [Y["R"].InterfaceRegistry() for _ in range(2)]
            self.ifs = [{}, {}]                                                                # registered: name -> model
            self.prov = [Provider(self, d) for d in range(2)]
            self.det = [self.detector(d, self.regs[d]) for d in range(2)]
            self.reg = [0, 1]                                                                  # None: a registry of its own
            self.places, self.forms = {}, {}
            self.val = [Y["K"].AssemblyValidator(f"v{d}") for d in range(2)]
            self.cons = [[], []]
            self.live = [[], []]
            self.changed, self.asked, self.last = False, 0, [None, None]
            for i, o in enumerate(plan["ops"]):
                r.t(i, o["op"], o["d"], o["p"], o["q"])
                self.out = None
                e = getattr(self, "do_" + o["op"])(o, o["d"], i)
                r.t(self.out)
                r.state(o["op"], o.get("m"), o.get("how"), self.geom[o["d"]][o["p"]]["k"], self.geom[o["d"]][o["q"]]["k"], self.out if isinstance(self.out, str) else None, e and e[0])
                if e is None:
                    st, e = call(self.present)
                    if st != "ok":
                        e = "registry-raised", f"after {o['op']}: {e!r}"
                    elif e:
                        e = e[0], f"after {o['op']}: {e[1]}"
                if e:
                    r.v(*e)
                    break
            r.nontrivial = self.asked > 1 and self.changed
            r.faults.update(w.fs.fired)
        return r

    def detector(self, d, reg, prov=None):
        return Y["D"].CollisionDetector(prov or self.prov[d], reg, mesh_sample_points=self.plan["points"])

    def change(self):
        if self.asked:
            self.changed = True

    # -- geometry ---------------------------------------------------------
    def mesh(self, boxes):
        ms = []
        for e, c in boxes:
            m = Y["tm"].creation.box(extents=e)
            m.apply_translation(c)
            ms.append(m)
        return ms[0] if len(ms) == 1 else Y["tm"].util.concatenate(ms)

    def do_geom(self, o, d, i):
        g = dict(o["g"])
        self.geom[d][o["p"]] = g
        k = g["k"]
        if k == "mesh":
            x = self.mesh(g["boxes"])
        elif k == "scene":
            x = Y["tm"].Scene()
            for e, c in g["boxes"]:
                b = Y["tm"].creation.box(extents=e)
                M = Y["np"].eye(4)
                if g["placed"]:
                    M[:3, 3] = c
                else:
                    b.apply_translation(c)
                x.add_geometry(b, transform=M)
        elif k == "file":
            x = FILES[g["file"]]
        else:
            x = 42 if k == "other" else None
        self.obj[d][o["p"]] = x
        self.change()

    def do_file(self, o, d, i):
        f, g = FILES[o["f"]], o["g"]
        fs = self.w.fs
        k = g["k"]
        if k == "absent":
            if fs.has(f):
                fs.rm(f)
        else:
            t = Y["tm"].exchange.stl.export_stl(self.mesh(g["boxes"]))
            fs.put(f, {"stl": t, "garbage": b"this is no mesh\n", "empty": b"", "cut": t[:min(g["cut"], len(t) - 1)]}[k])
        self.file[f] = {"k": k, "boxes": g["boxes"]}
        self.change()
        if not o["same"]:
            self.w.advance(5)

    def do_move(self, o, d, i):
        """The caller moves its own mesh."""
        g = self.geom[d][o["p"]]
        if g["k"] == "mesh":
            self.obj[d][o["p"]].apply_translation(o["by"])
            new = [[e, [a + b for a, b in zip(c, o["by"])]] for e, c in g["boxes"]]
            for x in [g] + [h for h in self.had[d][o["p"]] if h is g]:
                x["boxes"] = new
            self.r.faults["caller_modified_mesh"] += 1
            self.change()

    def do_clear(self, o, d, i):
        self.det[d].clear_cache()
        for p in PARTS:
            self.had[d][p] = []

    # -- interfaces -------------------------------------------------------
    def iface(self, m):
        kw = {k: v for k, v in m.items() if k not in ("type", "name", "part", "center", "axis")}
        cls = Y["G"].GearMeshInterface if m["type"] == "gear" else Y["T"].ThreadInterface
        return cls(name=Salted(m["name"]), part_name=Salted(m["part"]), center=tuple(m["center"]), axis=tuple(m["axis"]), **kw)

    def do_register(self, o, d, i):
        self.change()
        st, v = call(self.regs[d].register, self.iface(o["i"]))
        if o["i"]["name"] in self.ifs[d]:
            if st == "ok" or not isinstance(v, ValueError):
                return "duplicate-not-refused", f"{o['i']['name']}: {v!r}"
        elif st != "ok":
            return "register-failed", f"{v!r}"
        else:
            self.ifs[d][o["i"]["name"]] = dict(o["i"])

    def do_many(self, o, d, i):
        self.change()
        names = [m["name"] for m in o["is"]]
        st, v = call(self.regs[d].register_many, [self.iface(m) for m in o["is"]])
        if len(set(names)) < len(names) or set(names) & set(self.ifs[d]):
            if st == "ok" or not isinstance(v, ValueError):
                return "duplicate-not-refused", f"{names}: {v!r}"
        elif st != "ok":
            return "register-failed", f"{v!r}"
        else:
            self.ifs[d].update((m["name"], dict(m)) for m in o["is"])

    def do_unregister(self, o, d, i):
        self.change()
        st, v = call(self.regs[d].unregister, Salted(o["name"]))
        m = self.ifs[d].pop(o["name"], None)
        if st != "ok" or (v is None) != (m is None) or m and v.name != m["name"]:
            return "unregister-wrong", f"{o['name']}: {v!r}, was {m}"

    def do_wipe(self, o, d, i):
        self.regs[d].clear()
        self.ifs[d].clear()
        self.change()

    def do_iedit(self, o, d, i):
        if not self.ifs[d]:
            return
        name = list(self.ifs[d])[o["n"] % len(self.ifs[d])]
        m, x = self.ifs[d][name], self.regs[d].get(Salted(name))
        if o["what"] == 0:
            m["center"] = o["center"]
            x.center = tuple(o["center"])
        else:
            for k, v in o[m["type"]].items():
                m[k] = v
                setattr(x, k, v)
        self.change()

    def cylinder(self, m):
        return ((m["module"] * m["teeth"] + 2 * m["module"]) / 2, m["face_width"]) if m["type"] == "gear" else (m["major_diameter"] / 2, m["engagement_length"])

    def overlap(self, a, b):
        """Whether two interfaces' cylinders overlap within 0.1, or None when too near to call."""
        (r1, h1), (r2, h2) = self.cylinder(a), self.cylinder(b)
        v = [y - x for x, y in zip(a["center"], b["center"])]

        def unit(x):
            n = math.sqrt(sum(q * q for q in x))
            return [q / n for q in x]
        u, w = unit(a["axis"]), unit(b["axis"])
        if abs(sum(x * y for x, y in zip(u, w))) < 0.99:
            ds = [math.sqrt(sum(x * x for x in v)) - (r1 + r2 + 0.1)]
        else:
            ax = sum(x * y for x, y in zip(v, u))
            ds = [abs(ax) - (h1 / 2 + h2 / 2 + 0.1), math.sqrt(max(0.0, sum(x * x for x in v) - ax * ax)) - (r1 + r2 + 0.1)]
        if max(ds) > 1e-6:
            return False
        return True if max(ds) < -1e-6 else None

    @staticmethod
    def mates(a, b):
        if a["type"] != b["type"]:
            return False
        if a["type"] == "gear":
            return abs(a["module"] - b["module"]) < 0.01 and abs(a["pressure_angle"] - b["pressure_angle"]) < 1
        return a["is_internal"] != b["is_internal"] and abs(a["major_diameter"] - b["major_diameter"]) < 0.1 and abs(a["pitch"] - b["pitch"]) < 0.1

    def allowed(self, n, p, q):
        """(whether an overlap of p and q is expected, interface names), or None when too near to call."""
        good, bad, names = False, False, []
        for a in self.ifs[n].values() if n is not None else []:
            for b in self.ifs[n].values():
                if a["part"] == p and b["part"] == q:
                    x = self.overlap(a, b)
                    if x is None:
                        return None
                    if x and self.mates(a, b):
                        good = True
                        names += [a["name"], b["name"]]
                    elif x:
                        bad = True
        return (True, set(names)) if good and not bad else (False, set())

    def do_find(self, o, d, i):
        m = self.ifs[d].get(o["name"])
        if m is None:
            return
        R = self.regs[d]
        x = R.get(Salted(o["name"]))
        st, v = call(R.find_compatible_interfaces, x)
        want = [k for k, b in self.ifs[d].items() if k != o["name"] and self.mates(m, b)]
        if st != "ok" or sorted(str(y.name) for y, _ in v) != sorted(want) or not all(c.is_compatible for _, c in v):
            return "compatible-wrong", f"{o['name']}: {v!r} != {want}"
        for p in (o["p"],):
            a = self.allowed(d, p, o["q"])
            st, v = call(R.check_overlap_compatibility, Salted(p), Salted(o["q"]))
            if st != "ok" or a and v[0] != a[0]:
                return "overlap-rule-wrong", f"{p}-{o['q']}: {v!r} != {a}"

    def do_setreg(self, o, d, i):
        n = o["n"] % 2
        self.det[d].set_interface_registry(self.regs[n])
        self.reg[d] = n
        self.change()

    def do_newdet(self, o, d, i):
        n = o["n"] % 2
        self.det[d] = self.detector(d, self.regs[n] if o["how"] == "given" else None)
        self.reg[d] = n if o["how"] == "given" else None
        for p in PARTS:
            self.had[d][p] = []

    def present(self):
        """The registries hold exactly what was registered."""
        for d, R in enumerate(self.regs):
            s = self.ifs[d]
            if [str(x.name) for x in R] != list(s) or len(R) != len(s) or [str(x.name) for x in R.get_all_interfaces()] != list(s):
                return "registry-wrong", f"{[x.name for x in R]} != {list(s)}"
            for n in NAMES:
                x = R.get(Salted(n))
                if (Salted(n) in R) != (n in s) or (x is None) != (n not in s):
                    return "registry-wrong", f"{n}: {x!r}"
                if x is not None and any(getattr(x, k) != (tuple(v) if isinstance(v, list) else v) for k, v in s[n].items() if k not in ("type", "name", "part")):
                    return "interface-changed", f"{x!r} != {s[n]}"
            for p in PARTS:
                want = [n for n, m in s.items() if m["part"] == p]
                got = R.get_interfaces_for_part(Salted(p))
                if sorted(str(x.name) for x in got) != sorted(want) or R.has_interfaces(Salted(p)) != bool(want):
                    return "part-index-wrong", f"{p}: {got!r} != {want}"
                got.clear()
            for t, k in (("gear", "GEAR_MESH"), ("thread", "THREAD")):
                got = R.get_interfaces_by_type(Y["I"].InterfaceType[k])
                if sorted(str(x.name) for x in got) != sorted(n for n, m in s.items() if m["type"] == t):
                    return "type-index-wrong", f"{k}: {got!r}"
                got.clear()
            if sorted(str(p) for p in R.get_all_parts()) != sorted({m["part"] for m in s.values()}):
                return "part-index-wrong", f"{R.get_all_parts()}"
        return None

    # -- collision questions ----------------------------------------------
    def form(self, t, f):
        """(argument, matrix or None when it is no transform)."""
        np = Y["np"]
        M = np.array(tf(t))
        if f == "none":
            return None, np.eye(4)
        if f == "short":
            return M[:3], None
        if f == "text":
            return "upright", None
        return {"array": M, "rows": M.tolist(), "flat": M.ravel().tolist(), "object": Tf(M.copy()), "object-rows": Tf(M.tolist()), "tuple": tuple(tuple(x) for x in M.tolist())}[f], M

    def answers(self, d, p):
        """The solids a detector may answer for: lists of boxes, None for unusable, 'missing'."""
        out = []
        for g in self.had[d][p] or [self.geom[d][p]]:
            if g["k"] in ("none", "raises"):
                out.append("missing")
            elif g["k"] == "file":
                f = self.file[FILES[g["file"]]]
                out.append(f["boxes"] if f["k"] == "stl" else None)
            else:
                out.append(None if g["k"] == "other" else g["boxes"])
        return out

    def expect(self, A, B, mesh, n):
        """Collides: True, False or None when not judged."""
        a, b = bounds(A), bounds(B)
        g = max(max(a[0] - b[1]), max(b[0] - a[1]))
        if not mesh:
            return None if abs(g) < 1e-3 else g < 0
        if g > 1e-3 or min(gap(x, y) for x in A for y in B) > 1e-3:
            return False
        rng = Y["np"].random.RandomState(1)
        k = (depth(A, spread(B, rng, 2000)) > 1e-3).sum() + (depth(B, spread(A, rng, 2000)) > 1e-3).sum()
        return True if k / 2000 * n > 60 else None

    def judge(self, d, p, q, Mp, Mq, m, v, hurt):
        """None, or how verdict v on parts p and q is wrong."""
        C = Y["C"]
        what = f"{p}-{q} {m}: {v!r} {v.error_message}"
        if not isinstance(v, C.CollisionResult) or (str(v.part_a), str(v.part_b)) != (p, q):
            return "verdict-wrong", what
        st, j = call(lambda: json.loads(json.dumps(v.to_dict())))
        if st != "ok" or json.loads(json.dumps(C.CollisionResult.from_dict(j).to_dict())) != j:
            return "result-not-written", f"{what} {j!r}"
        a, b = self.answers(d, p), self.answers(d, q)
        if v.error_message:
            if v.collides:
                return "error-and-collides", what
            self.out = "error"
            ok = hurt or Mp is None or Mq is None or any(x in (None, "missing") for x in a + b)
            return None if ok else ("no-answer", what)
        if Mp is None or Mq is None:
            return "bad-transform-accepted", what
        n = self.plan["points"]
        mesh = m != "AABB"
        if v.method.name != ("MESH" if mesh else "AABB"):
            return "method-wrong", what
        seen = []
        for x in a:
            for y in b:
                if isinstance(x, list) and isinstance(y, list):
                    A, B = placed(x, Mp), placed(y, Mq)
                    w = self.expect(A, B, mesh, n)
                    seen.append((w, A, B))
        if not seen:
            return "answer-without-geometry", what
        if all(w is not None and w != bool(v.collides) for w, _, _ in seen):
            return "verdict-wrong", f"{what}, expected {seen[0][0]}"
        if len(seen) == 1 and v.collides and mesh:
            _, A, B = seen[0]
            np = Y["np"]
            pts = np.array([list(x) for x in v.contact_points]).reshape(-1, 3)
            if len(pts):
                x, y = depth(A, pts), depth(B, pts)
                if min(x.min(), y.min()) < -1e-4:
                    return "contact-outside", f"{what} {pts.tolist()}"
                deep = np.maximum(x, y).max()
                if len(A) == len(B) == 1 and (v.penetration_depth < deep - 1e-3 or v.penetration_depth > max(A[0][0].min(), B[0][0].min()) + 1e-3):
                    return "depth-wrong", f"{what} deepest contact {deep}"
        al = self.allowed(self.reg[d], p, q)
        names = [str.__str__(x) for x in v.interface_names]
        if not v.collides:
            if v.compatible_interface or names:
                return "interface-without-overlap", what
        elif al is not None:
            if v.compatible_interface != al[0] or set(names) != al[1] or len(set(names)) != len(names):
                return "interface-verdict-wrong", f"{what} {names}, expected {al}"
        if v.is_error != (v.collides and not v.compatible_interface) or v.is_interface_overlap != (v.collides and v.compatible_interface):
            return "flags-wrong", what
        self.out = f"{bool(v.collides)}{v.compatible_interface}"
        return None

    def ask(self, d, fn, fault, args):
        """(status, value, whether a fault hit), with the arguments unchanged."""
        fs = self.w.fs
        before = self.frozen(args)
        meshes = [(x, Y["np"].array(x.vertices)) for x in self.obj[d].values() if isinstance(x, Y["tm"].Trimesh)]
        fs.arm([{"at": fault[0], "kind": fault[1]}] if fault else [])
        n = sum(fs.fired.values())
        raised = self.prov[d].raised
        st, v = call(fn)
        hurt = sum(fs.fired.values()) > n
        fs.disarm()
        self.asked += 1
        e = None
        if self.frozen(args) != before:
            e = "argument-changed", f"{args!r}"
        for x, was in meshes:
            if x.vertices.shape != was.shape or abs(x.vertices - was).max() > 0:
                e = "mesh-changed", "the caller's mesh was moved"
        if st != "ok" and self.prov[d].raised > raised:
            st = "raised"
        return st, v, hurt, e

    def frozen(self, x):
        if isinstance(x, Tf):
            return "T", self.frozen(x.matrix)
        if isinstance(x, Y["np"].ndarray):
            return "A", x.tolist()
        if isinstance(x, (list, tuple)):
            return [self.frozen(y) for y in x]
        if isinstance(x, dict):
            return [(k, self.frozen(v)) for k, v in x.items()]
        return x

    def do_check(self, o, d, i):
        (ta, A), (tb, B) = self.form(o["ta"], o["fa"]), self.form(o["tb"], o["fb"])
        self.last[d] = {**o, "fault": None}
        m = o["m"] and Y["C"].CollisionMethod[o["m"]]
        name = "AABB" if o["m"] in ("AABB", "BREP") else "MESH"     # without pythonocc, BREP is answered by the boxes
        p, q = o["p"], o["q"]
        if p == q:
            q = PARTS[(PARTS.index(p) + 1) % len(PARTS)]
        st, v, hurt, e = self.ask(d, lambda: self.det[d].check_collision(Salted(p), ta, Salted(q), tb, method=m), o["fault"], [ta, tb])
        if e:
            return e
        if st != "ok":
            return None if st == "raised" else ("check-raised", f"{p}-{q}: {v!r}")
        return self.judge(d, p, q, A, B, name, v, hurt)

    def do_recheck(self, o, d, i):
        """The last question to this detector, once more."""
        return self.do_check(self.last[d], d, i) if self.last[d] else None

    def do_assembly(self, o, d, i):
        ts, Ms = {}, {}
        for j, p in enumerate(o["parts"]):
            ts[Salted(p)], Ms[p] = self.form(o["tfs"][j], o["forms"][j])
        skip = o["skip"] if not isinstance(o["skip"], int) else [tuple(map(Salted, x)) for x in o["pairs"][:o["skip"]]]
        st, v, hurt, e = self.ask(d, lambda: self.det[d].check_assembly(ts, skip), o["fault"], [ts, skip])
        if e:
            return e
        if st != "ok":
            return None if st == "raised" else ("check-raised", f"{v!r}")
        want = {frozenset((p, q)) for p in Ms for q in Ms if p != q} - {frozenset(map(str, x)) for x in skip or []}
        got = [frozenset((str(x.part_a), str(x.part_b))) for x in v]
        if len(set(got)) != len(got) or set(got) != want:
            return "pairs-wrong", f"{[sorted(x) for x in got]} != {[sorted(x) for x in want]}"
        for x in v:
            e = self.judge(d, str(x.part_a), str(x.part_b), Ms[str(x.part_a)], Ms[str(x.part_b)], "MESH", x, hurt)
            if e:
                return e
        self.out = str(sorted(str(x) for x in v))[:200]
        st, s = call(self.det[d].get_collision_summary, v)
        pairs = lambda f: [(x.part_a, x.part_b) for x in v if f(x)]
        err, exp = pairs(lambda x: x.collides and not x.compatible_interface), pairs(lambda x: x.collides and x.compatible_interface)
        want = {"total_pairs": len(v), "collisions_detected": len(err) + len(exp), "actual_errors": len(err), "expected_interfaces": len(exp),
                "detection_failures": len(pairs(lambda x: x.error_message)), "error_pairs": err, "interface_pairs": exp}
        if st != "ok" or {k: s.get(k) for k in want} != want:
            return "summary-wrong", f"{s!r} != {want}"

    def do_twice(self, o, d, i):
        """Two processes with other hash seeds and other entropy give one answer."""
        n = self.reg[d]
        out = []
        A, B = (self.geom[d][o[x]] for x in "pq")
        A, B = ((self.file[FILES[g["file"]]] if g["k"] == "file" else g).get("boxes", []) for g in (A, B))
        loose = any(flush(x, y) for x in placed(A, tf(o["ta"])) for y in placed(B, tf(o["tb"])))
        keep = Salted.salt
        for salt in (1, 2 + o["n"]):
            Salted.salt = salt
            R = Y["R"].InterfaceRegistry()
            for m in (self.ifs[n] if n is not None else {}).values():
                R.register(self.iface(m))
            ta, tb = self.form(o["ta"], "array")[0], self.form(o["tb"], "rows")[0]
            Y["np"].random.seed(salt)
            st, v = call(lambda: self.detector(d, R, Provider(self, d, False)).check_collision(Salted(o["p"]), ta, Salted(o["q"]), tb))
            x = None if st != "ok" else v.to_dict()
            if x and loose:
                x = {f: x[f] for f in ("collides", "compatible_interface", "interface_names", "error_message", "part_a", "part_b")}
            out.append(None if x is None else json.dumps({**x, "interface_names": [str(y) for y in x["interface_names"]], "part_a": str(x["part_a"]), "part_b": str(x["part_b"])}, default=str))
            self.r.faults["hash_seed_changed"] += 1
        Salted.salt = keep
        self.asked += 1
        self.out = out[0]
        if out[0] != out[1]:
            return "answers-differ", f"{out[0]} != {out[1]}"

    # -- clearances of a kinematic assembly ---------------------------------
    def do_place(self, o, d, i):
        self.places[o["who"]] = Y["np"].array(tf(o["t"]))
        self.forms[o["who"]] = o["form"]
        self.change()

    def do_unplace(self, o, d, i):
        self.places.pop(o["who"], None)
        self.change()

    def build(self, c, n):
        K = Y["K"]
        fn = {"low": self.low, "raises": self.boom, "none": None}[c["custom"]] if c["type"] == "CUSTOM" else None
        return K.KinematicConstraint(
            name=n, constraint_type=K.KinematicConstraintType[c["type"]], frame_a=c["a"], frame_b=c["b"], face_a=c["face_a"], face_b=c["face_b"], axis_a=c["aa"], axis_b=c["ab"],
            reference_center=c["center"] and tuple(c["center"]), reference_radius=c["radius"], tolerance_mm=c["tol"], tolerance_deg=c["deg"], bounds_a=c["ba"], bounds_b=c["bb"],
            stl_path_a=FILES[c["fa"]] if c["stl"] != "no" else None, stl_path_b=FILES[c["fb"]] if c["stl"] == "both" else None, severity=c["severity"], validator=fn)

    def low(self, ts):
        z = max([Y["np"].array(getattr(t, "matrix", t))[2][3] for t in ts.values()] or [0.0])
        return Y["K"].ConstraintEvaluationResult(satisfied=bool(z < 5), error=float(z), error_message="low")

    @staticmethod
    def boom(ts):
        raise RuntimeError("simulated validator failure")

    def do_con(self, o, d, i):
        n = f"c{i}"
        c = dict(o["c"])
        x = self.build(c, n)
        for e in (0, 1) if o["n"] % 4 == 0 else (d,):        # some are watched by both validators
            if (o["n"] // 4) % 2:
                self.val[e].add_constraint(x)
            else:
                self.val[e].add_constraints([x])
            self.cons[e].append((n, c))
            self.live[e].append(x)
        self.change()

    def do_cedit(self, o, d, i):
        if not self.cons[d]:
            return
        js = [j for j, (_, c) in enumerate(self.cons[d]) if (c["type"] == "NO_OVERLAP") == (o["c"]["type"] == "NO_OVERLAP")] or [0]
        j = js[o["n"] % len(js)]
        c, x, f = self.cons[d][j][1], self.live[d][j], o["f"][o["n"] // 10 % len(o["f"])]
        c[f] = o["c"][f]
        if f in ("fa", "fb"):
            setattr(x, "stl_path_" + f[1], FILES[c[f]] if c["stl"] == "both" or c["stl"] == "one" and f == "fa" else None)
        else:
            v = tuple(c[f]) if f == "center" and c[f] else c[f]
            setattr(x, {"tol": "tolerance_mm", "radius": "reference_radius", "center": "reference_center", "ba": "bounds_a", "bb": "bounds_b", "a": "frame_a", "b": "frame_b"}.get(f, f), v)
        self.change()

    def do_wipecon(self, o, d, i):
        self.val[d].clear_constraints()
        self.cons[d], self.live[d] = [], []
        self.change()

    def point(self, c, s):
        """Where side s of a constraint is, or None when its face cannot be found (then not judged)."""
        np = Y["np"]
        M, f, b = self.places[c[s]], c["face_" + s], c["b" + s]
        if f is None:
            return M[:3, 3]
        if f == "shaft":
            k = f"{c[s]}.shaft"
            return self.places[k][:3, 3] if k in self.places else None
        if b is None:
            return None
        x = [(b[0][i] + b[1][i]) / 2 for i in range(3)]
        ax, hi = {"TOP": (2, 1), "BOTTOM": (2, 0), "LEFT": (0, 0), "RIGHT": (0, 1)}[f]
        x[ax] = b[hi][ax]
        return (M @ np.array(x + [1.0]))[:3]

    @staticmethod
    def box(b):
        return [[y - x for x, y in zip(*b)], [(x + y) / 2 for x, y in zip(*b)]]

    def satisfied(self, c, hurt):
        """True, False, or None when not judged."""
        np = Y["np"]
        t = c["type"]
        if c["a"] not in self.places or c["b"] is not None and c["b"] not in self.places:
            return False
        if t == "CUSTOM":
            if c["custom"] != "low":
                return False
            z = max(M[2][3] for M in self.places.values())
            return None if abs(z - 5) < 1e-6 else bool(z < 5)

        def near(x, lim):
            return None if abs(x - lim) < 1e-6 else bool(x < lim)
        A = self.places[c["a"]]
        B = self.places[c["b"]] if c["b"] is not None else None
        if t == "NO_OVERLAP":
            if B is None:
                return False
            if c["stl"] == "both":
                fs = [self.file[FILES[c[k]]] for k in ("fa", "fb")]
                if any(f["k"] != "stl" for f in fs):
                    return False
                a, b = placed(fs[0]["boxes"], A), placed(fs[1]["boxes"], B)
                sep = gap(a[0], b[0])
                if sep > 1e-3:
                    return None if hurt else True
                corners = lambda bs: np.array([bs[0][1] + bs[0][2] @ (bs[0][0] * np.array([x, y, z])) for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)])
                return False if max(depth(a, corners(b)).max(), depth(b, corners(a)).max()) > 1e-3 else None
            if c["ba"] is None or c["bb"] is None:
                return True
            a, b = (bounds(placed([self.box(c[k])], M)) for k, M in (("ba", A), ("bb", B)))
            g = max(max(a[0] - b[1]), max(b[0] - a[1]))
            return None if abs(g) < 1e-6 else bool(g > 0)
        if t in ("PARALLEL", "PERPENDICULAR"):
            if B is None:
                return None
            x = abs(A[:3, "xyz".index(c["aa"])] @ B[:3, "xyz".index(c["ab"])])
            ang = math.degrees(math.acos(min(1.0, x)))
            return near(ang if t == "PARALLEL" else 90 - ang, c["deg"])
        p = self.point(c, "a")
        q = self.point(c, "b") if B is not None else None if c["center"] is None else np.array(c["center"])
        if B is None and c["center"] is None:
            return False
        if t != "COINCIDENT" and c["radius"] is None:
            return False
        if t == "MIN_DISTANCE" and B is not None and c["ba"] is not None and c["bb"] is not None:
            a, b = (bounds(placed([self.box(c[k])], M)) for k, M in (("ba", A), ("bb", B)))
            g = np.maximum(a[0] - b[1], b[0] - a[1])
            if g.max() > 0:
                self.err = max(0.0, c["radius"] - float(np.linalg.norm(np.maximum(g, 0))))
            return near(c["radius"], float(np.linalg.norm(np.maximum(g, 0))))
        if p is None or q is None:
            return None
        dist = float(np.linalg.norm(p - q))
        self.err = {"COINCIDENT": dist, "AT_DISTANCE": abs(dist - (c["radius"] or 0)), "MIN_DISTANCE": max(0.0, (c["radius"] or 0) - dist)}[t]
        if t == "COINCIDENT":
            return near(dist, c["tol"])
        if t == "AT_DISTANCE":
            return near(abs(dist - c["radius"]), c["tol"])
        return near(c["radius"], dist)

    def do_validate(self, o, d, i):
        ts = {p: {"array": M.copy(), "rows": M.tolist(), "object": Tf(M.copy())}[self.forms[p]] for p, M in self.places.items()}
        V = self.val[d]
        fault = o["fault"]
        if o["raises"]:
            st, v, hurt, e = self.ask(d, lambda: V.validate_and_raise(ts), fault, ts)
            if e:
                return e
            if st != "ok" and not isinstance(v, ValueError):
                return "validate-raised", f"{v!r}"
            w = [self.satisfied(c, hurt) for n, c in self.cons[d] if c["severity"] == "error"]
            if st == "ok" and False in w or st != "ok" and all(x is True for x in w):
                return "refusal-wrong", f"{v!r}: {w}"
            self.out = st
            return
        st, v, hurt, e = self.ask(d, lambda: V.validate(ts), fault, ts)
        if e:
            return e
        if st != "ok":
            return "validate-raised", f"{v!r}"
        if [x.name for x in V.constraints] != [n for n, _ in self.cons[d]] or list(v.constraint_results) != [n for n, _ in self.cons[d]] or v.total_constraints != len(self.cons[d]):
            return "constraints-wrong", f"{list(v.constraint_results)} != {[n for n, _ in self.cons[d]]}"
        bad = {"error": [], "warning": [], "info": []}
        for n, c in self.cons[d]:
            got = v.constraint_results[n].satisfied
            self.err = None
            w = self.satisfied(c, hurt)
            if self.err is not None and abs(v.constraint_results[n].error - self.err) > 1e-6:
                return "constraint-error-wrong", f"{n} {c}: {v.constraint_results[n]!r}, expected {self.err}"
            if w is not None and bool(got) != w:
                return "constraint-verdict-wrong", f"{n} {c}: {v.constraint_results[n]!r}, expected {w}"
            if not got:
                bad[c["severity"]].append(n)
        if (v.is_valid != (not bad["error"]) or v.failed_constraints != bad["error"] or v.failed_count != len(bad["error"]) or v.warning_count != len(bad["warning"])
                or v.passed_count != len(self.cons[d]) - sum(map(len, bad.values())) or len(v.warnings) != len(bad["warning"]) or len(v.info) != len(bad["info"])):
            return "report-wrong", f"{v!r} != {bad}"
        st, t = call(v.detailed_report)
        if st != "ok" or any(f"[{n}]" not in t for n in bad["error"]):
            return "report-wrong", f"{t!r}"
        self.out = f"{v.passed_count}/{len(self.cons[d])}"


class Provider:
    def __init__(self, check, d, record=True):
        self.check, self.d, self.raised, self.record = check, d, 0, record

    def get_geometry(self, part):
        c, p = self.check, str(part)
        g = c.geom[self.d][p]
        if g["k"] == "raises":
            self.raised += 1
            raise OSError("simulated provider failure")
        if self.record and g["k"] != "none" and not any(x is g for x in c.had[self.d][p]):
            c.had[self.d][p].append(g)
        return c.obj[self.d][p]


CHECK = C21()
