"""C07: exported files are complete or untouched, and damaged ones are never read as smaller models."""
import contextlib
import io
import json
import math
import re
import struct

from ..engine import Check, Result
from ..explore import Explorer, gen_branch
from ..world import World, call, install_datetime_seam

Y = {}
D = "/sim/work/out"
KINDS = ["stl", "stl", "ascii", "ascii", "step", "stepa", "stlmeta", "stepmeta", "meta", "dxf", "dxf", "multi", "draw"]
EXT = {"stl": "stl", "ascii": "stl", "step": "step", "stepa": "step", "stlmeta": "stl", "stepmeta": "step", "meta": "step", "dxf": "dxf", "multi": "dxf", "draw": "dxf"}


def gen_obj(rng):
    k = rng.choice(["prism", "prism", "sphere", "cone", "surf", "bent", "empty", "two", "touch", "tube"])
    if rng.random() < 0.03:
        k = "fine"
    scale = rng.choice([1, 1, 1, 1, 1, 0.001, 40]) if k in ("prism", "surf", "bent", "two", "touch") else 1
    return {"k": k, "a": [round(rng.uniform(0.5, 30) * scale, 4) for _ in range(3)], "c": [round(rng.uniform(-50, 50), 3) for _ in range(3)],
            "meta": rng.choice([None, None, {"material": {"name": "PETG"}, "tags": ["a", "b"]}, {"range": (0.0, 1.5), "n": 3, "unité": "é☃"}, {"np": "NP", "deep": {"pair": ((1.5, "NP"), ["x", ("NP",)])}},
                                 {"holes": "KEYS", "layer": "", "tags": [], "note": "a: b\n# c", "schema": "metadata-namespace-v1.1"}, {"bad": "OBJECT"}])}


def gen_2d(rng):
    P = lambda: [round(rng.uniform(-20, 20), 3) for _ in range(2)]
    f = [rng.choice([["line", P(), P()], ["arc", P(), round(rng.uniform(1, 9), 2), rng.choice([0, 30, 200]), rng.choice([90, 250, 359])], ["circle", P(), round(rng.uniform(1, 9), 2)],
                     ["poly", [P() for _ in range(rng.randint(3, 6))]], ["point", P()], ["ellipse", P(), round(rng.uniform(5, 9), 2), round(rng.uniform(1, 4), 2), rng.choice([0, 30, 200]), *rng.choice([[0, 360], [0, 90], [270, 45]])],
                     ["cat", [P() for _ in range(rng.randint(2, 5))], rng.random() < 0.4], ["nurbs", [P() for _ in range(rng.randint(4, 6))]],
                     ["nest", [["line", P(), P()], ["circle", P(), 2.0]]], ["geo", rng.choice([["line", P(), P()], ["arc", P(), 3.0, 10, 100]])]]) for _ in range(rng.randint(1, 4))]
    return f if any(e[0] != "point" for e in f) else f + [["line", P(), P()]]      # points alone are a polyline


def gen_op(rng):
    k = rng.choice(KINDS)
    return {"op": k, "obj": gen_obj(rng), "g": [gen_2d(rng) for _ in range(rng.randint(1, 3))], "layers": rng.choice(["PATHS", ["PATHS", "DRILLS"], ["DRILLS"], "DOCUMENTATION", "PATHS", "NOLAYER"]),
            "f": rng.choice(["part", "part", "part", "Part", "a.b", "noext", "link", "locked", "dir", "gone/x", "UP"]), "reuse": None, "name": rng.choice(["yapCAD", "yapCAD", "solid thing", "näme", "n" * 90, "Bob's 1\\2", "two\nlines", "facet vertex", "C:\\new\\X2\\0041", "Ø 3 😀"]),
            "color": rng.choice([False, False, "red", "aqua", 5]), "src": rng.choice([None, None, "/sim/work/p.dsl", "/sim/work/gone.dsl"]), "sidecar": rng.random() < 0.8,
            "branches": [dict(gen_branch(rng), nested=rng.choice([None, None, None, "same", "other"]), at=round(rng.random(), 3)) for _ in range(rng.choice([2, 3, 4]))],
            "cuts": [round(rng.random(), 4) for _ in range(4)], "rb": [gen_branch(rng, ["eio_read", "eio", "emfile", "eacces"])]}


class C07(Check):
    id = "C07"
    runs = {"quick": 700, "thorough": 16000}
    batch = 4
    shrink_lists = ("ops",)
    rule = "a run with a new trace that exported over an existing file, or under a fault that fired"
    real = ["yapcad.io (stl, step, meta_yaml)", "yapcad.ezdxf_exporter", "yapcad.ezdxf_drawable", "ezdxf", "PyYAML"]
    stub = ["filesystem (in-memory, crash/torn/error model)", "clock", "entropy"]
    assumptions = ["rename is atomic and ordered with the writes that were synced before it", "pythonocc is not installed: STEP is the faceted writer"]
    states_measure = "distinct (export kind, target kind, outcome, content old/new/none, fault kinds)"

    def preload(self):
        install_datetime_seam()
        from yapcad import geom as g, geom3d as g3, geom3d_util as U, metadata as md, ezdxf_exporter as X, mesh as M
        from yapcad.ezdxf_drawable import ezdxfDraw
        from yapcad.geometry import Geometry
        from yapcad.io import stl, step, meta_yaml
        import ezdxf, numpy, yaml
        Y.update(Geometry=Geometry, g=g, g3=g3, U=U, md=md, X=X, M=M, Draw=ezdxfDraw, stl=stl, step=step, my=meta_yaml, ezdxf=ezdxf, np=numpy, yaml=yaml)

    def gen(self, rng, index, tier):
        ops = []
        for _ in range(rng.randint(1, 4 if tier == "quick" else 8)):
            o = gen_op(rng)
            if ops and rng.random() < 0.5:
                # the same export again, of a slightly or wholly different object
                p = rng.choice(ops)
                o.update(op=rng.choice([p["op"], o["op"]]), f=p["f"], layers=p["layers"], src=rng.choice([p["src"], o["src"]]), sidecar=True)
                o["obj"] = json.loads(json.dumps(p["obj"])) if rng.random() < 0.7 else o["obj"]
                rng.choice([lambda q: q["a"].__setitem__(rng.randrange(3), round(rng.uniform(0.5, 30), 3)), lambda q: q.update(meta=rng.choice([{"tags": ["x"]}, {"tags": ["y"]}, None])), lambda q: None])(o["obj"])
                o["reuse"] = rng.choice([None, None, 0.5, -3.25])     # the very same object, moved in place
            ops.append(o)
        return {"seed": rng.randrange(1 << 30), "ops": ops, "tick": rng.choice([0, 0, 0.01, 3])}

    def build(self, o):
        U, a = Y["U"], o["a"]
        P = Y["g"].point(*o["c"])
        k = o["k"]
        if k in ("prism", "empty"):
            s = U.prism(a[0], a[1], a[2], P)
        elif k in ("two", "touch"):       # two bodies, apart or with an edge in common
            s, t = U.prism(a[0], a[1], a[2], P), U.prism(a[0], a[1], a[2], P)
            d = (a[0], a[1], 0) if k == "touch" else (a[0] + 5, 0, 0)
            for f in t[1]:
                for q in f[1]:
                    for j in range(3):
                        q[j] += d[j]
            s[1] += t[1]
        elif k == "fine":
            s = U.sphere(a[0], P, 3)
        elif k == "tube":
            s = U.tube(a[0] * 2, a[0] / 2, a[2], base_point=P, minang=30)
        elif k == "sphere":
            s = U.sphere(a[0], P, 1)
        elif k == "cone":
            s = U.conic(a[0], a[1] / 2, a[2], P, angr=40) if True else None
        else:
            s = U.prism(a[0], a[1], a[2], P)[1][0]
            if k == "bent":
                s[1][0] = Y["g"].point(s[1][0][0] + 1, s[1][0][1], s[1][0][2])
        if k == "empty":
            s = ["solid", [], [], []]
        m = o["meta"]
        if m is not None:
            m = dict(m)
            if m.get("np"):
                m["np"] = Y["np"].float64(2.5)
                m["deep"] = {"pair": ((1.5, Y["np"].int64(4)), ["x", (Y["np"].float64(0.1),)])}
            if m.get("holes") == "KEYS":
                m["holes"] = {3: "M3", "4": "M4", 2.5: None, False: "yes"}
            if m.get("range"):
                m["range"] = tuple(m["range"])
            if m.get("bad"):
                m["bad"] = object
            (Y["md"].set_solid_metadata if Y["g3"].issolid(s) else Y["md"].set_surface_metadata)(s, m)
        return s

    def fig(self, f):
        g = Y["g"]
        out = []
        for e in f:
            P = lambda p: g.point(*p)
            out.append(self.fig(e[1]) if e[0] == "nest" else Y["Geometry"](self.fig([e[1]])[0]) if e[0] == "geo" else g.ellipse(P(e[1]), e[2], e[3], rotation=e[4], start=e[5], end=e[6]) if e[0] == "ellipse" else
                       g.catmullrom([P(p) for p in e[1]], closed=e[2]) if e[0] == "cat" else g.nurbs([P(p) for p in e[1]]) if e[0] == "nurbs" else
                       g.line(P(e[1]), P(e[2])) if e[0] == "line" else g.arc(P(e[1]), *e[2:]) if e[0] in ("arc", "circle") else P(e[1]) if e[0] == "point" else [P(p) for p in e[1] + e[1][:1]])
        return out

    # ------------------------------------------------------------ what a complete file says
    def triangles(self, obj):
        return [t for t in Y["M"].mesh_view(obj)]

    def read_any_stl(self, data):
        """Independent reader: [(v0, v1, v2)] or None when the file is not complete"""
        if data[:5] == b"solid" and b"facet" in data[:400] or data.startswith(b"solid") and b"endsolid" in data:
            t = data.decode("latin-1")
            if not re.search(r"\nendsolid [^\n]*\n$", t):
                return None
            v = [tuple(float(x) for x in m.groups()) for m in re.finditer(r"vertex (\S+) (\S+) (\S+)\n", t)]
            return [tuple(v[i:i + 3]) for i in range(0, len(v), 3)] if len(v) % 3 == 0 and t.count("endfacet") * 3 == len(v) else None
        if len(data) < 84 or len(data) != 84 + 50 * struct.unpack("<I", data[80:84])[0]:
            return None
        f = [struct.unpack("<12fH", data[i:i + 50]) for i in range(84, len(data), 50)]
        return [(x[3:6], x[6:9], x[9:12]) for x in f]

    def close(self, a, b, tol):
        return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for t, u in zip(a, b) for p, q in zip(t, u) for x, y in zip(p, q))

    def judge(self, kind, data, obj, figs, o):
        """Is this file, byte for byte as on disk, the complete export of obj? Returns a complaint."""
        if data is None:
            return "no file"
        name, layers, color = o["name"], o["layers"], o["color"]
        if EXT[kind] == "stl":
            t = self.read_any_stl(data)
            want = [x[1:] for x in self.triangles(obj)]
            if t is None or not self.close(t, want, 2e-6 if kind == "ascii" else 1e-6):
                return f"not the {len(want)} exported triangles (found {None if t is None else len(t)}) in {len(data)} bytes"
        elif EXT[kind] == "step":
            return self.step_says(data, self.triangles(obj), name)
        else:
            t = data.decode("utf-8")
            if not t.rstrip().endswith("EOF"):
                return "no EOF"
            doc = Y["ezdxf"].read(io.StringIO(t.replace("\r\n", "\n")))
            got = [self.dxf_row(e) for e in doc.modelspace()]
            want = self.dxf_want(figs, kind, layers, color)
            for x in want:
                m = [q for q in got if q[0] == x[0] and q[1] == x[1] and (kind != "draw" or q[2] == x[2]) and near(q[3], x[3])]
                if x[0] == "CURVE":
                    m = self.curve(got, x)
                    if m is None:
                        return f"no connected line through {x[3]}"
                    for q in m:
                        got.remove(q)
                elif not m:
                    return f"{x} is missing among {got}"[:400]
                else:
                    got.remove(m[0])
            if [q for q in got if q[0] != "LINE" or not near(q[3][0], q[3][1])]:
                return f"also {got}"[:400]
        return None

    def step_says(self, data, tris, name):
        t = data.decode("utf-8")
        if not t.startswith("ISO-10303-21;\n") or not t.endswith("ENDSEC;\nEND-ISO-10303-21;\n"):
            return "not a whole STEP file"
        t = re.sub(r"\('((?:[^']|'')*)'", lambda m: "('" + m.group(1).encode().hex() + "'", t)      # names aside
        rec = {int(a): b for a, b in re.findall(r"^#(\d+) = (.*?);$", t.split("\nDATA;\n", 1)[1], re.M | re.S)}
        refs = lambda x: [int(q) for q in re.findall(r"#(\d+)", rec[x])]
        kinds = lambda k: [n for n, b in rec.items() if re.match(k + r"\(", b)]
        try:
            pt = {n: tuple(float(q) for q in rec[n].split(", (")[1].rstrip(")").split(",")) for n in kinds("CARTESIAN_POINT")}
            shells = []
            for sh in kinds("CLOSED_SHELL|OPEN_SHELL"):
                faces = []
                for f in refs(sh):
                    loop = refs(refs(refs(f)[0])[0])
                    corners = []
                    for oe in loop:
                        a, b = refs(refs(oe)[0])[:2]
                        a, b = (a, b) if rec[oe].rstrip(")").endswith(".T.") else (b, a)
                        if corners and corners[-1] != a:
                            return "a loop is not connected"
                        corners.append(b)
                    q = [pt[refs(c)[0]] for c in corners]
                    k = q.index(min(q))
                    faces.append(tuple(q[k:] + q[:k]))
                shells.append((sh, faces))
        except (KeyError, IndexError, ValueError) as e:
            return f"references that lead nowhere: {e!r}"
        want = []
        for x in tris:
            q = [tuple(float(f"{c:.6f}") for c in v) for v in x[1:]]
            if len(set(q)) < 3:
                continue
            k = q.index(min(q))
            want.append(tuple(q[k:] + q[:k]))
        got = [f for _, s in shells for f in s]
        got = [f for f in got if len(set(f)) == 3]
        if sorted(got) != sorted(want):
            return f"{len(got)} faces, {len(want)} expected, {len(set(got) ^ set(want))} different"
        item = [n for n in kinds("ADVANCED_BREP_SHAPE_REPRESENTATION")]
        listed = [refs(x)[0] for x in refs(item[0])[:-1]] if item else []
        if sorted(listed) != sorted(sh for sh, _ in shells):
            return f"bodies listed {listed}, shells {[sh for sh, _ in shells]}"
        for sh, faces in shells:
            cnt = {}
            for f in [f for f in faces if len(set(f)) == 3]:
                for a, b in zip(f, f[1:] + f[:1]):
                    cnt[frozenset((a, b))] = cnt.get(frozenset((a, b)), 0) + 1
            if (set(cnt.values()) == {2}) != rec[sh].startswith("CLOSED"):
                return f"{rec[sh][:12]} has edges used {sorted(set(cnt.values()))} times"
        raw = data.decode("utf-8")
        m = re.search(r"= PRODUCT\('((?:[^']|'')*)',", raw)
        if name is not None and (not m or step_text(m.group(1)) != name):
            return f"product {m and m.group(1)!r} for {name!r}"
        return None

    def dxf_row(self, e):
        d, k = e.dxf, e.dxftype()
        v = [tuple(d.start)[:2], tuple(d.end)[:2]] if k == "LINE" else [tuple(d.center)[:2], d.radius] + ([d.start_angle, d.end_angle] if k == "ARC" else []) if k in ("ARC", "CIRCLE") else \
            [tuple(d.center)[:2], tuple(d.major_axis)[:2], d.ratio, d.start_param, d.end_param] if k == "ELLIPSE" else []
        return (k, d.layer, d.color, v)

    def dxf_want(self, figs, kind, layers, color):
        if kind == "draw":
            lays = ["0"] * len(figs)
        elif kind == "dxf":
            lays = [layers if isinstance(layers, str) else layers[0]]
        else:
            lays = [layers] * len(figs) if isinstance(layers, str) else (layers + [layers[-1]] * len(figs))[:len(figs)]
        col = {False: 256, "red": 1, "aqua": 4, 5: 5}[color] if kind == "draw" else 256
        out = []
        for f, lay in zip(figs, lays):
            for e in f:
                for k, v in self.dxf_parts(e):
                    out.append((k, lay, col, v))
        return sorted(out, key=lambda x: x[0] == "CURVE")      # curves take what is left over

    def dxf_parts(self, e):
        k = e[0]
        if k in ("geo", "nest"):
            return [x for q in (e[1] if k == "nest" else [e[1]]) for x in self.dxf_parts(q)]
        if k == "line":
            return [("LINE", [tuple(e[1]), tuple(e[2])])]
        if k == "arc":
            return [("ARC", [tuple(e[1]), e[2], e[3], e[4]])]
        if k == "circle":
            return [("CIRCLE", [tuple(e[1]), e[2]])]
        if k == "poly":
            q = e[1] + e[1][:1]
            return [("LINE", [tuple(a), tuple(b)]) for a, b in zip(q, q[1:])]
        if k == "point":
            x, y = e[1]
            return [("LINE", [(x - .1, y - .1), (x + .1, y + .1)]), ("LINE", [(x - .1, y + .1), (x + .1, y - .1)]), ("CIRCLE", [(x, y), .1])]
        if k == "ellipse":
            m = math.radians(e[4])
            a, b = math.radians(e[5]), math.radians(e[6])
            return [("ELLIPSE", [tuple(e[1]), (e[2] * math.cos(m), e[2] * math.sin(m)), e[3] / e[2], a, b + (math.tau if b < a else 0)])]
        return [("CURVE", [tuple(p) for p in e[1]] + ([tuple(e[1][0])] if k == "cat" and e[2] else []) if k == "cat" else [tuple(e[1][0]), tuple(e[1][-1])])]

    def curve(self, got, want):
        """The entities of a connected polyline from the first to the last of these points through all of them"""
        lines = [q for q in got if q[0] == "LINE" and q[1] == want[1]]
        pts, at, used, hit = want[3], 0, [], 1
        start = [i for i, q in enumerate(lines) if near(q[3][0], pts[0])]
        for i in start:
            used, cur, hit = [], pts[0], 1
            while i < len(lines) and near(lines[i][3][0], cur):
                used.append(lines[i])
                cur = lines[i][3][1]
                if near(cur, pts[hit]):
                    hit += 1
                    if hit == len(pts):
                        return used
                i += 1
        return None

    # ------------------------------------------------------------ the operations
    def op(self, o, obj, figs):
        k = o["op"]
        path = self.path(o)
        io_ = Y
        if k in ("stl", "ascii"):
            return lambda mem: (Y["stl"].write_stl(obj, path, binary=k == "stl", name=o["name"]), True)[1]
        if k == "step":
            return lambda mem: (Y["step"].write_step(obj, path, name=o["name"]), True)[1]
        if k == "stepa":
            return lambda mem: Y["step"].write_step_analytic(obj, path, name=o["name"]) is False
        kw = dict(source_dsl=o["src"], source_command="GO")
        if k == "stlmeta":
            return lambda mem: ("side", Y["stl"].write_stl_with_meta(obj, path, name=o["name"], emit_sidecar=o["sidecar"], **kw))
        if k == "stepmeta":
            return lambda mem: ("side", Y["step"].write_step_with_meta(obj, path, name=o["name"], emit_sidecar=o["sidecar"], **kw))
        if k == "meta":
            return lambda mem: ("side", Y["my"].dump_metadata_yaml(obj, path, **kw))

        def dxf(mem):
            gs = [self.fig(f) for f in figs]
            lay = o["layers"]
            if k == "dxf":
                return Y["X"].write_dxf(gs[0], path, lay if isinstance(lay, str) else lay[0])
            if k == "multi":
                return Y["X"].write_dxf_multi(gs, path, lay)
            d = Y["Draw"]()
            d.linecolor = o["color"]
            d.filename = path[:-4] if path.lower().endswith(".dxf") else path
            for f in gs:
                for e in f:
                    d.draw(e)
            d.display()
            return True
        return dxf

    def path(self, o):
        f, e = o["f"], EXT[o["op"]]
        if f == "gone/x":
            return f"{D}/gone/x.{e}"
        if f == "noext":
            return f"{D}/noext"
        if f == "UP":
            return f"{D}/UP.{e.upper()}"
        return f"{D}/{f}.{e}"

    def target(self, o):
        p = self.path(o)
        if EXT[o["op"]] == "dxf" and (o["f"] == "noext" or o["op"] == "draw" and o["f"] == "UP"):
            p = f"{D}/{'noext' if o['f'] == 'noext' else 'UP'}.dxf"
        return p

    def side(self, p):
        if p.rsplit("/", 1)[1].startswith("link."):
            return "/sim/work/real.meta.yaml"     # the sidecar stands next to the file the link leads to
        d, n = p.rsplit("/", 1)
        return d + "/" + n.split(".")[0] + ".meta.yaml" if not n.startswith(".") else None

    def run(self, plan):
        r = Result()
        r.nontrivial = False
        with World(plan["seed"]) as w, contextlib.redirect_stdout(io.StringIO()):
            fs = w.fs
            self.fs, self.last = fs, None
            self.tick = plan.get("tick", 0)
            fs.mkdirs(D)
            fs.mkdirs(D + "/dir.stl"), fs.mkdirs(D + "/dir.step"), fs.mkdirs(D + "/dir.dxf")
            fs.put("/sim/work/p.dsl", "module p;\n" + "# line\n" * (160000 if plan["seed"] % 7 == 0 else 0))
            fs.put("/sim/work/kept.stl", b"kept")
            for e in ("stl", "step", "dxf"):
                fs.put(f"/sim/work/real.{e}", b"previous")
                fs.symlink(f"../real.{e}", f"{D}/link.{e}")
                fs.put(f"{D}/locked.{e}", b"locked", mode=0o444)
            for i, o in enumerate(plan["ops"]):
                w.advance(self.tick)
                if i % 2:
                    fs.put("/sim/work/p.dsl", f"module q{i};\n")
                e = self.step(o, w, r, i)
                if e:
                    r.v(*e)
                    break
            if fs.escapes and not r.violations:
                r.v("escape", repr(fs.escapes[:3]))
        return r

    def content(self, fs, p):
        return fs.get(p) if p and fs.has(p) and fs._walk(p).kind == "f" else None

    def step(self, o, w, r, i):
        fs, k = w.fs, o["op"]
        obj = self.build(o["obj"])
        if o.get("reuse") and self.last is not None and (self.last[0] == "solid") == (obj[0] == "solid"):
            obj = self.last
            for s in (obj[1] if obj[0] == "solid" else [obj]):
                for v in s[1]:
                    v[2] += o["reuse"]
            m = self.build(o["obj"])
            i = 4 if obj[0] == "solid" else 6
            obj[i:i + 1] = m[i:i + 1]
        self.last = obj
        figs = o["g"] if k != "dxf" else o["g"][:1]
        T = self.target(o)
        S = self.side(T)
        op = self.op(o, obj, figs)
        ex = Explorer(w, r)
        snap = ex.snapshot()
        old, oldS = self.content(fs, T), self.content(fs, S)
        before = fs.files(D)
        seen = []

        def watch(cls, path):
            fs.quiet += 1
            try:
                seen.append((self.content(fs, T), self.content(fs, S)))
            finally:
                fs.quiet -= 1
        w.extra_on_op = watch
        st, v, n, _ = ex.clean(snap, op)
        w.extra_on_op = None
        new, newS = self.content(fs, T), self.content(fs, S)
        ok = st == "ok" and v is not False
        r.t(i, k, o["f"], o["obj"]["k"], st, v is not False, "over" if old is not None else "fresh")
        r.state(k, o["f"], st, old is not None, v is not False)
        if old is not None or oldS is not None:
            r.nontrivial = True
        others = {q: b for q, b in fs.files(D).items() if f"{D}/{q}" not in (T, S) and o["f"] != "link"}
        if others != {q: b for q, b in before.items() if f"{D}/{q}" not in (T, S) and o["f"] != "link"}:
            return ("other-files", f"{k} to {T} ({st}): {sorted(set(others) ^ set(before))}")
        if st not in ("ok", "exc"):
            return ("bad-outcome", f"{k} {st} {v!r}")
        for a, b in seen:
            if a not in (old, new) or b not in (oldS, newS):
                return ("half-written-visible", f"while {k} to {T} ran, the file held {a if a is None else a[-40:]!r} / sidecar {b if b is None else b[-40:]!r}")
        if not ok:
            if k in ("stlmeta", "stepmeta"):
                if newS != oldS or new != old and self.judge(k, new, obj, figs, o):
                    return ("failed-export-changed-file", f"{k} to {T} gave {v!r}, sidecar changed: {newS != oldS}, file: {self.judge(k, new, obj, figs, o)}")
            elif new != old or newS != oldS:
                return ("failed-export-changed-file", f"{k} to {T} gave {v!r} but the file went from {old and len(old)} to {new and len(new)} bytes")
            if not self.may_fail(o, obj, figs):
                return ("export-refused", f"{k} to {T}: {v!r}")
            return None
        if k != "meta":
            bad = self.judge(k, new, obj, figs, o)
            if bad:
                return ("incomplete-export", f"{k} to {T} reported success: {bad}")
        e = self.check_side(o, obj, v, T, S, new, newS, oldS)
        if e:
            return e
        after = fs.clone_tree()
        # the same export with faults, restarts and other writers
        for b in o["branches"]:
            e = self.branch(o, w, r, ex, snap, op, n, b, T, S, old, oldS, new, newS, v)
            if e:
                return e
        fs.restore_tree(after)
        fs.disarm()
        if EXT[k] == "stl":
            return self.reading(o, w, r, T, obj)
        return None

    def may_fail(self, o, obj, figs):
        k = o["op"]
        if o["f"] in ("locked", "dir") or o["f"] == "gone/x" and k != "x":
            return True
        if EXT[k] == "step" and k != "meta" and not self.triangles(obj):
            return True
        if k == "ascii" and not o["name"].isascii():
            return True
        if k in ("dxf", "multi") and "NOLAYER" in ([o["layers"]] if isinstance(o["layers"], str) else o["layers"]):
            return True
        if o["obj"]["meta"] and "bad" in o["obj"]["meta"] and k in ("stlmeta", "stepmeta", "meta"):
            return True
        return False

    def check_side(self, o, obj, v, T, S, new, newS, oldS):
        k, m = o["op"], o["obj"]["meta"]
        if k not in ("stlmeta", "stepmeta", "meta"):
            return ("sidecar-changed", f"{k}") if newS != oldS else None
        v = v[1]
        want = k == "meta" or o["sidecar"]
        has = bool(obj[4:5] and obj[4]) if obj[0] == "solid" else bool(obj[6:7] and obj[6])
        if not want or not has:
            return ("sidecar-unexpected", f"{k}: returned {v}, sidecar changed {newS != oldS}") if v is not None or newS != oldS else None
        import os
        if v is None or newS is None or os.path.basename(v) != os.path.basename(S) and o["f"] != "link":
            return ("sidecar-missing", f"{k} to {T}: object has metadata, returned {v!r}")
        st, d = call(Y["my"].load_metadata_yaml, v)
        if st != "ok":
            return ("sidecar-unreadable", f"{k}: {d!r}")
        p = d.pop("_provenance", {})
        raw = obj[4] if obj[0] == "solid" else obj[6]
        if same_form(d) != same_form(self.plain(raw)):
            return ("sidecar-differs", f"{d} for {raw}")
        import hashlib
        src = self.fs.get(o["src"]) if o["src"] and self.fs.has(o["src"]) else None
        if p.get("source_dsl") != o["src"] or p.get("source_dsl_sha256") != (src and hashlib.sha256(src).hexdigest()) or p.get("source_command") != "GO":
            return ("sidecar-source", f"{p} for source {o['src']} {src!r}")
        if o["src"] is None and new is not None and p.get("geometry_sha256") != hashlib.sha256(new).hexdigest():
            return ("sidecar-hash", f"{p} for a file with other content")
        return None

    def plain(self, v):
        if isinstance(v, dict):
            return {a: self.plain(b) for a, b in v.items()}
        if isinstance(v, (list, tuple)):
            return [self.plain(x) for x in v]
        return v.item() if hasattr(v, "item") else v

    def branch(self, o, w, r, ex, snap, op, n, b, T, S, old, oldS, new, newS, v0):
        fs, k = w.fs, o["op"]
        if b["nested"]:
            # another process exports to the same place in the middle of this one
            o2 = dict(o, obj=dict(o["obj"], a=[x + 1 for x in o["obj"]["a"]])) if b["nested"] == "other" else o
            figs = o["g"] if k != "dxf" else o["g"][:1]
            obj2 = self.last if b["nested"] == "same" else self.build(o2["obj"])
            op2 = self.op(o2, obj2, figs)
            at, cnt, res = int(b["at"] * n), [0], []

            def intrude(cls, path):
                cnt[0] += 1
                if cnt[0] - 1 == at:
                    w.extra_on_op = None
                    res.append(call(op2, None)[0])
                    res.append((self.content(fs, T), self.content(fs, S)))
            ex.restore(snap)
            w.extra_on_op = intrude
            st, v = call(op, None)
            w.extra_on_op = None
            r.faults["other_writer_in_between"] += 1
            r.nontrivial = True
            cur = self.content(fs, T)
            if st != "ok" or res and res[0] != "ok" and not self.may_fail(o2, obj2, figs):
                return ("writers-collide", f"two exports to {T} at once: {st} {v!r}, {res[:1]}")
            if k != "meta" and self.judge(k, cur, self.last, figs, o) and self.judge(k, cur, obj2, figs, o):
                return ("writers-mix", f"two {k} exports to {T} at once, the second at step {at} of {n}: the file is neither ({self.judge(k, cur, obj2, figs, o)})")
            return None
        st, v, fired, _ = ex.faulty(snap, op, b["faults"], n, b["restart"], b["rs"], late=b.get("late", False))
        cur, curS = self.content(fs, T), self.content(fs, S)
        which = "new" if cur == new else "old" if cur == old else "torn"
        whichS = "new" if curS == newS else "old" if curS == oldS else "torn"
        ok = st == "ok" and v is not False
        r.t("  fault", json.dumps(b["faults"]), b["restart"], st, ok, which, whichS)
        r.state(k, "fault", st, which, whichS, tuple(sorted(fired)))
        if fired:
            r.nontrivial = True
        what = f"{k} to {T} with {b['faults']}/{b['restart']} ({st} {v!r})"
        if which == "torn":
            return ("torn-export", f"{what} leaves {cur[-40:] if cur else cur!r}")
        if whichS == "torn":
            # the sidecar names the file's hash: with another clock reading it may differ, but must be whole
            s2, d = call(Y["yaml"].safe_load, curS)
            if curS is None or s2 != "ok" or not isinstance(d, dict) or "_provenance" not in d or curS.decode().splitlines()[-1:] != newS.decode().splitlines()[-1:]:
                return ("torn-sidecar", f"{what} leaves {curS!r}")
        if ok and v != v0 and o["f"] == "link" and which == "new" and isinstance(v, tuple) and v[1] == self.path(o).rsplit(".", 1)[0] + ".meta.yaml" and curS == oldS:
            return None       # the link could not be followed: the sidecar stands next to the link, as reported
        if (ok or ex.completed and v is not False) and (which != "new" or whichS != "new"):
            return ("export-lost", f"{what} reported success but the file is {which}, the sidecar {whichS}")
        if ok and v != v0:
            return ("report-differs", f"{what} returned {v!r}, without faults {v0!r}")
        if whichS == "new" and which == "old" and newS != oldS and new != old and k != "meta":
            return ("sidecar-first", f"{what}: the new sidecar describes the old file")
        junk = [q for q in fs.files(D) if q not in snap_files(snap, fs) and f"{D}/{q}" not in (T, S)]
        if st == "exc" and junk and len(b["faults"]) < 2:
            return ("stray-files", f"{what} left {junk}")
        st, v = call(op, None)
        if st != "ok" or v is False or self.content(fs, T) != new and k != "meta" and EXT[k] != "dxf":
            return ("export-impossible-after-fault", f"{what}, then {v!r}")
        return None

    # ------------------------------------------------------------ reading back
    def reading(self, o, w, r, T, obj):
        fs = w.fs
        data = fs.get(T)
        rd = lambda mem: Y["stl"].read_stl(T)
        ex = Explorer(w, r)
        snap = ex.snapshot()
        st, v, n, _ = ex.clean(snap, rd)
        want = len(self.triangles(obj))
        count = lambda s: sum(len(x[3]) for x in s[1])
        if st != "ok" or count(v) != want:
            return ("read-differs", f"{o['op']} {T}: {want} triangles exported, reading gives {v!r}"[:300])
        ref = [x[1:] for x in self.triangles(obj)]
        back = [tuple(tuple(s[1][i][:3]) for i in f) for s in v[1] for f in s[3]]
        if not self.close(back, ref, 1e-5):
            return ("read-differs", f"{o['op']} {T}: other vertices")
        for b in o["rb"]:
            st, v, fired, _ = ex.faulty(snap, rd, b["faults"], n, "kill", b["rs"])
            if st == "ok" and count(v) != want or st == "exc" and not isinstance(v, (OSError, ValueError)):
                return ("partial-read", f"{o['op']} with {b['faults']}: {st} {v!r}"[:300])
        ex.restore(snap)
        for c in o["cuts"]:
            cut = min(len(data) - 1, int(len(data) * c))
            fs.put(T, data[:cut])
            r.faults["truncated_file_read"] += 1
            st, v = call(Y["stl"].read_stl, T)
            r.t("  cut", st)
            if st == "ok" and count(v) != want or st == "exc" and not isinstance(v, ValueError):
                return ("truncated-accepted", f"{o['op']}: {cut} of {len(data)} bytes read as {count(v) if st == 'ok' else v!r} of {want} triangles")
        fs.put(T, data)
        return None


def near(a, b):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return abs(a - b) < 1e-5


def same_form(v):
    if isinstance(v, dict):
        return ("dict", sorted((repr(a), same_form(b)) for a, b in v.items()))
    return ("list", [same_form(x) for x in v]) if isinstance(v, list) else repr(v)


def step_text(s):
    """A string of a STEP file as it was meant"""
    out = ""
    for m in re.finditer(r"''|\\\\|\\X2\\([0-9A-F]+)\\X0\\|\\X4\\([0-9A-F]+)\\X0\\|(.)", s, re.S):
        out += bytes.fromhex(m.group(1)).decode("utf-16-be") if m.group(1) else bytes.fromhex(m.group(2)).decode("utf-32-be") if m.group(2) else m.group(0)[0]
        if m.group(3) == "\\":
            return None
    return out


def snap_files(snap, fs):
    keep, fs.root = fs.root, snap.tree
    try:
        return set(fs.files(D))
    finally:
        fs.root = keep


CHECK = C07()
