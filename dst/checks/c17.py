"""C17: the command-line tools exit 0 exactly when what they were asked to produce is there, complete and current."""
import contextlib
import importlib.util
import io
import json
import re
import sys
from pathlib import Path

from .. import pkgsim as P
from ..engine import REPO, Check, Result
from ..explore import Explorer, gen_branch
from ..world import World, call
from . import c07

W = "/sim/work"
T = {}
S = c07.CHECK
Y = c07.Y

# name -> (source, parameters drawn, what the command gives)
PROGS = {
    "box": ("module m;\ncommand C(w: float, d: float = 3.0, h: float = 2.0) -> solid {\n    emit box(w, d, h);\n}\n", "box"),
    "cube": ("module m;\ncommand C(w: float) -> solid {\n    let s: solid = box(w, w, w);\n    emit translate(s, w, 0.0, 0.0);\n}\n", "cube"),
    "two": ("module m;\ncommand C(w: float) -> list<solid> {\n    let a: solid = box(w, 1.0, 1.0);\n    let b: solid = translate(box(1.0, 1.0, w), 100.0, 0.0, 0.0);\n    emit [a, b];\n}\n", "two"),
    "one": ("module m;\ncommand C(w: float) -> list<solid> {\n    emit [box(w, 1.0, 1.0)];\n}\n", "one"),
    "three": ("module m;\ncommand C(w: float) -> list<solid> {\n    emit [box(w, 1.0, 1.0), translate(box(1.0, 1.0, w), 100.0, 0.0, 0.0), translate(box(w, 1.0, 2.0), -100.0, 0.0, 0.0)];\n}\n", "three"),
    "rect": ("module m;\n# ünï\ncommand C(w: float) -> region2d {\n    emit rectangle(w, 3.0);\n}\n", "rect"),
    "tri": ("module m;\ncommand C(w: float) -> region2d {\n    emit polygon([point(0.0, 0.0), point(w, 0.0), point(w, 2.0)]);\n}\n", "tri"),
    "circ": ("module m;\ncommand C(w: float) -> circle {\n    emit circle(point(0.0, 0.0), w);\n}\n", "circ"),
    "num": ("module m;\ncommand C(w: float) -> float {\n    emit w * 2.0;\n}\n", "num"),
    "need": ("module m;\ncommand C(w: float) -> solid {\n    require w > 5.0, \"w must exceed 5\";\n    emit box(w, 1.0, 1.0);\n}\n", "need"),
    "div": ("module m;\ncommand C(w: float) -> solid {\n    let z: float = 1.0 / (w - w);\n    emit box(z, 1.0, 1.0);\n}\n", None),
    "type": ("module m;\ncommand C(w: float) -> solid {\n    emit w;\n}\n", None),
    "syntax": ("module m;\ncommand C( -> solid { emit box(1.0); }\n", None),
    "other": ("module m;\ncommand D(w: float) -> solid {\n    emit box(w, w, w);\n}\n", None),
    "int": ("module m;\ncommand C(w: int) -> solid {\n    emit box(w + 0.0, 1.0, 1.0);\n}\n", "int"),
    "text": ("module m;\ncommand C(w: string) -> solid {\n    require w == \"5\", \"w must be five\";\n    emit box(1.0, 1.0, 1.0);\n}\n", "text"),
    "binary": (b"module m;\xff\xfe\n", None),
    "empty": ("", None),
}
OK_CHECK = {"box", "three", "cube", "two", "one", "rect", "tri", "circ", "num", "need", "div", "other", "int", "text"}
OUTS = ["a.stl", "a.stl", "a.step", "a.step", "b.stp", "a.dxf", "a.dxf", "c.STL", "gone/x.stl", "locked.stl", "locked.dxf", "dir.step", "a.foo", "noext", "sub/a.step", "link.stl"]


def gen_params(rng):
    w = rng.choice([round(rng.uniform(0.5, 9), 2), rng.randint(1, 9), round(rng.uniform(5.1, 30), 3)])
    ps = [f"w={w}"]
    if rng.random() < 0.25:
        ps = rng.choice([[], ["w"], ["w=thick"], ["w=5"], ["w=5"], ["w='5'"], ["w=true"], ["w=2.0"], ["w=5e0"], ["w=1e1"], [f"w={w}", f"w={w}"], [f" w = {w} "]])
    return ps


def gen_op(rng):
    k = rng.choice(["run", "run", "run", "run", "check", "list", "edit", "pack", "export", "export", "validate", "analyze"])
    o = {"op": k, "prog": rng.choice(list(PROGS) + ["int", "text", "three", "box", "box", "cube", "two", "rect", "tri", "need", "circ"]), "branches": []}
    if k == "run":
        o.update(params=gen_params(rng), out=rng.choice(OUTS + [None]), cmd=rng.choice(["C"] * 9 + ["NOPE"]), fmt=rng.choice([None, None, "analytic", "faceted"]),
                 package=rng.choice([None, None, None, "made2", "made"]), force=rng.random() < 0.6, name=rng.choice([None, "widget"]))
        if rng.random() < 0.3:
            o["params"].append(f"h={rng.randint(1, 9)}" if rng.random() < 0.7 else "d=4.5")
    if k == "pack":
        o.update(shape=P.gen_entities(rng), hurt=rng.choice([None] * 6 + ["geometry", "geometry", "manifest", "nomanifest", "gone"]))
    if k == "export":
        o.update(fmts=rng.choice([[], ["step"], ["stl"], ["dxf"], ["all"], ["step-analytic"], ["stl", "dxf"], ["step", "stl"]]), out=rng.choice([None, "exp", "exp", "a.stl", "deep/er"]),
                 overwrite=rng.random() < 0.5)
    if k == "validate":
        o.update(strict=rng.random() < 0.3)
    if k == "analyze":
        o.update(plan=rng.choice(["plan.yaml", "plan.yaml", "gone.yaml", "bad.yaml"]), factor=rng.choice([0.5, 2.0]))
    if k != "edit":
        o["branches"] = [dict(gen_branch(rng), nested=rng.choice([None, None, None, "twin"]), at=round(rng.random(), 3)) for _ in range(rng.choice([1, 2, 3]))]
        o["out_fail"] = rng.choice([None, None, 0, 1, 2])
    return o


class Out(io.StringIO):
    """Standard output that may fail (a full disk behind a redirection, a closed pipe)."""

    def __init__(self, after=None):
        super().__init__()
        self.left = after

    def write(self, s):
        if self.left is not None and s != "\n":
            if self.left == 0:
                raise OSError(28, "No space left on device")
            self.left -= 1
        return super().write(s)


class C17(Check):
    id = "C17"
    runs = {"quick": 750, "thorough": 16000}
    batch = 4
    shrink_lists = ("ops",)
    rule = "a run with a new trace in which a tool exited 0 and a fault fired"
    real = ["yapcad.dsl (__main__, compiler, interpreter, packaging)", "tools/ycpkg_export.py", "tools/ycpkg_validate.py", "yapcad.package.analysis.cli", "yapcad.io, yapcad.ezdxf_exporter, ezdxf"]
    stub = ["filesystem (in-memory, crash/torn/error model)", "clock", "entropy", "standard output"]
    assumptions = ["rename is atomic and ordered with the writes that were synced before it", "pythonocc is not installed: STEP is the faceted writer"]
    states_measure = "distinct (tool, what was asked, exit, per-target content old/new/none, fault kinds)"

    def preload(self):
        P.preload()
        S.preload()
        from yapcad.dsl import __main__ as dsl
        T["dsl"] = dsl
        for n in ("ycpkg_export", "ycpkg_validate"):
            sp = importlib.util.spec_from_file_location("dst_" + n, f"{REPO}/tools/{n}.py")
            T[n] = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(T[n])

    def gen(self, rng, index, tier):
        ops = [{"op": "edit", "prog": rng.choice(["box", "cube", "two", "rect", "tri"]), "branches": []}]
        if rng.random() < 0.6:
            ops.append({"op": "pack", "shape": P.gen_entities(rng), "hurt": None, "branches": []})
        for _ in range(rng.randint(2, 6 if tier == "quick" else 12)):
            o = gen_op(rng)
            if o["op"] == "run" and rng.random() < 0.5:
                prev = [p for p in ops if p["op"] == "run"]
                if prev:
                    o.update(out=prev[-1]["out"], package=prev[-1]["package"], force=True)
            ops.append(o)
            if o["op"] == "export" and rng.random() < 0.5 and [q for q in ops if q["op"] == "pack"]:
                # the package changes a little and is exported to the same place again
                q = json.loads(json.dumps([q for q in ops if q["op"] == "pack"][-1]))
                q["hurt"] = None
                for sh in q["shape"]:
                    sh["p"] = [round(x * rng.choice([1, 1.5, 0.75]), 3) if isinstance(x, float) else x for x in sh["p"]]
                ops += [q, dict(json.loads(json.dumps(o)), overwrite=rng.random() < 0.8, branches=o["branches"][:1])]
        return {"seed": rng.randrange(1 << 30), "ops": ops}

    # ------------------------------------------------------------ invoking
    def tool(self, argv, out_fail=None):
        """Returns op(mem) -> (exit code, stdout, stderr); exceptions end a tool as the interpreter would: exit 1, traceback."""
        def op(mem):
            out, err = Out(out_fail), io.StringIO()
            keep = sys.argv
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                    try:
                        if argv[0] == "dsl":
                            sys.argv = ["yapcad.dsl"] + argv[1:]
                            code = T["dsl"].main()
                        elif argv[0] == "analyze":
                            code = P.Y["acli"].main(argv[1:])
                        else:
                            code = T[argv[0]].main(argv[1:])
                    except SystemExit as e:
                        code = e.code
                    except Exception as e:
                        code, _ = 1, err.write(f"{type(e).__name__}: {e}")
            finally:
                sys.argv = keep
            return code or 0, out.getvalue(), err.getvalue()
        return op

    def argv(self, o, src):
        k = o["op"]
        if k in ("check", "list"):
            return ["dsl", k, src]
        if k == "run":
            a = ["dsl", "run", src, o["cmd"]]
            for p in o["params"]:
                a += ["--param", p]
            if o["package"]:
                a += ["--package", f"{W}/{o['package']}"] + (["--force"] if o["force"] else []) + (["--name", o["name"]] if o["name"] else [])
            elif o["out"]:
                a += ["--output", f"{W}/o/{o['out']}"]
            return a
        if k == "export":
            a = ["ycpkg_export", f"{W}/pk"]
            for f in o["fmts"]:
                a += ["--format", f]
            return a + (["--output", f"{W}/o/{o['out']}"] if o["out"] else []) + (["--overwrite"] if o["overwrite"] else [])
        if k == "validate":
            return ["ycpkg_validate", f"{W}/pk"] + (["--strict"] if o["strict"] else [])
        return ["analyze", f"{W}/pk", "--plan", o["plan"]]

    # ------------------------------------------------------------ what should come of it
    def params(self, o):
        """The parameters as the user meant them, or None when they are wrong"""
        d = {}
        for p in o["params"]:
            if "=" not in p:
                return None
            n, v = p.split("=", 1)
            if PROGS[self.prog][1] == "text":
                v = v.strip()
                d[n.strip()] = v[1:-1] if v[:1] == "'" else v
                continue
            try:
                d[n.strip()] = float(v)
            except ValueError:
                return None
        if PROGS[self.prog][1] == "int" and "w" in d and d["w"] != int(d["w"]):
            return None
        return d if "w" in d else None

    def meant(self, o, prog):
        """('solids'|'figure'|'value', description) the program gives for these parameters, None when it must fail"""
        kind = PROGS[prog][1]
        d = self.params(o)
        if kind is None or o["cmd"] != "C" or d is None:
            return None
        w = d["w"]
        if kind == "need" and not w > 5 or kind == "text" and w != "5" or set(d) - {"w"} - ({"d", "h"} if kind == "box" else set()):
            return None
        bb = lambda x, y, z, c=0: ([-x / 2 + c, -y / 2, -z / 2], [x / 2 + c, y / 2, z / 2], x * y * z)
        if kind == "box":
            return "solids", [bb(w, d.get("d", 3.0), d.get("h", 2.0))]
        if kind == "cube":
            return "solids", [bb(w, w, w, w)]
        if kind == "two":
            return "solids", [bb(w, 1, 1), bb(1, 1, w, 100)]
        if kind == "three":
            return "solids", [bb(w, 1, 1), bb(1, 1, w, 100), bb(w, 1, 2, -100)]
        if kind == "text":
            return "solids", [bb(1, 1, 1)]
        if kind in ("one", "need", "int"):
            return "solids", [bb(w, 1, 1)]
        if kind == "rect":
            return "figure", [((-w / 2, -1.5), (w / 2, -1.5)), ((w / 2, -1.5), (w / 2, 1.5)), ((w / 2, 1.5), (-w / 2, 1.5)), ((-w / 2, 1.5), (-w / 2, -1.5))]
        if kind == "tri":
            return "figure", [((0, 0), (w, 0)), ((w, 0), (w, 2)), ((w, 2), (0, 0))]
        if kind == "circ":
            return "figure", w
        return "value", 2 * w

    def measure(self, tris):
        lo = [min(v[i] for t in tris for v in t) for i in range(3)]
        hi = [max(v[i] for t in tris for v in t) for i in range(3)]
        vol = 0.0
        for a, b, c in tris:
            vol += (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])) / 6
        return lo, hi, vol

    def solid_file(self, ext, data, want):
        lo = [min(b[0][i] for b in want) for i in range(3)]
        hi = [max(b[1][i] for b in want) for i in range(3)]
        vol = sum(b[2] for b in want)
        near = lambda p, q: all(abs(x - y) <= 1e-4 * (1 + abs(y)) for x, y in zip(p, q))
        if ext == "stl":
            t = S.read_any_stl(data)
            if not t:
                return "not a whole STL file"
            l, h, v = self.measure(t)
            if not (near(l, lo) and near(h, hi) and abs(v - vol) <= 1e-3 * (1 + vol)):
                return f"solid spans {l}..{h} volume {v:.4f}, asked for {lo}..{hi} volume {vol:.4f}"
            return None
        t = data.decode("utf-8", "replace")
        if not t.startswith("ISO-10303-21;\n") or not t.endswith("ENDSEC;\nEND-ISO-10303-21;\n") or not re.search(r"= ADVANCED_FACE\(|= FACE_SURFACE\(", t):
            return "not a whole STEP file"
        pts = [tuple(float(x) for x in m.split(",")) for m in re.findall(r"CARTESIAN_POINT\('', \(([^)]*)\)\)", t)]
        ends = [min(p[i] for p in pts) for i in range(3)], [max(p[i] for p in pts) for i in range(3)]
        inc = lambda l, h: all(a <= b + 1e-4 for a, b in zip(l, lo)) and near(h, hi)
        if not near(ends[1], hi) and not inc(*ends) or not all(abs(min(a, 0) - min(b, 0)) < 1e-4 for a, b in zip(ends[0], lo)):
            return f"solid spans {ends}, asked for {lo}..{hi}"
        return None

    def figure_file(self, data, want):
        t = data.decode("utf-8", "replace")
        if not t.rstrip().endswith("EOF"):
            return "no EOF"
        es = [e for e in Y["ezdxf"].read(io.StringIO(t.replace("\r\n", "\n"))).modelspace()]
        if isinstance(want, float):
            got = [round(e.dxf.radius, 5) for e in es]
            return None if got == [round(want, 5)] else f"{got} for a circle of radius {want}"
        key = lambda a, b: tuple(sorted([(round(a[0], 4) + 0.0, round(a[1], 4) + 0.0), (round(b[0], 4) + 0.0, round(b[1], 4) + 0.0)]))
        got = sorted(key(e.dxf.start, e.dxf.end) for e in es if e.dxftype() == "LINE")
        exp = sorted(key(a, b) for a, b in want)
        return None if len(got) == len(exp) == len(es) and all(abs(x - y) < 1e-3 for g, q in zip(got, exp) for a, b in zip(g, q) for x, y in zip(a, b)) else f"{got}, asked for {exp}"

    # ------------------------------------------------------------ a run
    def run(self, plan):
        r = Result()
        self.good = self.hit = False
        with World(plan["seed"]) as w:
            fs = w.fs
            self.fs, self.ents, self.hurt, self.prog = fs, None, None, None
            fs.mkdirs(W + "/o")
            fs.mkdirs(W + "/o/dir.step"), fs.mkdirs(W + "/o/sub")
            fs.put(W + "/o/real.stl", b"previous")
            fs.symlink("real.stl", W + "/o/link.stl")
            for e in ("stl", "dxf"):
                fs.put(f"{W}/o/locked.{e}", b"locked", mode=0o444)
            import os
            for i, o in enumerate(plan["ops"]):
                w.advance(1.0)
                os.environ.pop("YAPCAD_STEP_FORMAT", None)
                if o.get("fmt"):
                    os.environ["YAPCAD_STEP_FORMAT"] = o["fmt"]
                e = self.edit(o, w, r, i) if o["op"] == "edit" else self.pack(o, w, r, i) if o["op"] == "pack" else self.step(o, w, r, i)
                if e:
                    r.v(*e)
                    break
            if fs.escapes and not r.violations:
                r.v("escape", repr(fs.escapes[:3]))
        r.nontrivial = self.good and self.hit
        return r

    def edit(self, o, w, r, i):
        s = PROGS[o["prog"]][0]
        w.fs.put(W + "/p.dsl", s if isinstance(s, bytes) else s.encode())
        self.prog = o["prog"]
        r.t(i, "edit", o["prog"])

    def pack(self, o, w, r, i):
        fs = w.fs
        fs.rm(W + "/pk") if fs.has(W + "/pk") else None
        self.ents, self.hurt = None, o["hurt"]
        if o["hurt"] == "gone":
            return None
        self.ents = [P.build_shape(s) for s in o["shape"]]
        P.Y["core"].create_package_from_entities(self.ents, Path(W + "/pk"), name="p", version="1", overwrite=True)
        self.ents = [P.build_shape(s) for s in o["shape"]]
        self.kinds = ["surface" if s["k"] == "surface" else "sketch" if s["k"] == "sketch" else "solid" for s in o["shape"]]
        self.shape = o["shape"]
        self.spoil(fs, o["hurt"])
        for f, t in (("plan.yaml", "id: v\nkind: geometry\nbackend: yapcad\nacceptance:\n  volume:\n    limit: 1000000000.0\n    comparison: '<='\n"), ("bad.yaml", "id: [")):
            fs.put(f"{W}/pk/{f}", t)
        r.t(i, "pack", self.kinds, o["hurt"])

    def spoil(self, fs, hurt):
        if hurt == "geometry":
            fs.put(W + "/pk/geometry/primary.json", fs.get(W + "/pk/geometry/primary.json")[:-20])
        if hurt == "manifest":
            fs.put(W + "/pk/manifest.yaml", "schema: [")
        if hurt == "nomanifest":
            fs.rm(W + "/pk/manifest.yaml")

    def expect(self, o):
        """(must it succeed: True/False/None, {target: judge(data) -> complaint})"""
        fs, k = self.fs, o["op"]
        if k == "check":
            return (self.prog in OK_CHECK or None if self.prog == "empty" else self.prog in OK_CHECK), {}
        if k == "list":
            return (None if self.prog in ("type", "div", "empty") else self.prog not in ("syntax", "binary")), {}
        if k == "run":
            m = self.meant(o, self.prog)
            if m is None:
                return False, {}
            if o["package"]:
                pk = f"{W}/{o['package']}"
                if fs.tree(pk) and not o["force"]:
                    return False, {}
                return (True if m[0] == "solids" else None if m[0] == "figure" else False), {}
            if o["out"] is None:
                return True, {}
            p = f"{W}/o/{o['out']}"
            ext = o["out"].rsplit(".", 1)[1].lower() if "." in o["out"] else ""
            ext = {"stp": "step"}.get(ext, ext)
            if ext not in ("stl", "step", "dxf"):
                return False, {}
            if (m[0] == "solids") != (ext in ("stl", "step")) or m[0] == "value":
                return False, {}
            free = o["out"] not in ("gone/x.stl", "locked.stl", "locked.dxf", "dir.step") and not (fs.has(p) and fs._walk(p).kind == "d")
            return (True if free else None), {p: (lambda d: self.solid_file(ext, d, m[1])) if m[0] == "solids" else (lambda d: self.figure_file(d, m[1]))}
        if self.ents is None or self.hurt:
            if k == "validate" or k == "export" or self.hurt != "geometry":
                return False, {}
        if k == "validate":
            return (None if o["strict"] else not self.hurt), {}
        if k == "analyze":
            return (True if o["plan"] == "plan.yaml" and not self.hurt and "solid" in self.kinds else False if o["plan"] != "plan.yaml" else None), {}
        out = f"{W}/o/{o['out']}" if o["out"] else f"{W}/pk/exports"
        fm = set(o["fmts"]) or {"step"}
        if "all" in fm:
            fm |= {"step", "stl", "dxf"}
        tg = {}
        sol = [e for e, q in zip(self.ents, self.kinds) if q == "solid"]
        sur = [e for e, q in zip(self.ents, self.kinds) if q == "surface"]
        ske = [s for s, q in zip(self.shape, self.kinds) if q == "sketch"]
        J = lambda kind, e: lambda d: S.judge(kind, d, e, None, {"name": None, "layers": None, "color": None})
        for n, e in enumerate(sol, 1):
            if fm & {"step", "step-analytic"}:
                tg[f"{out}/solid_{n:02d}.step"] = J("step", e)
            if "stl" in fm:
                tg[f"{out}/solid_{n:02d}.stl"] = J("stl", e)
        for n, e in enumerate(sur, 1):
            if fm & {"step", "step-analytic"}:
                tg[f"{out}/surface_{n:02d}.step"] = J("step", e)
        if ske and "dxf" in fm:
            tg[f"{out}/sketches.dxf"] = lambda d: self.sketch_file(d, ske)
        if not tg:
            return False, {}
        if not o["overwrite"] and any(fs.has(t) for t in tg):
            return False, dict(tg)
        if fs.has(out) and fs._walk(out).kind != "d":
            return False, dict(tg)
        return True, tg

    def sketch_file(self, data, ske):
        t = data.decode("utf-8", "replace")
        if not t.rstrip().endswith("EOF"):
            return "no EOF"
        got = {}
        for e in Y["ezdxf"].read(io.StringIO(t.replace("\r\n", "\n"))).modelspace():
            got.setdefault(e.dxf.layer, []).append(e)
        for n, s in enumerate(ske, 1):
            es = got.get(f"SKETCH_{n:02d}", [])
            types = sorted(e.dxftype() for e in es)
            if types != ["ARC"] + ["LINE"] * s["p"][2]:
                return f"sketch {n}: {types} for {s['p'][2]} lines and an arc"
            xs = sorted(round(e.dxf.start[0], 4) for e in es if e.dxftype() == "LINE")
            arc = [e for e in es if e.dxftype() == "ARC"][0].dxf
            if any(abs(x - j * s["p"][0]) > 1e-3 for j, x in enumerate(xs)) or abs(arc.radius - s["p"][0]) > 1e-3 or (arc.start_angle, arc.end_angle) != (0, 90):
                return f"sketch {n}: lines at {xs}, arc {arc.radius} {arc.start_angle} {arc.end_angle}"
        return None if len(got) == len(ske) else f"layers {sorted(got)}"

    # ------------------------------------------------------------ judging one invocation
    def files(self):
        return {p: b for p, b in self.fs.files(W).items()}

    def pkg(self, o):
        return o["package"] if o["op"] == "run" and o["package"] else "pk" if o["op"] == "analyze" else None

    def split(self, o, files):
        """Files other than those of a package this tool may change"""
        p = self.pkg(o)
        return {q: b for q, b in files.items() if not (p and (q.startswith(p + "/")))}

    def step(self, o, w, r, i):
        fs, k = w.fs, o["op"]
        must, targets = self.expect(o)
        op = self.tool(self.argv(o, W + "/p.dsl"))
        ex = Explorer(w, r)
        snap = ex.snapshot()
        before = self.files()
        seen = []

        def watch(cls, path):
            if not targets:
                return
            fs.quiet += 1
            try:
                seen.append({t: self.content(t) for t in targets})
            finally:
                fs.quiet -= 1
        w.extra_on_op = watch
        st, v, n, _ = ex.clean(snap, op)
        w.extra_on_op = None
        what = " ".join(self.argv(o, "p.dsl"))
        if st != "ok":
            return ("bad-outcome", f"{what}: {st} {v!r}")
        code = v[0]
        after = self.files()
        r.t(i, what, self.prog, "->", code, sorted(set(after) - set(before)))
        r.state(k, self.prog if k in ("run", "check", "list") else self.hurt, o.get("out"), code)
        if must is not None and (code == 0) != must:
            return ("exit-status-wrong", f"{what} ({self.prog}, package {self.hurt}) exited {code}, expected {'0' if must else 'nonzero'}: {v[1][-200:]!r} {v[2][-300:]!r}")
        if code == 0:
            self.good = True
        e = self.judge(o, v, targets, before, after, what)
        if e:
            return e
        old, new = {t: self.get(before, t) for t in targets}, {t: self.get(after, t) for t in targets}
        for s in seen:
            for t in targets:
                if s[t] not in (old[t], new[t]):
                    return ("half-written-visible", f"while {what} ran, {t} held {str(s[t])[-60:]!r}")
        for b in o["branches"]:
            e = self.branch(o, w, r, ex, snap, op, n, b, v, before, after, targets, what)
            if e:
                return e
        if o.get("out_fail") is not None and k != "validate":
            e = self.deaf(o, w, r, ex, snap, n, v, before, after, targets, what)
            if e:
                return e
        tree = snap.tree
        mem = ex.clean(snap, op)
        fs.disarm()
        return None

    def get(self, files, t):
        return files.get("o/real.stl" if t.endswith("link.stl") else t[len(W) + 1:])

    def content(self, t):
        return self.fs.get(t) if self.fs.has(t) and self.fs._walk(t).kind == "f" else None

    def judge(self, o, v, targets, before, after, what):
        code, out, err = v
        k = o["op"]
        inner = {t[len(W) + 1:] for t in targets}
        if o.get("out") == "link.stl" and k == "run":
            inner.add("o/real.stl")
        b0, a0 = self.split(o, before), self.split(o, after)
        for q in sorted(set(b0) | set(a0)):
            if b0.get(q) != a0.get(q) and (q not in inner or code != 0):
                return ("unasked-change" if q not in inner else "failed-tool-changed-output", f"{what} (exit {code}): {q} went from {str(b0.get(q))[:40]} to {str(a0.get(q))[:40]}")
        if code != 0:
            if not (out + err).strip():
                return ("no-reason", f"{what} exited {code} and said nothing")
            if k in ("analyze", "run") and self.pkg(o) and before != after and k == "run":
                return ("failed-tool-changed-package", f"{what} exited {code}: {sorted(set(before) ^ set(after))[:4]}")
            return None
        for t, j in targets.items():
            d = self.get(after, t)
            bad = "missing" if d is None else j(d)
            if bad:
                return ("output-wrong", f"{what} exited 0 ({self.prog}) but {t}: {bad}"[:600])
        if k == "list":
            names = re.findall(r"command (\w+)\(", PROGS[self.prog][0] if isinstance(PROGS[self.prog][0], str) else "")
            if not all(f"{n}(" in out for n in names):
                return ("listing-wrong", f"{what}: {out!r}")
        if k == "export" and sorted(x for x in out.split("\n") if x) != sorted(targets):
            return ("listing-wrong", f"{what} printed {out!r}")
        if k == "run" and o["package"]:
            return self.judge_pkg(o, what)
        if k == "analyze":
            return self.judge_analysis(o, what)
        return None

    def judge_pkg(self, o, what):
        pk = f"{W}/{o['package']}"
        st, v = call(P.Y["validator"].validate_package, pk)
        if st != "ok" or not v[0]:
            return ("package-wrong", f"{what} exited 0, but {v!r}"[:400])
        src = PROGS[self.prog][0]
        if self.fs.get(pk + "/attachments/source.dsl").decode() != src:
            return ("package-wrong", f"{what}: another source is attached")
        st, m = call(P.Y["core"].PackageManifest.load, Path(pk))
        ents = P.Y["core"].load_geometry(m)
        d = m.data
        given = {k2: x if isinstance(x, str) else float(x) for k2, x in (d["generator"]["dsl"]["parameters"]).items()}
        if given != self.params(o) or d.get("name") != (o["name"] or "c"):
            return ("package-wrong", f"{what}: parameters {given}, name {d.get('name')!r}")
        want = self.meant(o, self.prog)
        if want and want[0] == "solids":
            for e, b in zip(ents, want[1]):
                tris = [t[1:] for t in Y["M"].mesh_view(e)]
                l, h, vol = self.measure(tris)
                if max(abs(x - y) for x, y in zip(l + h, b[0] + b[1])) > 1e-6 or len(ents) != len(want[1]):
                    return ("package-wrong", f"{what}: solid spans {l}..{h}, asked for {b}")
        return None

    def judge_analysis(self, o, what):
        m = P.load_yaml(self.fs.get(W + "/pk/manifest.yaml"))
        rs = [x for x in m.get("validation", {}).get("results", []) if x.get("plan") == "v"]
        try:
            s = json.loads(self.fs.get(W + "/pk/" + rs[0]["path"]))
        except (OSError, ValueError, IndexError, KeyError) as e:
            return ("analysis-missing", f"{what} exited 0, but {e!r} ({rs})")
        return None if s.get("status") == rs[0].get("status") and len(rs) == 1 else ("analysis-missing", f"{what}: {rs} {s}")

    def outcome(self, o, st, v, before, after, targets, what, loose=False):
        """After a faulted or interrupted invocation: (complaint, class)"""
        cur = self.files()
        ok = st == "ok" and v[0] == 0
        cls = []
        for t in targets:
            c, b, a = self.get(cur, t), self.get(before, t), self.get(after, t)
            cls.append("new" if c == a else "old" if c == b else "torn")
            if cls[-1] == "torn" and (self.base != 0 and c is not None and targets[t](c) is None):
                cls[-1] = "whole"
            if cls[-1] == "torn":
                return ("torn-output", f"{what} ({st} {v!r}): {t} holds {str(c)[-60:]!r}"), cls
            if ok and cls[-1] != "new":
                return ("success-without-output", f"{what} exited 0, but {t} is {cls[-1]}"), cls
        if ok and self.base != 0:
            return ("success-only-with-fault", f"{what} exits {self.base} normally but 0 here: {v[1][-200:]!r}"), cls
        if st == "ok" and v[0] != 0 and not (v[1] + v[2]).strip():
            return ("no-reason", f"{what} exited {v[0]} and said nothing"), cls
        inner = {t[len(W) + 1:] for t in targets} | {"o/real.stl"}
        b0, c0 = self.split(o, before), self.split(o, cur)
        for q in sorted(set(b0) | set(c0)):
            if b0.get(q) != c0.get(q) and q not in inner and not ((st == "crash" or loose) and q not in b0):
                return ("unasked-change", f"{what} ({st} {v!r}): {q} went from {str(b0.get(q))[:40]} to {str(c0.get(q))[:40]}"), cls
        return None, cls

    def branch(self, o, w, r, ex, snap, op, n, b, v0, before, after, targets, what):
        fs, k = w.fs, o["op"]
        self.base = v0[0]
        if b["nested"]:
            # the same tool started a second time while the first one runs
            at, cnt, res = int(b["at"] * n), [0], []

            def intrude(cls, path):
                cnt[0] += 1
                if cnt[0] - 1 == at:
                    w.extra_on_op = None
                    res.append(call(op, None))
            ex.restore(snap)
            w.extra_on_op = intrude
            st, v = call(op, None)
            w.extra_on_op = None
            r.faults["second_run_in_between"] += 1
            if st != "ok" or res and res[0][0] != "ok":
                return ("bad-outcome", f"{what} twice at once: {st} {v!r} {res}")
            codes = [v[0]] + [x[1][0] for x in res]
            r.t("  twice", codes)
            for t, j in targets.items():
                d = self.content(t)
                if 0 in codes and (d is None or j(d)):
                    return ("runs-mix", f"{what} twice at once (exits {codes}): {t} {'missing' if d is None else j(d)}")
            if v0[0] != 0 and 0 in codes:
                return ("success-only-with-fault", f"{what} twice at once: {codes}")
            return None
        st, v, fired, _ = ex.faulty(snap, op, b["faults"], n, b["restart"], b["rs"], late=b.get("late", False))
        e, cls = self.outcome(o, st, v, before, after, targets, f"{what} with {b['faults']}/{b['restart']}", len(b["faults"]) > 1)
        r.t("  fault", json.dumps(b["faults"]), b["restart"], st, v and v[0], cls)
        r.state(k, "fault", st, v and v[0], tuple(sorted(set(cls))), tuple(sorted(fired)))
        if fired:
            self.hit = True
        if e:
            return e
        if st == "ok" and v[0] == 0:
            if k == "run" and o["package"]:
                e = self.judge_pkg(o, what + f" with {b['faults']}")
            elif k == "analyze":
                e = self.judge_analysis(o, what + f" with {b['faults']}")
            elif k in ("list", "check", "export", "validate") and v[1] != v0[1]:
                e = ("report-differs", f"{what} with {b['faults']} printed {v[1]!r}, otherwise {v0[1]!r}")
            if e:
                return e
        # once the fault is gone the same command does it
        if v0[0] == 0:
            o2 = self.argv(o, W + "/p.dsl") + (["--overwrite"] if k == "export" and not o["overwrite"] else ["--force"] if k == "run" and o["package"] and not o["force"] else [])
            st, v = call(self.tool(o2), None)
            if st != "ok" or v[0] != 0:
                return ("impossible-after-fault", f"{what} after {b['faults']}: {st} {v!r}")
            for t, j in targets.items():
                d = self.content(t)
                if d is None or j(d):
                    return ("impossible-after-fault", f"{what} after {b['faults']}: {t} {'missing' if d is None else j(d)}")
        return None

    def deaf(self, o, w, r, ex, snap, n, v0, before, after, targets, what):
        """Standard output fails while the tool runs"""
        self.base = v0[0]
        ex.restore(snap)
        st, v = call(self.tool(self.argv(o, W + "/p.dsl"), o["out_fail"]), None)
        r.faults["stdout_error"] += 1
        if st != "ok":
            return ("bad-outcome", f"{what}, standard output failing: {st} {v!r}")
        e, cls = self.outcome(o, st, v, before, after, targets, f"{what}, standard output failing after {o['out_fail']} lines")
        r.t("  deaf", o["out_fail"], v[0], cls)
        return e


CHECK = C17()
