"""A pool of independent user jobs (evaluations, builds, booleans, conversions) with comparable results."""
from __future__ import annotations

import copy
import io
import json
import math
import re

from . import pkgsim as P
from . import svcsim as V

M = {}
ADDR = re.compile(r"0x[0-9a-f]+")
HEX32 = re.compile(r"\b[0-9a-f]{32}\b")


def preload(warm=True):
    import yapcad
    from yapcad import geom, geom3d, geom3d_util, geom_util, geometry_checks, triangulator, metadata, poly, spline, threadgen, text3d
    from yapcad import boolean
    from yapcad.io import geometry_json, stl, meta_yaml
    from yapcad.fasteners import catalog
    from yapcad.contrib import figgear
    from yapcad.dsl import lexer, parser, checker
    from yapcad.dsl.runtime import interpreter
    from yapcad.geometry import Geometry
    M.update(geom=geom, g3=geom3d, g3u=geom3d_util, gu=geom_util, gc=geometry_checks, tri=triangulator, meta=metadata, poly=poly,
             spline=spline, thread=threadgen, text=text3d, boolean=boolean, gj=geometry_json, stl=stl, my=meta_yaml, cat=catalog,
             fig=figgear, lexer=lexer, parser=parser, checker=checker, interp=interpreter, Geometry=Geometry)
    try:
        import trimesh, manifold3d, mapbox_earcut, networkx, shapely  # noqa
    except Exception:
        pass


# ------------------------------------------------------------------ canonical form
def canon(x, depth=0):
    if x is None or isinstance(x, bool):
        return str(x)
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, str):
        return HEX32.sub("H", ADDR.sub("A", V.STAMP.sub("T", V.UUID.sub("U", x))))
    if isinstance(x, bytes):
        return "b" + x.hex()
    if isinstance(x, dict):
        return "{" + ",".join(sorted(canon(k) + ":" + canon(v, depth + 1) for k, v in x.items())) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(v, depth + 1) for v in x) + "]"
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(canon(v) for v in x)) + "}"
    if hasattr(x, "tolist"):
        return canon(x.tolist(), depth + 1)
    if hasattr(x, "__dict__") and depth < 12:
        return type(x).__name__ + canon({k: v for k, v in vars(x).items()}, depth + 1)
    return ADDR.sub("A", f"{type(x).__name__}")


def short(c):
    import hashlib
    return f"{c[:60]}..#{len(c)}#{hashlib.sha256(c.encode('utf-8', 'replace')).hexdigest()[:10]}" if len(c) > 80 else c


# ------------------------------------------------------------------ generation
def gen_job(rng, small=True):
    d = lambda lo=0.5, hi=9.0: round(rng.uniform(lo, hi), 2)
    k = rng.choice(["dsl"] * 12 + ["sphere", "sphere", "oblate", "conic", "dodeca", "revsurf", "revsurf", "revsolid", "loft", "extrude", "bool", "booltri",
                    "json", "poly2d", "hole2d", "triangulate", "cat", "cat", "catpath", "check", "gear", "parse", "parse", "stl", "thread", "spline", "pattern", "text", "geomobj", "layers"])
    if rng.random() < 0.15:
        k = "dsl" if rng.random() < 0.8 else k
    return {"k": k, "a": [d(), d(), d(), d()], "n": rng.randrange(3, 7), "prog": gen_prog(rng)}


DSLX = ["tube", "gear", "union2", "diff", "inter", "bool2d", "area", "poly", "compound", "native", "nested", "comp", "recur", "deep", "meta",
        "match", "pattern", "oblate", "dodeca", "conic", "loop", "ifs", "early", "unhelper", "unnative", "unvar", "shadow", "defaults", "wrongparam", "req2", "natstate",
        "loopbool", "exportlike", "curves", "points", "sum", "natraise", "xform", "fillet", "print", "listmut", "rad",
        "native", "native", "natstate", "deep", "deep", "recur", "nested", "natraise"]


def gen_prog(rng):
    if rng.random() < 0.5:
        return V.gen_prog(rng)
    d = lambda: round(rng.uniform(0.5, 9.0), 2)
    return {"k": "x:" + rng.choice(DSLX), "a": [d(), d(), d()], "n": rng.randrange(2, 5), "lay": rng.randrange(4)}


def dsl_source(sp, tag):
    if not sp["k"].startswith("x:"):
        return V.source(sp, tag)
    a, n = [repr(float(x)) for x in sp["a"]], sp["n"]
    body = {
        "tube": f"command C() -> solid {{ emit tube({float(a[0]) + 3.0}, 0.5, {a[1]}); }}",
        "shell": f"command C() -> solid {{ emit spherical_shell({float(a[0]) + 3.0}, 0.5); }}",
        "oblate": f"command C() -> solid {{ emit oblate_spheroid({a[0]}, 0.1); }}",
        "dodeca": f"command C() -> solid {{ emit dodecahedron({a[0]}); }}",
        "conic": f"command C() -> solid {{ emit translate(cone({a[0]}, {a[1]}, {a[2]}), 1.0, 2.0, 3.0); }}",
        "gear": f"command C() -> solid {{ emit involute_gear({n + 8}, 1.0, 20.0, 3.0); }}",
        "union2": f"command C() -> solid {{ emit union(box({a[0]}, {a[1]}, {a[2]}), translate(box({a[1]}, {a[2]}, {a[0]}), 0.31, 0.17, 0.23)); }}",
        "diff": f"command C() -> solid {{ emit difference(box({a[0]}, {a[1]}, {a[2]}), translate(box(0.4, 0.4, 20.0), 0.05, 0.03, 0.0)); }}",
        "inter": f"command C() -> solid {{ emit intersection(box({a[0]}, {a[1]}, {a[2]}), rotate(box({a[1]}, {a[2]}, {a[0]}), 0.0, 0.0, 30.0)); }}",
        "bool2d": f"command C() -> region2d {{ emit difference2d(rectangle({a[0]}, {a[1]}), regular_polygon({n + 2}, 0.2)); }}",
        "area": f"command C() -> float {{ emit area(rectangle({a[0]}, {a[1]})) + perimeter(regular_polygon({n + 2}, {a[2]})); }}",
        "poly": f"command C() -> region2d {{ emit regular_polygon({n + 3}, {a[0]}); }}",
        "compound": f"command C() -> solid {{ emit compound(box({a[0]}, 1.0, 1.0), translate(sphere({a[1]}), 20.0, 0.0, 0.0)); }}",
        "native": f"native python {{\ndef sq(x):\n    return x * x + {a[1]}\n}} exports {{ fn sq(x: float) -> float; }}\ncommand C() -> float {{ emit sq({a[0]}); }}",
        "nested": f"command A1(x: float) -> float {{ emit x * {a[1]}; }}\ncommand B1(x: float) -> float {{ emit A1(x) + A1(x + 1.0); }}\ncommand C() -> float {{ emit B1({a[0]}); }}",
        "comp": f"command C() -> list<float> {{ emit [x * y + {a[0]} for x in range({n}) for y in range({n})]; }}",
        "recur": f"command R(x: int) -> int {{ emit R(x + 1); }}\ncommand C() -> int {{ emit R(0); }}",
        "deep": f"command R(x: int) -> int {{ emit (0 if x > {n * 24 + (2 if n == 4 else 0)} else R(x + 1)); }}\ncommand C() -> int {{ emit R(0); }}",
        "meta": f"command C() -> solid {{ let b: solid = box({a[0]}, {a[1]}, {a[2]}); emit b; }}",
        "dict": f"command C() -> float {{ let d: dict = {{\"a\": {a[0]}, \"b\": {a[1]}}}; emit d[\"a\"] + d[\"b\"]; }}",
        "match": f"command C() -> list<solid> {{ emit [box({a[0]}, i + 1.0, 1.0) for i in range({n})]; }}",
        "pattern": f"command C() -> list<solid>:\n    emit linear_pattern(box({a[0]}, {a[1]}, 1.0), {n}, vector(10.0, 0.0, 0.0))",
        "loop": f"command C() -> float:\n    t: float = 0.0\n    for i in range({n + 3}):\n        t = t + {a[0]} * i\n    emit t",
        "ifs": f"command C() -> float:\n    t: float = {a[0]}\n    if t < {a[1]}:\n        t = t + 1.0\n    elif t < {a[2]}:\n        t = t + 2.0\n    else:\n        t = 0.0 - t\n    emit t",
        "early": f"command s1(x: float) -> float:\n    emit x * 1.5 + {a[2]}\n\ncommand C() -> float:\n    x: float = {a[0]}\n    for i in range(20):\n        if x > {float(a[1]) * 3}:\n            emit x\n        x = s1(x)\n    emit x",
        "unhelper": f"command C() -> float {{ emit A1({a[0]}); }}",
        "unnative": f"command C() -> float {{ emit sq({a[0]}); }}",
        "unvar": f"command C() -> float {{ emit t + x + {a[0]}; }}",
        "shadow": f"command box(w: float) -> float {{ emit w * {a[1]}; }}\ncommand C() -> float {{ emit box({a[0]}); }}",
        "defaults": f"command C(w: float = {a[0]}, n: int = {n}) -> float {{ emit w * n; }}",
        "wrongparam": f"command C(w: float) -> float {{ emit w * {a[0]}; }}",
        "req2": f"command C() -> float:\n    w: float = {a[0]}\n    require w > {a[1]}\n    require w > {a[2]}\n    emit w",
        "natstate": f"native python {{\nacc = []\ndef push(x):\n    acc.append(x)\n    return sum(acc)\n}} exports {{ fn push(x: float) -> float; }}\ncommand C() -> float {{ emit push({a[0]}) + push({a[1]}); }}",
        "natraise": f"native python {{\ndef sq(x):\n    raise ValueError(str(x))\n}} exports {{ fn sq(x: float) -> float; }}\ncommand C() -> float {{ emit sq({a[0]}); }}",
        "loopbool": f"command C() -> solid:\n    r: solid = box({a[0]}, {a[1]}, 2.0)\n    for i in range({n - 1}):\n        r = difference(r, translate(box(0.1, 0.1, 9.0), 0.2 * i - 0.03, 0.07, 0.0))\n    emit r",
        "exportlike": f"command C() -> solid:\n    emit extrude(rectangle({a[0]}, {a[1]}), {a[2]})",
        "curves": f"command C() -> region2d:\n    p: list<point2d> = [point2d({a[0]} * cos(i * 1.0), {a[1]} * sin(i * 1.0)) for i in range(6)]\n    emit polygon(p)",
        "points": f"command C() -> list<point3d>:\n    emit [point(i * 1.0, {a[0]}, {a[1]}) for i in range({n})]",
        "sum": f"command C() -> float:\n    v: list<float> = [i * {a[0]} for i in range({n})]\n    emit sum(v) + max_of(v) + len(v)",
        "xform": f"command C() -> solid:\n    emit scale(rotate(mirror(box({a[0]}, {a[1]}, 1.0), \"xy\"), 10.0, {a[2]}, 0.0), 2.0)",
        "fillet": f"command C() -> solid:\n    emit fillet(box({a[0]}, {a[1]}, 1.0), 0.1)",
        "print": f"command C() -> float:\n    print({a[0]})\n    emit {a[1]}",
        "listmut": f"command C() -> list<float>:\n    v: list<float> = [{a[0]}, {a[1]}]\n    v = append(v, {a[2]})\n    emit concat(v, v)",
        "rad": f"command C() -> float:\n    emit sin(radians({a[0]} * 10.0)) + pow({a[1]}, 2.0) + atan2({a[1]}, {a[2]})",
    }[sp["k"][2:]]
    return f"# tag:{tag}\nmodule m;\n{body}\n", "C", ({"q": 1.0} if sp["k"] == "x:wrongparam" and sp["lay"] else {"w": float(a[2])} if sp["k"] == "x:wrongparam" else {"w": float(a[1])} if sp["k"] == "x:defaults" and sp["lay"] % 2 else {})


# ------------------------------------------------------------------ execution
def run_job(j, tag, abuse=False, dig=False):
    """The job's result in canonical form (exceptions included); abuse: then modify the returned object all over, as its owner may."""
    try:
        r = _run(j, tag)
        c = canon(r)
        if abuse:
            spoil(r)
    except RecursionError:
        c = "RecursionError"
    except Exception as e:
        c = f"{type(e).__name__}: {canon(str(e))}"
    return short(c) if dig else c


def spoil(x, seen=None):
    """Change every list and dict reachable in a result."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, seen)
        x.pop(next(iter(x)), None) if x else None
        x["spoiled"] = 666
    elif isinstance(x, list):
        for v in x:
            spoil(v, seen)
        for i, v in enumerate(x):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                x[i] = v + 666
                break
        else:
            x.append(666)
    elif isinstance(x, tuple):
        for v in x:
            spoil(v, seen)


def contour(a):
    def c(z):
        return 1.0 + a[0] * 0.1 + 0.5 * math.sin(z * a[1])
    return c


def _run(j, tag):
    k, a, n = j["k"], j["a"], j["n"]
    g3u, g3, geom = M["g3u"], M["g3"], M["geom"]
    if k == "dsl":
        src, cmd, params = dsl_source(j["prog"], tag)
        r = M["interp"].compile_and_run(source=src, command_name=cmd, parameters=params)
        return [r.success, r.geometry, r.error_message, [f.message for f in r.require_failures or []], r.metadata,
                r.provenance.to_dict() if r.provenance else None]
    if k == "sphere":
        return g3u.sphere(a[0], geom.point(a[1], a[2], a[3]), depth=n % 3) if n % 2 else g3u.sphere(a[0], depth=n // 3)
    if k == "oblate":
        return g3u.oblate_spheroid(a[0] + 1, 0.1, depth=2)
    if k == "shell":
        return g3u.spherical_shell(a[0] + 2, 0.4)
    if k == "conic":
        return g3u.conic(a[0], a[1] * 0.5, a[2])
    if k == "tube":
        return g3u.tube(a[0] + 2, 0.4, a[1])
    if k == "dodeca":
        return g3u.dodecahedron(a[0])
    if k == "revsurf":
        return g3u.makeRevolutionSurface(contour(a), 0.0, a[2], n, arcSamples=8)
    if k == "revsolid":
        return g3u.makeRevolutionSolid(contour(a), 0.0, a[2], n, arcSamples=8)
    if k == "loft":
        lo = [geom.point(math.cos(t), math.sin(t), 0) for t in [i * 2 * math.pi / n for i in range(n)]]
        hi = [geom.point(a[0] * math.cos(t), a[0] * math.sin(t), a[1]) for t in [i * 2 * math.pi / n for i in range(n)]]
        return g3u.makeLoftSolid(lo + lo[:1], hi + hi[:1])
    if k == "extrude":
        pl = [geom.point(a[0] * math.cos(t), a[1] * math.sin(t)) for t in [i * 2 * math.pi / n for i in range(n)]]
        s, _ = g3.poly2surface(pl + pl[:1])
        return g3u.extrude(s, a[2])
    if k in ("bool", "booltri"):
        p, q = g3u.prism(a[0], a[1], a[2]), g3u.prism(a[1], a[2], a[3], geom.point(0.21, 0.13, 0.37))
        op = ["union", "difference", "intersection"][n % 3]
        eng = M["boolean"].get_engine("native" if k == "bool" else "trimesh")
        r = eng.solid_boolean(p, q, op)
        if k == "booltri":
            return [r[0], len(r[1]), sorted(round(v, 6) for s in r[1] for p3 in s[1] for v in p3[:3])]
        return r
    if k == "json":
        s = g3u.prism(a[0], a[1], a[2])
        m = M["meta"].get_solid_metadata(s, create=True)
        M["meta"].set_layer(m, "l%d" % n)
        doc = M["gj"].geometry_to_json([s, g3u.conic(a[0], 0.5, a[1])])
        return [doc, M["gj"].geometry_from_json(json.loads(json.dumps(doc)))]
    if k in ("poly2d", "hole2d"):
        pl = M["poly"]
        r1 = pl.Rect(a[0] + 1, a[1] + 1)
        r2 = (pl.Rect(a[2] + 1, a[3] + 1, geom.point(0.3, 0.4)) if n % 2 else pl.RoundRect(a[2] + 1, a[3] + 1, 0.5)) if k == "poly2d" else pl.Circle(geom.point(0.1, 0.1), 0.4) if n % 2 else pl.Circle(radius=0.4)
        from yapcad.combine import Boolean
        b = Boolean(["union", "difference", "intersection"][n % 3] if k == "poly2d" else "difference", [r1, r2])
        gl = b.geom
        return [gl() if callable(gl) else gl, b.bbox, b.sample(0.3)]
    if k == "triangulate":
        outer = [[a[0] * math.cos(t), a[1] * math.sin(t)] for t in [i * 2 * math.pi / (n + 3) for i in range(n + 3)]]
        hole = [[0.1, 0.1], [0.1, 0.2], [0.2, 0.2]]
        return M["tri"].triangulate_polygon(outer, [hole])
    if k == "cat":
        c = M["cat"]
        s = ["metric_coarse", "metric_fine", "unified_coarse", "unified_fine"][n % 4]
        sizes = c.list_available_sizes(s)
        z = sizes[int(a[0] * 100) % len(sizes)]
        cls = c.list_tolerance_classes(s)
        d = c.get_thread_data(s, z)
        out = [sizes, cls, copy.deepcopy(d)]
        for f in (c.get_bolt_data, c.get_nut_data):
            try:
                out.append(f(s, z, cls[int(a[1]) % len(cls)]))
            except KeyError as e:
                out.append(str(e))
        return out
    if k == "catpath":
        return M["cat"].load_catalog("metric_coarse")
    if k == "check":
        s = g3u.sphere(a[0], depth=1)
        return [M["gc"].surface_watertight(s[1][0]), M["gc"].faces_oriented(s[1][0]), g3.solidbbox(s), g3.volumeof(s)]
    if k == "gear":
        return M["fig"].make_gear_figure(m=1.0, z=n + 8, alpha_deg=20.0, bottom_type="spline" if n % 2 else "line")
    if k == "parse":
        src, cmd, params = dsl_source(j["prog"], tag)
        mod = M["parser"].parse(M["lexer"].tokenize(src), source=src)
        c = M["checker"].check(mod)
        return [str(d) for d in c.diagnostics] + [str(mod)]
    if k == "stl":
        b = io.BytesIO()
        M["stl"].write_stl(g3u.conic(a[0], 0.5, a[1]), b)
        return [b.getvalue(), M["stl"].read_stl(io.BytesIO(b.getvalue()))]
    if k == "thread":
        p = M["thread"].metric_profile(6.0 + n, 1.0)
        return M["thread"].sample_thread_profile(p, 0.0, 3.0, 0.0)
    if k == "spline":
        sp = M["spline"]
        cp = [geom.point(i, a[i % 4]) for i in range(n + 2)]
        return [sp.bezier_curve(cp, 8), sp.bspline_curve(cp)]
    if k == "pattern":
        return g3u.radial_pattern_solid(g3u.prism(a[0], 1, 1, geom.point(10, 0, 0)), n)
    if k == "text":
        return M["text"].text_to_polygons("Ab" + str(n), height=a[0] + 1)
    if k == "geomobj":
        G = M["Geometry"](geom.arc(geom.point(a[0], a[1]), a[2], 10.0, 100.0 + n))
        s = G.sample(0.25)
        G.translate(geom.point(a[3], 0))
        G.rotate(30.0)
        return [s, G.sample(0.5), G.bbox, G.length]
    if k == "layers":
        s = g3u.prism(a[0], a[1], a[2])
        m = M["meta"]
        md = m.get_solid_metadata(s, create=True)
        m.set_layer(md, "x%d" % n)
        m.add_tags(md, ["a", "b%d" % n, "cc", "dd"])
        t = g3.translatesolid(s, geom.point(a[0], 0, 0))
        return [md, m.get_solid_metadata(t, create=True), g3.solidbbox(t)]
    raise KeyError(k)


def diff(a, b):
    """Where two canonical strings part."""
    if not isinstance(b, str):
        return f"expected {short(a)}, got {b!r:.100}"
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"alone ...{a[max(0, n - 30):n + 50]!r} (length {len(a)}), now ...{b[max(0, n - 30):n + 50]!r} (length {len(b)})"
