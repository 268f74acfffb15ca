"""C18: the viewer's scene is the result of the accepted commands, in one order, whoever sends them."""
import copy
import itertools
import json
import math
import random

from .. import sched as S
from .. import viewsim as V
from ..engine import Check, Result
from ..world import World, call

Y = {}
STL, POS, SHOT, CMD = "/sim/stl", "/sim/work/pos.json", "/sim/shots", "/sim/work/cmd.txt"
POS2 = "/sim/work/other.json"
NAMES = ["GEAR", "CASE", "SPARE_PART", "ARM", "ARM_COVER"]
HERE = list(NAMES)              # the names one plan uses
FILES = ["gear.stl", "case.stl", "sub/arm.stl", "GEAR.stl", "spare_part.stl"]
VIEWS = ["ISO", "TOP", "FRONT", "SIDE"]
PUB = ["part_loaded", "part_removed", "parts_cleared", "xray_changed", "camera_changed", "screenshot_saved", "selection_changed", "error"]
BAD = ["abc", None, [1], {"a": 1}, [[1, 2], [3, 4]]]
FAULTS = ["eio", "eio_read", "eacces", "emfile", "enospc", "disk_full", "eio_write", "short_write", "close_eio"]


# ---------------------------------------------------------------- generation
def gen_matrix(rng):
    r = rng.random()
    m = V.ident()
    if r < 0.55:
        a = math.radians(rng.choice([90, 180, 30, -45]))
        i, j = rng.choice([(0, 1), (1, 2), (2, 0)])
        m[i][i] = m[j][j] = round(math.cos(a), 12)
        m[i][j], m[j][i] = -round(math.sin(a), 12), round(math.sin(a), 12)
    for i in range(3):
        m[i][3] = rng.choice([0, 0, 5, -12.5, 100])
    return m


def gen_positions(rng):
    d = {}
    for n in rng.sample(HERE, rng.randint(0, len(HERE))):
        e = {}
        if rng.random() < 0.85:
            e["transform_matrix"] = gen_matrix(rng)
        if rng.random() < 0.6:
            e["stl_file"] = rng.choice(FILES)
        if rng.random() < 0.4:
            e["color"] = rng.choice([[1, 0, 0], [0.25, 0.5, 0.75]])
        d[n] = e
    bad = None
    if rng.random() < 0.3:
        bad = rng.choice(["json", "root", "entry", "rows", "cell", "empty", "short"])
        if bad in ("entry", "rows", "cell", "short") and not d:
            d["GEAR"] = {}
        if d:
            n = rng.choice(list(d))
            if bad == "entry":
                d[n] = rng.choice(["x", 3, None, [1]])
            if bad == "rows":
                d[n] = {"transform_matrix": gen_matrix(rng)[:3], "stl_file": "gear.stl"}
            if bad == "short":
                d[n] = {"transform_matrix": [r[:3] for r in gen_matrix(rng)], "stl_file": "gear.stl"}
            if bad == "cell":
                m = gen_matrix(rng)
                m[rng.randrange(4)][rng.randrange(4)] = rng.choice(["abc", None, [1]])
                d[n] = {"transform_matrix": m, "stl_file": "gear.stl"}
    return {"d": d, "bad": bad}


def pos_bytes(p):
    b = json.dumps(p["d"]).encode()
    if p["bad"] == "json":
        return b[: max(1, len(b) - 3)] + b"{"
    if p["bad"] == "root":
        return json.dumps([p["d"]]).encode()
    if p["bad"] == "empty":
        return b""
    return b


def gen_stl(rng):
    o = [rng.randint(-20, 20) for _ in range(3)]
    s = [rng.choice([1, 2, 10, 7.5]) for _ in range(3)]
    kind = rng.choice(["ascii"] * 4 + ["bin"] * 3 + ["empty", "junk", "dir", "gone"])
    return {"kind": kind, "o": o, "s": s}


def stl_bytes(f):
    import struct
    a = tuple(float(x) for x in f["o"])
    b = tuple(float(x + y) for x, y in zip(f["o"], f["s"]))
    tri = [(a, (b[0], a[1], a[2]), (a[0], b[1], b[2])), (a, b, (a[0], a[1], b[2]))]
    if f["kind"] == "bin":
        return b"x" * 80 + struct.pack("<I", 2) + b"".join(struct.pack("<12fH", 0, 0, 1, *sum(t, ()), 0) for t in tri)
    if f["kind"] == "junk":
        return b"not a mesh at all"
    if f["kind"] == "empty":
        return b""
    out = ["solid x"]
    for t in tri:
        out += ["facet normal 0 0 1", "outer loop"] + ["vertex %r %r %r" % v for v in t] + ["endloop", "endfacet"]
    return "\n".join(out + ["endsolid x", ""]).encode()


def tri(rng):
    if rng.random() < 0.3:
        return [rng.choice([0, 0.4, -0.3]) for _ in range(3)]
    return [rng.choice([0, 0, 1, 0.4, -3.5, 50, 200]) for _ in range(3)]


def gen_cmd(rng, kinds=None):
    k = rng.choice(kinds or ["load"] * 5 + ["json"] * 3 + ["reload"] * 3 + ["move"] * 4 + ["moveto"] * 4 + ["xray"] * 4 + ["clear", "highlight", "highlight", "reset", "set", "set", "orbit", "orbit", "focus", "focus", "shot", "shot"])
    p = {}
    if k == "load":
        p["parts"] = []
        for _ in range(rng.randint(0, 4)):
            s = [rng.choice(FILES + ["missing.stl", "", "sub"]) if rng.random() < 0.25 else rng.choice(FILES), rng.choice(HERE)]
            if rng.random() < 0.5:
                s.append(rng.choice([None, "red", "Blue", "nocolor"]))
            p["parts"].append(s)
        if rng.random() < 0.6:
            p["clear"] = rng.random() < 0.3
    if k == "json":
        p["positions_file"] = rng.choice([POS, POS2, POS2, "/sim/work/none.json"])
        if rng.random() < 0.3:
            p = {}
    if k == "xray":
        if rng.random() < 0.6:
            p["enabled"] = rng.random() < 0.6
            if rng.random() < 0.5:
                p["opacity"] = rng.choice([0.2, 0.75, 1])
    if k == "highlight":
        p["parts"] = rng.sample(HERE, rng.randint(0, 2))
        if rng.random() < 0.4:
            p["dim_opacity"] = rng.choice([0.05, 0.5])
    if k == "set":
        p = {"position": tri(rng), "focal_point": tri(rng)}
        if rng.random() < 0.3:
            p["view_up"] = [0, 1, 0]
    if k == "orbit":
        p = {"azimuth": rng.choice([0, 45, 90, 200]), "elevation": rng.choice([0, 30, -60]), "distance": rng.choice([1, 500])}
    if k in ("set", "orbit") and rng.random() < 0.5:
        p["viewport"] = rng.choice(VIEWS)
    if k in ("focus", "move", "moveto"):
        p["part"] = rng.choice(HERE)
    if k == "move":
        p["dx"], p["dy"], p["dz"] = tri(rng)
    if k == "moveto":
        p["x"], p["y"], p["z"] = tri(rng)
    if k == "shot":
        if rng.random() < 0.8:
            p["filename"] = rng.choice(["a.png", "b.png", "screenshot.png"])
        if rng.random() < 0.3:
            p["directory"] = "/sim/work/new/dir"
    o = {"k": k, "p": p}
    need = {"set": ["position", "focal_point", "viewport", "view_up"], "orbit": ["azimuth", "elevation", "distance", "viewport"], "focus": ["part"],
            "move": ["part", "dx", "dy", "dz"], "moveto": ["part", "x", "y", "z"], "load": ["parts"], "xray": ["enabled", "opacity"], "highlight": ["parts", "dim_opacity"],
            "shot": ["filename", "directory"]}.get(k)
    if need and rng.random() < 0.22:
        f = rng.choice(need)
        r = rng.random()
        if r < 0.3 and f in p and k in ("set", "orbit", "focus", "move", "moveto") and f not in ("viewport", "view_up"):
            del p[f]
            o["bad"] = f
        elif r < 0.4 and f in p and isinstance(p[f], list) and k == "set":
            p[f] = rng.choice([p[f][:2], p[f] + [1], p[f][:2] + ["abc"]])
            o["bad"] = f
        elif k == "load":
            p["parts"] = rng.choice([p["parts"] + [["gear.stl"]], p["parts"] + ["GEAR"], p["parts"] + [[5, "GEAR"]], p["parts"] + [["gear.stl", 7]],
                                     p["parts"] + [["gear.stl", "GEAR", 5]], {"GEAR": "gear.stl"}, 5, p["parts"] + [None]])
            o["bad"] = f
        elif k == "xray" and f == "enabled":
            p.pop("opacity", None)
            p["enabled"] = rng.choice(["false", 1, None, [1]])
            o["bad"] = f
        elif k == "xray":
            if "enabled" in p:
                p["opacity"] = rng.choice(["abc", [1], {"a": 1}])
                o["bad"] = f
        elif k == "highlight":
            p[f] = rng.choice([5, "GEAR"] if f == "parts" else ["abc", [1], {"a": 1}])
            o["bad"] = f
        elif k == "shot":
            p[f] = rng.choice([5, [1], {"a": 1}])
            o["bad"] = f
        elif f == "viewport":
            p[f] = rng.choice(["LEFT", "iso", 5, [1]])
            o["bad"] = f
        elif f == "part":
            p[f] = rng.choice(["nope", "gear", "", "Apart", 5, [1]])
            o["bad"] = f
        else:
            p[f] = rng.choice(BAD)
            o["bad"] = f
    return o


def file_text(o):
    """A command as a line of the command file; None when it has no such form."""
    k, p = o["k"], o["p"]
    if o.get("bad") and not (o["bad"] == "part" and isinstance(p.get("part"), str) and p["part"].isupper()):
        return None
    if k == "xray" and not p:
        return "xray"
    if k in ("reload", "reset"):
        return k
    if k == "shot" and "directory" not in p:
        return "screenshot " + p["filename"] if "filename" in p else "screenshot"
    if k == "focus":
        return "focus " + p["part"]
    if k == "highlight" and "dim_opacity" not in p:
        return " ".join(["highlight"] + p["parts"])
    if k == "set" and "viewport" not in p and "view_up" not in p:
        return "camera " + " ".join(str(x) for x in p["position"] + p["focal_point"])
    if k == "orbit" and "viewport" not in p:
        return f"orbit {p['azimuth']} {p['elevation']} {p['distance']}"
    if k == "move":
        return f"move {p['part']} {p['dx']} {p['dy']} {p['dz']}"
    if k == "moveto":
        return f"moveto {p['part']} {p['x']} {p['y']} {p['z']}"
    return None


def gen_lines(rng):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if rng.random() < 0.12:
            out.append({"k": "bogus", "p": {}, "line": rng.choice(["bogus", "move GEAR 1", "focus", "orbit 1", "moveto", "explode all"])})
            continue
        for _ in range(20):
            o = gen_cmd(rng, ["xray", "reload", "reset", "shot", "focus", "highlight", "set", "orbit", "move", "moveto", "move", "moveto"])
            t = file_text(o)
            if t is not None:
                out.append(dict(o, line=t))
                break
    return out


def gen_op(rng, cfg):
    r = rng.random()
    if r < 0.2:
        return {"k": rng.choice(["status", "parts", "camera", "getshot", "config"]), "p": {"viewport": rng.choice(VIEWS + ["ISO", "LEFT"])}, "via": "rest"}
    if r < 0.3 and cfg["cmd"]:
        return {"k": "poll", "via": "timer"}
    if r < 0.38 and cfg["cmd"]:
        return {"k": "cmd", "via": "client", "lines": gen_lines(rng)}
    if r < 0.41:
        return {"k": rng.choice(["xray", "reset"]), "p": {}, "via": "key"}
    if r < 0.44:
        return {"k": "raw", "via": rng.choice(["rest", "sock"]), "p": {}, "what": rng.choice(["list", "junk", "null", "string", "unknown", "params", "nocmd"]), "to": rng.choice(["load", "xray", "highlight", "move", "shot", "set"])}
    o = gen_cmd(rng)
    o["via"] = rng.choice(["rest", "rest", "sock", "api"])
    if o["via"] == "rest" and not o["p"] and rng.random() < 0.5:
        o["nobody"] = True
    if o["via"] == "api" and o.get("bad"):
        o["via"] = "sock"
    return o


# ---------------------------------------------------------------- the reference scene
class Refuse(Exception):
    pass


def number(v):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        raise Refuse("number")
    return float(v)


def triple(v):
    if not isinstance(v, list) or len(v) != 3:
        raise Refuse("triple")
    return tuple(number(x) for x in v)


class Scene:
    def __init__(self, cfg, fs):
        self.cfg, self.fs = cfg, fs
        self.parts, self.pos = {}, {}
        self.xray, self.xop = False, cfg["xop"]
        self.views = VIEWS if cfg["multi"] else ["ISO"]
        self.cam = {v: {"p": None, "f": None, "u": None} for v in self.views}
        self.queue = []

    def copy(self):
        o = copy.copy(self)
        o.parts = {k: dict(v) for k, v in self.parts.items()}
        o.cam = {k: dict(v) for k, v in self.cam.items()}
        o.queue = list(self.queue)
        return o

    def key(self):
        return repr((self.parts, self.pos, self.xray, self.xop, self.cam, [x["line"] for x in self.queue]))

    def read_pos(self, path):
        b = self.fs.get(path) if path and self.fs.has(path) else None
        if b is None:
            raise Refuse("no positions file")
        try:
            d = json.loads(b.decode())
        except ValueError:
            raise Refuse("json")
        if not isinstance(d, dict):
            raise Refuse("root")
        for n, e in d.items():
            if not isinstance(e, dict):
                raise Refuse("entry")
            m = e.get("transform_matrix")
            if m is not None:
                if len(m) != 4 or any(len(r) != 4 for r in m):
                    raise Refuse("matrix")
                for r in m:
                    for x in r:
                        number(x)
        return d

    def mesh(self, path):
        try:
            b = self.fs.get(path)
        except OSError:
            return None
        if b is None:
            return None
        pts = V.stl_points(bytes(b))
        return V.vtkPolyData(pts).GetBounds() if pts else None

    def bounds(self, n):
        p = self.parts[n]
        return V.box_of(p["M"], p["b"])

    def centre(self, names):
        bs = [self.bounds(n) for n in names]
        if not bs:
            return None
        return tuple((min(b[2 * i] for b in bs) + max(b[2 * i + 1] for b in bs)) / 2 for i in range(3))

    def reset(self):
        c = self.centre(self.parts)
        for v in self.cam.values():
            v.update(p=None, f=c, u=None)

    def add(self, todo, clear, skip):
        if clear:
            self.parts = {}
        loaded, failed = [], []
        for i, (name, path, m, color) in enumerate(todo):
            b = self.mesh(path)
            if b is None or i in skip:
                failed.append(name)
                continue
            self.parts.pop(name, None)
            self.parts[name] = {"b": b, "M": [[float(x) for x in r] for r in m] if m is not None else V.ident(), "c": color,
                                "o": self.xop if self.xray else self.cfg["dop"], "a": 0.0}
            loaded.append(name)
        self.reset()
        return {"loaded": len(loaded), "names": loaded, "failed": failed, "cleared": clear}

    def apply(self, o, skip=()):
        """Returns what the command answers; raises Refuse (nothing changed)."""
        k, p = o["k"], o.get("p", {})
        if k in ("bogus", "raw"):
            raise Refuse(k)
        if k == "load":
            todo = []
            if not isinstance(p["parts"], list):
                raise Refuse("parts")
            for s in p["parts"]:
                if not isinstance(s, list) or len(s) < 2 or not isinstance(s[0], str) or not isinstance(s[1], str) or (len(s) > 2 and s[2] is not None and not isinstance(s[2], str)):
                    raise Refuse("spec")
                e = self.pos.get(s[1], {})
                color = None
                if len(s) > 2 and s[2]:
                    color = Y["palette"].get(s[2].lower(), Y["default"])
                elif "color" in e:
                    color = tuple(float(x) for x in e["color"])
                todo.append((s[1], f"{STL}/{s[0]}", e.get("transform_matrix"), color))
            return self.add(todo, p.get("clear", True), skip)
        if k == "json":
            path = p.get("positions_file") or (POS if self.cfg["pos"] else None)
            d = self.read_pos(path)
            todo = []
            for n, e in d.items():
                if "stl_file" in e:
                    f = f"{STL}/{e['stl_file']}"
                else:
                    f = next((x for x in (f"{STL}/{n}.stl", f"{STL}/{n.lower()}.stl") if self.fs.has(x)), None)
                if f is None:
                    continue
                todo.append((n, f, e.get("transform_matrix"), tuple(float(x) for x in e["color"]) if "color" in e else None))
            self.pos = d
            return self.add(todo, True, skip)
        if k == "reload":
            if self.cfg["pos"]:
                self.pos = self.read_pos(POS)
            for n, e in self.pos.items():
                if n in self.parts and e.get("transform_matrix") is not None:
                    self.parts[n]["M"] = [[float(x) for x in r] for r in e["transform_matrix"]]
            return {}
        if k == "clear":
            self.parts = {}
            return {"cleared": True}
        if k == "xray":
            if "enabled" in p:
                if not isinstance(p["enabled"], bool):
                    raise Refuse("enabled")
                op = number(p["opacity"]) if "opacity" in p else self.cfg["xop"]
                self.xray, self.xop = p["enabled"], op
            else:
                self.xray, self.xop = not self.xray, self.cfg["xop"]
            op = self.xop if self.xray else self.cfg["dop"]
            for q in self.parts.values():
                q["o"] = op
            return {"enabled": self.xray, "opacity": op}
        if k == "highlight":
            if not isinstance(p.get("parts", []), list):
                raise Refuse("parts")
            dim = number(p.get("dim_opacity", 0.15))
            names = p.get("parts", [])
            for n, q in self.parts.items():
                q["o"], q["a"] = (1.0, 0.3) if not names or n in names else (dim, 0.0)
            return {"highlighted": names}
        if k == "reset":
            self.reset()
            return {}
        if k in ("set", "orbit"):
            v = p.get("viewport", "ISO")
            if not isinstance(v, str) or v not in self.cam:
                raise Refuse("viewport")
            c = self.cam[v]
            if k == "set":
                if "position" not in p or "focal_point" not in p:
                    raise Refuse("missing")
                new = (triple(p["position"]), triple(p["focal_point"]), triple(p.get("view_up", [0, 0, 1])))
            else:
                for f in ("azimuth", "elevation", "distance"):
                    if f not in p:
                        raise Refuse("missing")
                az, el, d = math.radians(number(p["azimuth"])), math.radians(number(p["elevation"])), number(p["distance"])
                f = c["f"]
                new = ((f[0] + d * math.cos(el) * math.cos(az), f[1] + d * math.cos(el) * math.sin(az), f[2] + d * math.sin(el)) if f else None, f, (0.0, 0.0, 1.0))
            c["p"], c["f"], c["u"] = new
            return {"camera": (v,) + new}
        if k in ("focus", "move", "moveto"):
            if "part" not in p or any(f not in p for f in {"move": ("dx", "dy", "dz"), "moveto": ("x", "y", "z")}.get(k, ())):
                raise Refuse("missing")
            n = p["part"]
            if not isinstance(n, str) or n not in self.parts:
                raise Refuse("404" if isinstance(n, str) else "part")
            if k == "focus":
                c = self.centre([n])
                for v in self.cam.values():
                    v.update(p=None, f=c)
                return {}
            if k == "move":
                d = [number(p[f]) for f in ("dx", "dy", "dz")]
            else:
                c = self.centre([n])
                d = [number(p[f]) - c[i] for i, f in enumerate("xyz")]
            self.parts[n]["M"] = V.matmul(V.translation(*d), self.parts[n]["M"])
            return {}
        if k == "shot":
            for f in ("filename", "directory"):
                if f in p and not isinstance(p[f], str):
                    raise Refuse(f)
            return {"shot": (p.get("directory") or SHOT) + "/" + (p.get("filename") or "screenshot.png")}
        if k == "status":
            return {"status": (len(self.parts), self.xray, dict(self.cam["ISO"]))}
        if k == "parts":
            return {"parts": {n: self.bounds(n) for n in self.parts}}
        if k == "camera":
            if p["viewport"] not in self.cam:
                raise Refuse("viewport")
            return {"cam": dict(self.cam[p["viewport"]])}
        return {}


def close(a, b):
    return a is None or (b is not None and len(a) == len(b) and all(abs(x - y) <= 1e-6 * max(1, abs(x)) for x, y in zip(a, b)))


# ---------------------------------------------------------------- the check
class C18(Check):
    id = "C18"
    runs = {"quick": 4500, "thorough": 60000}
    batch = 8
    shrink_lists = ("groups",)
    rule = "a run with a new trace in which at least two commands changed the scene and one was refused or ran beside another"
    real = ["yapcad.viewer.vtk_viewer", "yapcad.viewer.api_server", "yapcad.viewer.events", "yapcad.viewer.config", "real Python threads"]
    stub = ["vtk (scene graph, transforms, STL reader, PNG writer, interactor in memory)", "flask, flask_socketio, flask_cors (routing, answers, socket delivery in memory)",
            "the thread scheduler", "filesystem", "clock", "clients of the REST, socket and command-file interfaces"]
    assumptions = ["threads are preempted between source lines of the viewer; a VTK call is atomic",
                   "VTK behaves as documented: premultiplied transforms, writers and readers that report errors by an error code",
                   "a command-file client writes only while the file is empty or missing, in one write",
                   "a mesh that cannot be read counts as a part that was not loaded"]
    states_measure = "distinct (command, interface, outcome, parts loaded, x-ray on, size of the group)"

    def preload(self):
        S.install_locks()
        V.install()
        from yapcad.viewer import vtk_viewer, api_server, config, events
        Y.update(vv=vtk_viewer, api=api_server, cfg=config, ev=events)
        c = config.ViewerConfig(stl_dir="/sim/x")
        Y["palette"] = {k: tuple(v) for k, v in c.color_palette.items()}
        Y["default"] = tuple(c.default_color)

    def gen(self, rng, index, tier):
        cfg = {"multi": rng.random() < 0.7, "pos": rng.random() < 0.7, "cmd": rng.random() < 0.6, "xop": rng.choice([0.4, 0.25]), "dop": rng.choice([1.0, 1.0, 0.9]),
               "gran": rng.choice([1, 10_000_000, 1_000_000_000, 2_000_000_000]), "badcb": rng.random() < 0.3, "fromdict": rng.random() < 0.3}
        HERE[:] = rng.sample(NAMES, rng.choice([2, 3, 5]))
        groups = []
        for _ in range(rng.randint(3, 14 if tier == "quick" else 40)):
            r = rng.random()
            if r < 0.16:
                groups.append({"env": rng.choice(["stl", "stl", "pos", "pos", "pos2", "connect", "disconnect", "rmpos"]), "f": rng.choice(FILES), "stl": gen_stl(rng), "pos": gen_positions(rng), "sid": f"c{rng.randrange(3)}"})
            else:
                n = rng.choice([1, 1, 1, 1, 2, 2, 3])
                ops = [gen_op(rng, cfg) for _ in range(n)]
                ui = [o for o in ops if o["via"] in ("key", "timer")]       # the window's own thread does one thing at a time
                g = {"ops": [o for o in ops if not any(o is x for x in ui[1:])], "dt": rng.choice([0, 0.001, 0.1, 1.5])}
                n = len(g["ops"])
                if n == 1 and rng.random() < (0.35 if g["ops"][0]["k"] in ("load", "json", "reload", "shot", "getshot", "poll") else 0.02):
                    g["fault"] = [{"frac": round(rng.random(), 3), "kind": rng.choice(FAULTS), "cut": round(rng.random(), 2)}]
                groups.append(g)
        return {"seed": rng.randrange(1 << 30), "cfg": cfg, "files": {f: gen_stl(rng) for f in FILES}, "pos": next(p for p in (gen_positions(rng) for _ in range(99)) if not p["bad"]) if rng.random() < 0.7 else None,
                "pos2": gen_positions(rng), "groups": groups, "mean": rng.choice([2, 4, 10, 40])}

    def simplify(self, plan):
        for i, g in enumerate(plan["groups"]):
            if "ops" in g:
                if g.get("fault"):
                    yield dict(plan, groups=plan["groups"][:i] + [{k: v for k, v in g.items() if k != "fault"}] + plan["groups"][i + 1:])
                if len(g["ops"]) > 1:
                    for j in range(len(g["ops"])):
                        yield dict(plan, groups=plan["groups"][:i] + [dict(g, ops=g["ops"][:j] + g["ops"][j + 1:])] + plan["groups"][i + 1:])
                for j, o in enumerate(g["ops"]):
                    if o["k"] == "load" and isinstance(o["p"]["parts"], list) and len(o["p"]["parts"]) > 1:
                        for x in range(len(o["p"]["parts"])):
                            o2 = dict(o, p=dict(o["p"], parts=o["p"]["parts"][:x] + o["p"]["parts"][x + 1:]))
                            yield dict(plan, groups=plan["groups"][:i] + [dict(g, ops=g["ops"][:j] + [o2] + g["ops"][j + 1:])] + plan["groups"][i + 1:])
        if plan["cfg"]["badcb"]:
            yield dict(plan, cfg=dict(plan["cfg"], badcb=False))
        if plan["cfg"]["multi"]:
            yield dict(plan, cfg=dict(plan["cfg"], multi=False))

    def run(self, plan):
        res = Result()
        w = World(plan["seed"])
        try:
            with w:
                Sess(plan, w, res).run()
        except V.Unsupported as e:
            res.t("unsupported", e)
            res.violations, res.nontrivial = [], False
        res.sim_time = w.sim_time
        return res


class Sess:
    def __init__(self, plan, w, res):
        self.plan, self.w, self.res, self.cfg = plan, w, res, plan["cfg"]

    def put_stl(self, f, s):
        p = f"{STL}/{f}"
        fs = self.w.fs
        if fs.has(p) or fs.has(p + "/x"):
            try:
                if fs.has(p + "/x"):
                    fs.rm(p + "/x")
                    fs.quiet += 1
                    fs.rmdir(p)
                    fs.quiet -= 1
                else:
                    fs.rm(p)
            except OSError:
                pass
        if s["kind"] == "dir":
            fs.put(p + "/x", b"x")
        elif s["kind"] != "gone":
            fs.put(p, stl_bytes(s))

    def run(self):
        w, plan, cfg, res = self.w, self.plan, self.cfg, self.res
        w.fs.mtime_granularity_ns = cfg["gran"]
        w.tick = 0.0005
        w.fs.mkdirs(STL + "/sub")
        for f, s in plan["files"].items():
            self.put_stl(f, s)
        if plan["pos"]:
            w.fs.put(POS, pos_bytes(plan["pos"]))
        w.fs.put(POS2, pos_bytes(plan["pos2"]))
        d = dict(stl_dir=STL, positions_file=POS if cfg["pos"] else None, command_file=CMD if cfg["cmd"] else None, screenshot_dir=SHOT,
                 xray_opacity=cfg["xop"], default_opacity=cfg["dop"], enable_multi_viewport=cfg["multi"])
        conf = Y["cfg"].ViewerConfig(**d)
        if cfg["fromdict"]:
            dd = conf.to_dict()
            keep = copy.deepcopy(dd)
            back = Y["cfg"].ViewerConfig.from_dict(dd)
            if dd != keep or json.loads(json.dumps(back.to_dict())) != json.loads(json.dumps(keep)):
                return res.v("config", f"a configuration and its dictionary differ after a round trip: {dd} / {keep} / {back.to_dict()}"[:400])
            conf = back
        self.v = Y["vv"].VTKViewer(conf)
        self.events = []
        if cfg["badcb"]:
            for e in PUB:
                self.v.on_event(e, self.bad_callback)
        self.srv = Y["api"].ViewerAPIServer(self.v)
        for e in PUB:
            self.v.on_event(e, lambda ev: self.events.append((ev.event_type, ev.to_dict())))
        self.m = Scene(cfg, w.fs)
        self.ms = [self.m]              # every state the history so far allows
        if cfg["pos"] and plan["pos"]:
            self.m.pos = plan["pos"]["d"]
        self.io = self.srv.socketio
        self.io.connect("c0")
        self.clients = {"c0": {"parts": set(), "xray": False}}
        self.rng = random.Random(f"sched:{plan['seed']}")
        self.changed = self.refused = self.beside = 0
        self.compare("at the start")
        for n, g in enumerate(plan["groups"]):
            if res.violations:
                break
            if "env" in g:
                self.env(g)
            else:
                w.advance(g["dt"])
                self.group(n, g)
        for _ in range(2):                      # idle: nothing is left to do
            if not res.violations and cfg["cmd"]:
                self.group("idle", {"ops": [{"k": "poll", "via": "timer"}]})
        if not res.violations:
            left = [f for f in self.files() if f.startswith("/sim/tmp/") or f.endswith(".part")]
            if left and not self.faulted:
                res.v("left-behind", f"files left behind by requests: {left}")
        res.nontrivial = self.changed > 1 and (self.refused > 0 or self.beside > 0)

    def files(self):
        return {"/sim/" + k: b for k, b in self.w.fs.files("/sim").items()}

    faulted = False

    def bad_callback(self, ev):
        raise RuntimeError("a listener of somebody else's")

    def env(self, g):
        fs, k = self.w.fs, g["env"]
        if k == "stl":
            self.put_stl(g["f"], g["stl"])
        elif k == "pos":
            fs.put(POS, pos_bytes(g["pos"]))
        elif k == "pos2":
            fs.put(POS2, pos_bytes(g["pos"]))
        elif k == "rmpos" and fs.has(POS):
            fs.rm(POS)
        elif k == "connect" and g["sid"] not in self.clients:
            self.io.connect(g["sid"])
            got = self.io.clients[g["sid"]]
            st = [d for e, d in got if e == "status"]
            if len(st) != 1 or st[0]["part_count"] != len(self.m.parts) or st[0]["xray_enabled"] != self.m.xray:
                self.res.v("status", f"a client connecting is told {got} for {len(self.m.parts)} parts, x-ray {self.m.xray}")
            self.clients[g["sid"]] = {"parts": set(self.m.parts), "xray": self.m.xray}
            got.clear()
        elif k == "disconnect" and len(self.clients) > 1 and g["sid"] in self.clients and g["sid"] != "c0":
            self.io.disconnect(g["sid"])
            del self.clients[g["sid"]]
        self.res.t("env", k)

    # ---------------------------------------------------------------- sending
    ROUTE = {"load": "/load", "json": "/load", "reload": "/reload", "clear": "/clear", "xray": "/xray", "highlight": "/highlight", "reset": "/camera/reset", "set": "/camera/set",
             "orbit": "/camera/orbit", "focus": "/camera/focus", "shot": "/screenshot", "move": "/move", "moveto": "/moveto"}
    SOCK = {"load": "load", "json": "load", "reload": "reload", "clear": "clear", "xray": "xray", "highlight": "highlight", "reset": "camera_reset", "set": "camera_set", "orbit": "camera_orbit",
            "focus": "focus", "shot": "screenshot", "move": "move", "moveto": "move_to"}

    def send(self, o, i):
        """Carry out one operation; returns ("ok"|"refused"|"error"|None, details)."""
        k, p, via = o["k"], o.get("p", {}), o["via"]
        if k == "poll":
            return self.fire("TimerEvent")
        if k == "cmd":
            f = self.w.fs
            if f.has(CMD) and f.get(CMD):
                return "skipped", None
            f.put(CMD, ("\n".join(x["line"] for x in o["lines"]) + "\n").encode())
            f.quiet += 1
            f.utime(CMD, ns=(f._now_ns(), f._now_ns()))
            f.quiet -= 1
            return "written", None
        if via == "key":
            self.v.interactor.key = "x" if k == "xray" else "R"
            return self.fire("KeyPressEvent")
        if via == "rest":
            if k in ("status", "parts", "camera", "config"):
                r = self.srv.app.dispatch("GET", "/" + k, args={"viewport": p["viewport"]} if k == "camera" else None)
            elif k == "getshot":
                r = self.srv.app.dispatch("GET", "/screenshot")
            else:
                body = json.dumps(p).encode()
                if k == "raw":
                    body = {"list": b"[1]", "junk": b"{\"a\":", "null": b"null", "string": b"\"x\"", "unknown": b"5", "params": b"[{}]", "nocmd": b"true"}[o["what"]]
                route = self.ROUTE[o["to"] if k == "raw" else k]
                r = self.srv.app.dispatch("POST", route, b"" if o.get("nobody") else body, None if o.get("nobody") else "application/json")
            st = "ok" if 200 <= r.status_code < 300 else ("refused" if 400 <= r.status_code < 500 else "error")
            return st, {"code": r.status_code, "json": r.json if k != "getshot" else None, "data": r.data, "error": r.error}
        if via == "sock":
            sid = f"s{i}"
            self.io.clients[sid] = []
            data = {"command": self.SOCK.get(k), "params": p}
            if k == "raw":
                data = {"list": [1], "junk": "x", "null": None, "string": "xray", "unknown": {"command": "explode", "params": {}}, "params": {"command": "xray", "params": 5}, "nocmd": {"params": {}}}[o["what"]]
            elif not p and self.rng.random() < 0.5:
                del data["params"]
            self.io.deliver(sid, "command", data)
            rep = [d for e, d in self.io.clients.pop(sid) if e == "command_result"]
            if len(rep) != 1:
                return "unanswered", {"replies": rep, "error": self.io.errors[-1:]}
            return ("ok" if rep[0].get("success") is True else "refused"), {"json": rep[0]}
        # api
        v = self.v
        a = dict(p)
        fn = {"load": lambda: v.load_parts(a["parts"], clear=a.get("clear", True)), "json": lambda: v.load_from_json(a.get("positions_file")), "reload": v.reload_positions, "clear": v.clear_parts,
              "xray": lambda: v.set_xray(a["enabled"], a.get("opacity")) if "enabled" in a else v.toggle_xray(), "highlight": lambda: v.highlight_parts(a["parts"], a.get("dim_opacity", 0.15)),
              "reset": v.reset_camera, "set": lambda: v.set_camera(**{k: tuple(x) if isinstance(x, list) else x for k, x in a.items()}), "orbit": lambda: v.orbit_camera(**a), "focus": lambda: v.focus_part(a["part"]),
              "move": lambda: v.move_part(a["part"], a["dx"], a["dy"], a["dz"]), "moveto": lambda: v.move_part_to(a["part"], a["x"], a["y"], a["z"]),
              "shot": lambda: v.screenshot(a.get("filename"), a.get("directory"))}[k]
        st, val = call(fn)
        return ("ok" if st == "ok" else "refused"), {"value": val if st == "ok" else None, "exc": repr(val)[:120] if st != "ok" else None, "keyerror": isinstance(val, KeyError)}

    def fire(self, ev):
        try:
            self.v.interactor.fire(ev)
        except Exception as e:                  # VTK prints it and goes on
            return "raised", {"exc": repr(e)[:160]}
        return "fired", None

    # ---------------------------------------------------------------- one group of operations
    def group(self, n, g):
        res, fs, ops = self.res, self.w.fs, g["ops"]
        shots = {f: b for f, b in self.files().items() if f.endswith(".png")}
        before_cmd = bytes(fs.get(CMD)) if fs.has(CMD) else b""
        for c in self.io.clients.values():
            c.clear()
        self.events.clear()
        fired = {}
        if len(ops) == 1:
            if g.get("fault"):
                st0 = dict(fs.fired)
                nops = self.count_ops(ops[0])
                fs.arm([dict(f, at=min(int(f["frac"] * nops), max(0, nops - 1))) for f in g["fault"]])
            out = [("ok", self.send(ops[0], 0))]
            if g.get("fault"):
                fs.reset_faults()
                fired = {k: c - st0.get(k, 0) for k, c in fs.fired.items() if c != st0.get(k, 0)}
                res.faults.update(fired)
                self.faulted = self.faulted or bool(fired)
        else:
            sc = S.Sched(self.rng, self.plan["mean"])
            out = sc.run([lambda o=o, i=i: self.send(o, i) for i, o in enumerate(ops)])
            res.faults["preemption"] += sc.switches
            for k, v in sc.stats.items():
                res.faults[k] += v
            self.beside += sc.switches > 0
        for i, (st, val) in enumerate(out):
            if st != "ok":
                if isinstance(val, V.Unsupported):
                    raise val
                return res.v("broken", f"{self.label(ops[i])} in a group of {len(ops)}: {st} {val!r}"[:300])
        outs = [v for _, v in out]
        for o, (st, d) in zip(ops, outs):
            res.t(n, o["k"], o["via"], st, (d or {}).get("code", ""))
            res.state(o["k"], o["via"], st, len(self.m.parts), self.m.xray, len(ops), bool(fired))
            if st in ("unanswered", "raised"):
                return res.v(st, f"{self.label(o)}: {d}")
            if st == "error" and not fired:
                return res.v("server-error", f"{self.label(o)} ends in status {d['code']} ({d['error']}) although nothing failed")
            if (d or {}).get("error") and st == "error" and o["k"] not in ("getshot",):
                return res.v("server-error", f"{self.label(o)} with a failing disk ends in an unhandled {d['error']}")
            self.refused += st == "refused"
        if ops[0]["k"] == "poll" and len(ops) == 1 and fired:
            return self.faulty_poll(before_cmd)
        # ---- some serial order must explain what was answered, what clients were told and what is drawn now
        self.listen()
        if res.violations:
            return
        units, skipsets = self.units(ops, outs, before_cmd), [()]
        if fired and ops[0]["k"] in ("load", "json"):
            names = range(min(6, self.asked(ops[0])))
            skipsets = [c for r in range(len(names) + 1) for c in itertools.combinations(names, r)]
        tried, fit = [], {}
        for m0 in self.ms:
            for order in self.orders(units):
                for skip in skipsets:
                    m = m0.copy()
                    why = self.replay(m, [units[i] for i in order], skip, bool(fired))
                    why = why or self.differs(m) or (self.file_state(m) if not fired else None) or self.told(m, ops, outs, units, order, shots, fired)
                    if why is None:
                        fit.setdefault(m.key(), m)
                    else:
                        tried.append(why)
        if fit:
            self.ms = list(fit.values())[:24]
            self.m = self.ms[0]
            if not fired or outs[0][0] == "ok":
                self.changed += any(u["op"]["k"] not in ("status", "parts", "camera", "config", "getshot", "poll", "line", "cmd") and u["out"][0] in ("ok", "fired") for u in units)
            return
        what = " | ".join(self.label(o) + " -> " + str(outs[i][0]) for i, o in enumerate(ops))
        sig = "not-serial" if len(ops) > 1 else ("fault-" if fired else "") + ops[0]["k"]
        why = list(dict.fromkeys(tried))
        res.v(sig, f"{what}{' with ' + str(fired) if fired else ''}: {why[0] if len(why) == 1 else 'no order of them explains it: ' + '; '.join(sorted(why))[:400]}"[:700])

    def count_ops(self, o):
        """Roughly how many filesystem operations it makes."""
        return {"load": 4 * len(o.get("p", {}).get("parts", [])) + 1 if isinstance(o.get("p", {}).get("parts"), list) else 4, "json": 16, "shot": 13, "getshot": 16, "poll": 9, "reload": 5}.get(o["k"], 2)

    def asked(self, o):
        m = self.m.copy()
        try:
            r = m.apply(o)
        except Refuse:
            return 0
        return len(r["names"]) + len(r["failed"])

    def label(self, o):
        t = o["via"] + " " + o["k"]
        if o["k"] == "cmd":
            return t + " " + repr([x["line"] for x in o["lines"]])
        if o["k"] == "raw":
            return t + " " + o["what"] + " to " + o["to"]
        return t + (" " + json.dumps(o["p"])[:160] if o.get("p") else "")

    def units(self, ops, outs, before_cmd):
        """Operations as atomic units; a poll is its commands, in order."""
        us = []
        most = max([len(self.m.queue)] + [len(o["lines"]) for o in ops if o["k"] == "cmd"])
        for i, (o, out) in enumerate(zip(ops, outs)):
            us.append({"op": o, "out": out, "seq": i})
            if o["k"] == "poll" and len(ops) > 1:
                us[-1]["take"] = True
                us += [{"op": {"k": "line", "via": "timer"}, "out": out, "seq": i} for _ in range(most)]
        return us

    def orders(self, units):
        """All merges of the sequences (a poll's commands stay in order)."""
        seqs = {}
        for i, u in enumerate(units):
            seqs.setdefault(u["seq"], []).append(i)

        def merge(heads):
            if not any(heads):
                yield []
                return
            for n, h in enumerate(heads):
                if h:
                    for rest in merge(heads[:n] + [h[1:]] + heads[n + 1:]):
                        yield [h[0]] + rest
        return merge(list(seqs.values()))

    def replay(self, m, units, skip, fired):
        """Replay units on the reference; None or why it does not fit."""
        taken = []
        for u in units:
            o, (st, d) = u["op"], u["out"]
            if o["k"] == "cmd":
                if st == "skipped":
                    if not m.queue:
                        return "the command file is empty but was found full"
                elif m.queue:
                    return "the command file is full but was found empty"
                else:
                    m.queue = list(o["lines"])
                continue
            if u.get("take"):
                taken, m.queue = m.queue, []
                u["ran"] = []
                continue
            if o["k"] in ("poll", "line"):
                u["ran"] = []
                now = m.queue if o["k"] == "poll" else taken[:1]
                taken = taken[1:]
                for x in now:
                    t = m.copy()
                    try:
                        r = t.apply(x)
                        m.__dict__.update(t.__dict__)
                        u["ran"].append((x, r))
                    except Refuse:
                        u["ran"].append((x, None))
                if o["k"] == "poll":
                    m.queue = []
                continue
            t = m.copy()
            try:
                r, refuse = t.apply(o, skip), None
            except Refuse as e:
                r, refuse = None, str(e)
            u["res"] = r
            if st in ("refused", "error"):
                if refuse is None and not fired:
                    return f"{self.label(o)} was refused ({(d.get('json') or d)}) although it is valid"[:300]
                if refuse == "404" and o["via"] == "rest" and d["code"] != 404:
                    return f"{self.label(o)} names a part that is not loaded and is answered {d['code']}"
                continue
            if refuse is not None:
                if o["via"] == "key":
                    continue
                return f"{self.label(o)} must be refused ({refuse}) and was accepted"
            m.__dict__.update(t.__dict__)
            if o["via"] in ("rest", "api") and st == "ok":
                why = self.answer(o, r, d)
                if why:
                    return why
        return None

    def answer(self, o, r, d):
        k, j = o["k"], d.get("json") or {}
        if o["via"] == "api":
            if k in ("load", "json") and d["value"] != r["loaded"]:
                return f"{self.label(o)} says {d['value']} parts were loaded, not {r['loaded']}"
            return None
        if k in ("load", "json") and (j.get("loaded") != r["loaded"] or j.get("success") is not True):
            return f"{self.label(o)} answers {j}; {r['loaded']} parts can be loaded"
        if k == "xray" and (j.get("enabled") != r["enabled"] or abs(j.get("opacity", -1) - r["opacity"]) > 1e-9):
            return f"{self.label(o)} answers {j} for x-ray {r['enabled']} at {r['opacity']}"
        if k == "status":
            n, x, c = r["status"]
            if j.get("part_count") != n or j.get("xray_enabled") != x or not close(c["p"], j.get("camera_position")) or not close(c["f"], j.get("camera_focal_point")):
                return f"GET /status answers {j} for {n} parts, x-ray {x}, camera {c}"
        if k == "parts":
            got = {e["name"]: e["bounds"] for e in j.get("parts", [])}
            if set(got) != set(r["parts"]) or j.get("count") != len(got) or len(j["parts"]) != len(got) or any(not close(b, got[n]) for n, b in r["parts"].items()):
                return f"GET /parts answers {j} for {r['parts']}"[:400]
        if k == "camera":
            c = r["cam"]
            if not close(c["p"], j.get("position")) or not close(c["f"], j.get("focal_point")) or not close(c["u"], j.get("view_up")):
                return f"GET /camera answers {j} for {c}"
        return None

    # ---------------------------------------------------------------- what is drawn
    def differs(self, m):
        v = self.v
        names = v.get_part_names()
        if sorted(names) != sorted(m.parts):
            return f"the viewer lists parts {sorted(names)}, the commands leave {sorted(m.parts)}"
        for n in m.parts:
            if not close(m.bounds(n), v.get_part_bounds(n)):
                return f"part {n} is at {[round(x, 4) for x in v.get_part_bounds(n)]}, the commands leave it at {[round(x, 4) for x in m.bounds(n)]}"
        for r in v.render_window.GetRenderers():
            left = list(m.parts.items())
            for a in r.props:
                if not a.vis:
                    continue
                q = next((i for i, (n, p) in enumerate(left) if close(sum(p["M"], []), sum(a.matrix(), [])) and close(p["b"], a.mapper.d.GetBounds()) and abs(p["o"] - a.prop.opacity) < 1e-9
                          and abs(p["a"] - a.prop.ambient) < 1e-9 and (a.prop.color in Y["palette"].values() if p["c"] is None else close(p["c"], a.prop.color))), None)
                if q is None:
                    return (f"drawn: a part at {[round(x, 4) for x in a.GetBounds()]} with opacity {a.prop.opacity}, ambient {a.prop.ambient}, colour {a.prop.color}; "
                            f"the commands leave {[(n, [round(x, 4) for x in m.bounds(n)], p['o'], p['a'], p['c']) for n, p in left]}")[:500]
                left.pop(q)
            if left:
                return f"not drawn: {[n for n, _ in left]}"
        for name in m.views:
            c, s = m.cam[name], v.get_camera_state(name)
            if not close(c["p"], s["position"]) or not close(c["f"], s["focal_point"]) or not close(c["u"], s["view_up"]):
                return f"camera {name} is {s}, the commands leave {c}"
        if v.xray_mode != m.xray:
            return f"x-ray is {v.xray_mode}, the commands leave {m.xray}"
        return None

    def compare(self, when):
        why = self.differs(self.m)
        if why:
            self.res.v("scene", f"{when}: {why}")

    def file_state(self, m):
        fs = self.w.fs
        full = fs.has(CMD) and bytes(fs.get(CMD)).strip()
        if full and not m.queue:
            return f"the commands were carried out and stay in the command file: {full!r}"
        if m.queue and not full:
            return f"commands {[x['line'] for x in m.queue]} were neither carried out nor kept in the command file"
        return None

    def faulty_poll(self, before):
        """A poll while the disk fails: each pending command at most once, in order, and none forgotten while it stays in the file."""
        res, fs = self.res, self.w.fs
        now = bytes(fs.get(CMD)) if fs.has(CMD) else b""
        u = {"op": {"k": "poll", "via": "timer"}, "out": ("fired", None), "seq": 0}
        fit, why = {}, None
        kept = bool(now.strip())
        self.listen()
        if kept and now != before:
            return res.v("command-file", f"the command file held {before!r} and after a poll with a failing disk {now!r}")
        for m0 in self.ms:
            q = m0.queue
            if kept:
                why = self.differs(m0)
                if why is None:
                    fit[m0.key()] = m0
                continue
            for r in range(len(q) + 1):         # a reload or a screenshot may have failed; the rest ran in order
                for drop in itertools.combinations(range(len(q)), r):
                    m = m0.copy()
                    m.queue = [x for i, x in enumerate(q) if i not in drop]
                    self.replay(m, [u], (), True)
                    d = self.differs(m) or self.knows(m)
                    why = why or d
                    if d is None:
                        fit[m.key()] = m
        if fit:
            self.ms = list(fit.values())[:24]
            self.m = self.ms[0]
            return
        if kept:
            return res.v("command-file", f"{before!r} stays in the command file after a poll with a failing disk: the next poll carries it out again, but {why}")
        res.v("command-file", f"after a poll of {before!r} with a failing disk: {why}")

    # ---------------------------------------------------------------- events, screenshots, command file
    def listen(self):
        """What every connected client has learnt from the events."""
        res = self.res
        seqs = {}
        for sid, c in self.clients.items():
            got = [(e, d) for e, d in self.io.clients[sid] if e in PUB]
            seqs[sid] = got
            for e, d in got:
                if e == "part_loaded":
                    c["parts"].add(d["part_name"])
                elif e == "part_removed":
                    c["parts"].discard(d["part_name"])
                elif e == "parts_cleared":
                    c["parts"].clear()
                elif e == "xray_changed":
                    c["xray"] = d["enabled"]
        a = list(seqs.values())
        if any(x != a[0] for x in a):
            return res.v("events", f"two connected clients were told different things: {[[e for e, _ in x] for x in a]}")
        if [e for e, _ in self.events] != [e for e, _ in a[0]]:
            return res.v("events", f"listeners in the process heard {[e for e, _ in self.events]}, clients {[e for e, _ in a[0]]}")

    def knows(self, m):
        c = self.clients["c0"]
        if c["parts"] != set(m.parts):
            return f"a client following the events knows parts {sorted(c['parts'])}, loaded are {sorted(m.parts)}"
        if c["xray"] != m.xray:
            return f"a client following the events believes x-ray is {c['xray']}, it is {m.xray}"
        return None

    def told(self, m, ops, outs, units, order, shots, fired):
        """Events, saved pictures and left-over files that this order of the commands accounts for."""
        fs = self.w.fs
        why = self.knows(m)
        if why:
            return why
        got = [(e, d) for e, d in self.io.clients["c0"] if e in PUB]
        # carried out, in order
        did = []
        for i in order:
            u = units[i]
            o, st = u["op"], u["out"][0]
            if o["k"] in ("poll", "line"):
                did += [(x, r) for x, r in u.get("ran", [])]
            elif o["k"] not in ("cmd", "status", "parts", "camera", "config"):
                did.append((o, u.get("res") if st in ("ok", "fired") else None))
        getshots = sum(o["k"] == "getshot" for o, _ in did)
        for kind, ev in (("shot", "screenshot_saved"), ("highlight", "selection_changed")):
            want = sum(o["k"] == kind and r is not None for o, r in did)
            n = sum(e == ev for e, _ in got)
            if not want <= n <= want + (getshots if ev == "screenshot_saved" else 0):
                return f"{want} {kind} commands were carried out and {n} {ev} events sent"
        errs = sum(e == "error" for e, _ in got)
        want = sum(r is None for u in units for _, r in u.get("ran", []))
        if errs < want:
            return f"{want} commands of the command file could not be carried out and {errs} error events were sent: {[x['line'] for u in units for x, r in u.get('ran', []) if r is None]}"
        cams = [r["camera"] for o, r in did if r and "camera" in r]
        if cams:
            sent = [d for e, d in got if e == "camera_changed"]
            for c in cams:
                if not any(d["viewport"] == c[0] and close(c[1], d["position"]) and close(c[2], d["focal_point"]) for d in sent):
                    return f"the camera of {c[0]} was set to {c[1]}, {c[2]} and clients were told {sent}"
        # screenshots
        done = [r["shot"] for o, r in did if r and "shot" in r]
        for o, (st, d) in zip(ops, outs):
            if o["k"] == "shot" and st == "ok" and o["via"] == "rest" and not fs.has(d["json"].get("filepath", "")):
                return f"{self.label(o)} answers {d['json']} and there is no such file"
            if o["k"] == "getshot" and st == "ok":
                if len(ops) == 1 and d["data"] != self.v.render_window.picture():
                    return f"GET /screenshot answers {len(d['data'])} bytes that do not show the scene"
                if not (d["data"].startswith(b"\x89PNG") and d["data"].endswith(b"IEND\xaeB`\x82")):
                    return f"GET /screenshot answers {len(d['data'])} bytes that are no whole picture"
        for f in done:
            b = bytes(fs.get(f)) if fs.has(f) else None
            if b is None:
                return f"a screenshot to {f} was reported saved and there is no such file"
            if len(ops) == 1 and ops[0]["k"] == "shot" and b != self.v.render_window.picture():
                return f"a screenshot to {f} was reported saved and does not show the scene ({len(b)} bytes)"
            if not (b.startswith(b"\x89PNG") and b.endswith(b"IEND\xaeB`\x82")):
                return f"a screenshot to {f} was reported saved and is no whole picture ({len(b)} bytes)"
        for f, b in shots.items():
            if f not in done and (not fs.has(f) or bytes(fs.get(f)) != b):
                return f"no command was carried out that saves {f}, and it changed"
        new = [f for f in self.files() if f.startswith((SHOT, "/sim/work")) and f not in shots and f not in done and f not in (POS, POS2, CMD)]
        if new and len(fired) < 2:
            return f"{self.label(ops[0])} left {new} behind"
        return None


CHECK = C18()
