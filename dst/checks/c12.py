"""C12: 2D figures, solids wrapped in Geometry and trees never answer from stale state."""
import contextlib
import io
import math

from ..engine import Check, Result
from ..world import World, call

Y = {}
KINDS = ["line", "arc", "circle", "poly", "polygon", "tri", "slot", "solid", "Polygon", "Polygon", "Polygon", "Rect", "RoundRect", "Bool", "Bool", "Bool"]
QUERY = ["length", "center", "bbox", "geom", "sample", "inside", "surface", "surface", "intersect", "unsample", "segment", "flags"]


def P(p):
    return Y["g"].point(*p)


def pts(rng, n):
    """A star-shaped outline"""
    a = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
    c = [rng.uniform(-20, 20), rng.uniform(-20, 20)]
    return [[round(c[0] + rng.uniform(3, 15) * math.cos(x), 3), round(c[1] + rng.uniform(3, 15) * math.sin(x), 3)] for x in a]


def gen_fig(rng, depth=0):
    k = rng.choice(KINDS if depth == 0 else ["polygon", "tri", "Polygon", "Rect", "RoundRect", "slot"] + (["Bool"] if depth == 1 else []))
    f = {"k": k, "p": pts(rng, rng.randint(3, 6)), "r": round(rng.uniform(1, 6), 2), "a": rng.choice([[0, 90], [30, 200], [350, 20], [10.5, 99]])}
    if k == "Polygon":
        f["e"] = [rng.choice(["p", "p", "p", "c"]) for _ in f["p"]]
    if k == "Bool":
        f["t"] = rng.choice(["union", "intersection", "difference"])
        f["f"] = [gen_fig(rng, depth + 1) for _ in range(rng.choice([2, 2, 2, 3, 1]))]
        for q in f["f"][1:]:
            if rng.random() < 0.6:                 # make it overlap the first
                q["p"] = [[x + 4, y + 3] for x, y in f["f"][0]["p"]]
    return f


def gen_op(rng):
    k = rng.choice(["q"] * 9 + ["stop"] * 4 + ["translate"] * 3 + ["scale", "scale2", "rotate", "mirror", "transform", "badmirror", "badscale"] + ["add", "add", "set", "set", "addarc", "addline", "remove", "grow", "elem", "flag", "copy",
                   "spoil", "spoil", "spoil", "spoilarg", "spoilarg"])
    return {"op": k, "tiny": rng.choice([0, 0, 0, 0, 1e-3, 1e-5]), "at": site(rng), "nth": rng.choice([0, 0, 1, 2, 5, 9]), "q": rng.choice(QUERY), "v": [round(rng.uniform(-30, 30), 2) for _ in range(2)], "u": rng.choice([0.0, 0.25, 0.5, 1.0, round(rng.random(), 3)]),
            "s": rng.choice([0.5, 2.0, 1.5, 3.0]), "s2": rng.choice([0.5, 2.0]), "ang": rng.choice([30, 90, -45, 180]), "pl": rng.choice(["xz", "yz", "xy"]), "i": rng.randrange(8),
            "r": round(rng.uniform(0.5, 4), 2), "res": rng.choice([[5.0, 0.5], [5.0, 0.5], [10.0, 1.0], [2.0, 0.2]]), "o": rng.randrange(3)}


def gen_tree(rng):
    n = rng.choice([4, 8])
    box = lambda big: [[round(rng.uniform(-50, 50), 2) for _ in range(3)], [round(rng.uniform(0.5, big), 2) for _ in range(3)]]
    return {"n": n, "init": [box(15) for _ in range(rng.choice([0, 0, 3, 12]))], "mindim": rng.choice([None, 0.5, 10.0]), "maxdepth": rng.choice([None, 2]), "tag": rng.random() < 0.5,
            "ops": [{"op": rng.choice(["add"] * 6 + ["q"] * 5 + ["stop", "stop", "mid", "depth", "center", "spoil"]), "b": box(rng.choice([2, 15, 60])), "f": [round(rng.uniform(0.2, 0.8), 2) for _ in range(3)],
                     "at": ["O", rng.choice(SITES["O"])], "nth": rng.choice([0, 1, 3, 10]), "m": rng.randint(1, 6)} for _ in range(rng.randint(5, 40))]}


class Interrupt(BaseException):
    pass


# functions in which a question may be interrupted (Ctrl-C, cancelled job), by module
SITES = {"G": ["length", "center", "bbox", "poly2surface", "geomlist2poly_with_holes", "solidbbox", "deepcopy"],
         "PL": ["cullZeroLength", "line", "arclength", "linelength", "bbox", "center", "lineLineIntersectXY", "deepcopy"],
         "CB": ["combineglist", "cullZeroLength", "bbox", "length", "geomlist2poly_with_holes", "center", "deepcopy"],
         "O": ["bbox", "bbox2quad", "bbox2oct", "box2boxes", "untag", "boxoverlap2"]}


@contextlib.contextmanager
def interrupt(where, nth):
    """The nth call of one of the library's own functions is interrupted"""
    mod, name = where
    m = Y[mod]
    real = getattr(m, name, None)
    n = [nth]

    def wrap(*a, **k):
        n[0] -= 1
        if n[0] < 0:
            raise Interrupt()
        return real(*a, **k)
    if real is not None:
        setattr(m, name, wrap)
    try:
        yield
    finally:
        if real is not None:
            setattr(m, name, real)


def site(rng):
    m = rng.choice(["G", "PL", "PL", "CB"])
    return [m, rng.choice(SITES[m])]


class C12(Check):
    id = "C12"
    runs = {"quick": 3600, "thorough": 90000}
    batch = 8
    shrink_lists = ("ops",)
    rule = "a run with a new trace that asked a figure again after it was changed, or a tree again after it grew"
    real = ["yapcad.geometry", "yapcad.poly", "yapcad.combine", "yapcad.octtree", "yapcad.geom"]
    stub = []
    assumptions = ["after a caller edits a figure's element list in place it sets figure.update, as documented", "queries of trees closer than 1e-6 to touching are not judged"]
    states_measure = "distinct (figure kind, last change, question, asked before, outcome)"

    def preload(self):
        from yapcad import geom as g, geometry as G, poly as PL, combine as CB, octtree as O, geom3d_util as U
        Y.update(g=g, G=G, PL=PL, CB=CB, O=O, U=U)

    def gen(self, rng, index, tier):
        if rng.random() < 0.2:
            return {"seed": rng.randrange(1 << 30), "tree": gen_tree(rng), "figs": [], "ops": []}
        ops = [gen_op(rng) for _ in range(rng.randint(5, 26 if tier == "quick" else 70))]
        old = [o for o in ops if o["op"] in ("q", "spoil", "stop")][:3]
        for o in ops:                              # ask the same few questions again and again
            if o["op"] in ("q", "spoil", "stop") and old and rng.random() < 0.5:
                o.update({k: x for k, x in rng.choice(old).items() if k in ("q", "u", "v", "res", "o")})
        return {"seed": rng.randrange(1 << 30), "tree": None, "figs": [gen_fig(rng) for _ in range(rng.choice([1, 2, 3]))], "ops": ops}

    # ------------------------------------------------------------ figures
    def build(self, f, args):
        g, G, PL = Y["g"], Y["G"], Y["PL"]
        k, p = f["k"], [P(q) for q in f["p"]]
        keep = lambda x: (args.append(x), x)[1]
        if k == "line":
            return G.Geometry(keep(g.line(p[0], p[1])))
        if k == "arc":
            return G.Geometry(keep(g.arc(p[0], f["r"], *f["a"])))
        if k == "circle":
            return G.Geometry(keep(g.arc(p[0], f["r"])))
        if k == "poly":
            return G.Geometry(keep(list(p)))
        if k == "polygon":
            return G.Geometry(keep(p + [P(f["p"][0])]))
        if k == "tri":
            return G.Geometry(keep([g.line(p[i], p[(i + 1) % 3]) for i in range(3)]))
        if k == "slot":
            c, r = p[0], f["r"]
            x, y = c[0], c[1]
            return G.Geometry(keep([g.line(P([x - 5, y - r]), P([x + 5, y - r])), g.arc(P([x + 5, y]), r, 270, 90), g.line(P([x + 5, y + r]), P([x - 5, y + r])), g.arc(P([x - 5, y]), r, 90, 270)]))
        if k == "solid":
            return G.Geometry(keep(Y["U"].prism(f["r"], f["r"] + 1, 2 * f["r"], p[0])))
        if k == "Polygon":
            return PL.Polygon(keep([q if e == "p" else g.arc(q, min(0.8, f["r"] / 8)) for q, e in zip(p, f["e"])]))
        if k == "Rect":
            return PL.Rect(f["r"], f["r"] + 2, keep(p[0]))
        if k == "RoundRect":
            return PL.RoundRect(f["r"] + 3, f["r"] + 5, 1.0, keep(p[0]))
        return Y["CB"].Boolean(f["t"], keep([self.build(q, args) for q in f["f"]]))

    def change(self, fig, o, args, figs):
        """One change of a figure: returns (figure, status)"""
        g = Y["g"]
        k = o["op"]
        keep = lambda x: (args.append(x), x)[1]
        v = P(o["v"])
        if o["tiny"]:                              # a change too small to see, but a change
            v = P([x * o["tiny"] for x in o["v"]])
            o = dict(o, s=1 + o["tiny"], ang=o["tiny"] * 100, r=o["r"] * o["tiny"])
            if k == "set" and type(fig) is Y["PL"].Polygon and o["i"] < len(fig.elem) and g.ispoint(fig.elem[o["i"]]):
                v = g.add(v, fig.elem[o["i"]])
        if k == "translate":
            return fig, call(fig.translate, keep(v))
        if k == "scale":
            return fig, call(fig.scale, o["s"])
        if k == "scale2":
            return fig, call(fig.scale, o["s"], o["s2"], 1.0, keep(v))
        if k == "rotate":
            return fig, call(fig.rotate, o["ang"], keep(v))
        if k == "mirror":
            return fig, call(fig.mirror, o["pl"])
        if k == "transform":
            return fig, call(fig.transform, Y["X"].Translation(v) if o["i"] % 2 else Y["X"].Rotation(P([0, 0, 1]), o["ang"]))
        if k == "badmirror":
            return fig, call(fig.mirror, "qq")
        if k == "badscale":
            return fig, call(fig.scale, "x" if o["i"] % 2 else -1.0, 0.3)
        if k == "flag":
            fig.update = True
            return fig, ("ok", None)
        if k == "copy":
            st, c = call(type(fig) if o["i"] % 2 and type(fig) is not Y["CB"].Boolean else __import__("copy").deepcopy, fig)
            return (c if st == "ok" else fig), (st, c)
        if k == "elem":
            if isinstance(fig, Y["CB"].Boolean):
                p = fig.elem[o["i"] % len(fig.elem)] if fig.elem else fig
                st, e = call(lambda: p.rotate(o["ang"], v) if o["r"] > 2 else p.translate(v))
                fig.update = True
                return fig, (st, e)
            if type(fig) is Y["PL"].Polygon:
                return fig, call(setattr, fig, "elem", [P([x, y]) for x, y in ((0, 0), (o["r"], 0), (o["r"], o["s"]), (-1, o["s"]))])
            return fig, call(setattr, fig, "elem", g.translate(fig.elem, v) if o["i"] % 2 and isinstance(fig.elem, list) and fig.elem and fig.elem[0] != "solid" else fig.elem)
        if type(fig) is not Y["PL"].Polygon:
            return fig, ("none", None)
        if k == "add":
            return fig, call(fig.addPoint, keep(v) if o["i"] else "x")
        if k == "set":
            return fig, call(fig.setPoint, o["i"], keep(v) if o["o"] else 5)
        if k == "addarc":
            return fig, call(fig.addArc, keep(g.arc(v, min(0.5, o["r"]))))
        if k == "addline":
            return fig, call(fig.addLine, keep(g.line(v, P([o["v"][0] + 3, o["v"][1] + 1]))))
        if k == "remove":
            return fig, call(lambda: fig.remove(fig.elem[o["i"]]))
        if k == "grow":
            return fig, call(fig.grow, -1.0 if o["i"] == 0 else o["r"])
        return fig, ("none", None)

    CHANGES = ("translate", "scale", "scale2", "rotate", "mirror", "transform", "badmirror", "badscale", "flag", "copy", "elem", "add", "set", "addarc", "addline", "remove", "grow")

    def ask(self, fig, o):
        g = Y["g"]
        q = o["q"]
        if q in ("length", "center", "bbox", "geom"):
            return call(getattr, fig, q)
        if q == "sample":
            return call(fig.sample, o["u"])
        if q == "inside":
            return call(fig.isinsideXY, P(o["v"]))
        if q == "surface":
            return call(fig.surface, *o["res"])
        if q == "intersect":
            return call(fig.intersectXY, g.line(P([-40, o["v"][1]]), P([40, o["v"][1] + 1])))
        if q == "unsample":
            return call(lambda: fig.unsample(fig.sample(o["u"])))
        if q == "segment":
            return call(fig.segment, 0.1, 0.1 + 0.8 * o["u"])
        return call(lambda: [fig.isclosed(), fig.issampleable(), fig.isintersectable(), fig.iscontinuous()])

    def canon(self, a):
        st, v = a
        if st != "ok":
            return ("exc", type(v).__name__)
        return ("ok", self.num(v))

    def num(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, (list, tuple)):
            return [self.num(x) for x in v]
        if isinstance(v, dict):
            return {str(k): self.num(x) for k, x in v.items() if k not in ("entityId", "entity_id", "id", "uuid", "timestamp")}
        return repr(type(v))

    def differ(self, a, b):
        if isinstance(a, float) and isinstance(b, float):
            return not (a == b or abs(a - b) <= 1e-9 * (1 + abs(a)) or (a != a and b != b))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) != len(b) or any(self.differ(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return a.keys() != b.keys() or any(self.differ(a[k], b[k]) for k in a)
        return type(a) is not type(b) or a != b

    def spoil(self, v):
        if isinstance(v, list):
            for x in v:
                self.spoil(x)
            for i, x in enumerate(v):
                if isinstance(x, float) or (isinstance(x, int) and not isinstance(x, bool)):
                    v[i] = x + 7 if i < 2 else x
            if v and isinstance(v[0], list):
                v.append(v[0])

    def run(self, plan):
        r = Result()
        r.nontrivial = False
        if "X" not in Y:
            from yapcad import xform
            Y["X"] = xform
        with World(plan["seed"]), contextlib.redirect_stdout(io.StringIO()):
            if plan["tree"]:
                self.tree(plan["tree"], r)
            else:
                self.figures(plan, r)
        return r

    def twin(self, f, hist):
        fig = self.build(f, [])
        for o in hist:
            fig, _ = self.change(fig, o, [], None)
        return fig

    def figures(self, plan, r):
        figs = []
        for f in plan["figs"]:
            args = []
            figs.append([f, self.build(f, args), [], args, set(), 0])
        for i, o in enumerate(plan["ops"]):
            F = figs[o["o"] % len(figs)]
            f, fig, hist, args, asked, ver = F
            k = o["op"]
            if k in self.CHANGES:
                F[1], (st, v) = self.change(fig, o, args, figs)
                r.t(i, k, st)
                if st == "none":
                    continue
                if st == "exc":
                    # a refused change changes nothing: the history goes on without it
                    r.stats["refused_changes"] += 1
                else:
                    hist.append(o)
                    F[5] += 1
                continue
            if k == "spoilarg":
                for a in args:
                    if isinstance(a, list) and a and isinstance(a[0], Y["G"].Geometry):
                        call(a.pop().translate, P([3, 4]))
                    elif not (a and a[0] == "solid"):
                        self.spoil(a)
                args.clear()
                r.faults["caller_modified_argument"] += 1
                r.t(i, k)
                continue
            if k == "stop":
                try:
                    with interrupt(o["at"], o["nth"]):
                        self.ask(fig, o)
                    r.t(i, k, "through")
                except Interrupt:
                    r.faults["question_interrupted"] += 1
                    r.t(i, k, *o["at"])
                    r.state(f["k"], "stop", *o["at"])
                continue
            a = self.ask(fig, o)
            mine = self.canon(a)
            if k == "spoil" and a[0] == "ok":
                self.spoil(a[1])
                r.faults["caller_modified_result"] += 1
            t = self.twin(f, hist)
            call(getattr, t, "geom")
            want = self.canon(self.ask(t, o))
            key = (o["q"], str(o.get("res")) if o["q"] == "surface" else "")
            if any(q[0] == key and q[1] != ver for q in asked):
                r.nontrivial = True
            asked.add((key, ver))
            r.t(i, k, o["q"], mine[0])
            r.state(f["k"], hist[-1]["op"] if hist else "", o["q"], len(asked) > 1, want[0])
            if self.differ(list(mine), list(want)):
                r.v("stale-answer", f"{f['k']} {o['q']} after {[h['op'] for h in hist]} gave {str(mine)[:300]}, a fresh figure made and changed the same way gives {str(want)[:300]}")
                return

    # ------------------------------------------------------------ trees
    def tri(self, b):
        (x, y, z), (dx, dy, dz) = b
        return [P([x, y, z]), P([x + dx, y, z + dz]), P([x + dx / 2, y + dy, z]), P([x, y, z])]

    def tree(self, p, r):
        O = Y["O"]
        n = p["n"]
        els = [self.tri(b) for b in p["init"]]
        given = [(e, f"t{j}") for j, e in enumerate(els)] if p["tag"] else list(els)
        mine = list(given)
        kw = {}
        if p["mindim"]:
            kw["mindim"] = p["mindim"]
        if p["maxdepth"]:
            kw["maxdepth"] = p["maxdepth"]
        st, t = call(O.NTree, n=n, geom=given or None, **kw)
        if st != "ok":
            r.v("tree-refused", repr(t))
            return
        size = len(given)
        grown = False
        asked = False
        for i, o in enumerate(p["ops"]):
            k = o["op"]
            r.t(i, k)
            r.state("tree", n, k, len(mine) > n, asked, grown)
            if k == "add":
                e = self.tri(o["b"])
                tag = f"n{i}" if p["tag"] else None
                st, v = call(t.addElement, e, tag)
                if st != "ok":
                    r.v("tree-add-refused", repr(v))
                    return
                mine.append((e, tag) if tag else e)
                grown = asked
                if len(given) != size:
                    r.v("argument-changed", f"adding an element to the tree changed the list it was built from ({size} -> {len(given)})")
                    return
                continue
            if k == "mid":
                t.mindim = o["m"] / 2
                continue
            if k == "depth":
                t.maxdepth = o["m"]
                continue
            bx = [Y["g"].bbox(m[0] if isinstance(m, tuple) else m) for m in mine]
            if k == "center":
                if o["m"] % 2 or not bx:
                    st, v = call(t.updateCenter)
                else:
                    lo = [min(b[0][a] for b in bx) for a in range(3)]
                    hi = [max(b[1][a] for b in bx) for a in range(3)]
                    st, v = call(t.updateCenter, P([lo[a] + o["f"][a] * (hi[a] - lo[a]) for a in range(3)]))
                if st != "ok":
                    r.v("tree-center-refused", repr(v))
                    return
                continue
            q = [P(o["b"][0]), P([o["b"][0][a] + o["b"][1][a] for a in range(3)])]
            if k == "stop":
                try:
                    with interrupt(o["at"], o["nth"]):
                        call(t.getElements, q)
                except Interrupt:
                    r.faults["question_interrupted"] += 1
                    r.t(i, "stopped", o["at"][1])
                continue
            st, v = call(t.getElements, q)
            if st != "ok":
                r.v("tree-query-failed", f"{len(mine)} elements: {v!r}")
                return
            for j, b in enumerate(bx):
                gap = max(max(b[0][a] - q[1][a], q[0][a] - b[1][a]) for a in range(3 if n == 8 else 2))
                cnt = sum(1 for e in v if e is mine[j] or e == mine[j])
                same = sum(1 for e in mine if e == mine[j])
                if gap < -1e-6 and cnt != same or gap > 1e-6 and cnt:
                    r.v("tree-answer-wrong", f"n={n}, {len(mine)} elements, element {b} is returned {cnt} times for box {q} (overlap {-gap})")
                    return
            if k == "spoil":
                v.clear()
                r.faults["caller_modified_result"] += 1
            if grown:
                r.nontrivial = True
            asked = True


CHECK = C12()
