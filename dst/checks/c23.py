"""C23: native BREP graphs answer for what they hold now, and stay with the solid they are attached to."""
import contextlib
import copy
import json
import math
import os
import random

from ..engine import Check, Result
from ..peer import Peer
from ..world import World, call

Y = {}
KINDS = ["vertices", "edges", "trims", "loops", "faces", "shells", "solids"]
CUBE = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
CEDGE = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
# the edges round each face, its corners (counted outward) and its outward normal
CFACE = [((0, 1, 2, 3), (0, 3, 2, 1), (0, 0, -1)), ((4, 5, 6, 7), (4, 5, 6, 7), (0, 0, 1)), ((0, 9, 4, 8), (0, 1, 5, 4), (0, -1, 0)),
         ((2, 11, 6, 10), (2, 3, 7, 6), (0, 1, 0)), ((3, 8, 7, 11), (3, 0, 4, 7), (-1, 0, 0)), ((1, 10, 5, 9), (1, 2, 6, 5), (1, 0, 0))]


# ------------------------------------------------------------------ independent transforms
def mat(o):
    """(4x4 matrix, scale factor) of a move"""
    np = Y["np"]
    m = np.eye(4)
    f = 1.0
    v = np.array(o["v"], float)
    if o["mv"] == "translate":
        m[:3, 3] = v
    elif o["mv"] == "rotate":
        a = np.array(o["axis"], float)
        a /= np.linalg.norm(a)
        t = math.radians(o["ang"])
        k = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
        r = np.eye(3) + math.sin(t) * k + (1 - math.cos(t)) * (k @ k)
        m[:3, :3] = r
        m[:3, 3] = v - r @ v
    elif o["mv"] == "mirror":
        i = {"yz": 0, "xz": 1, "xy": 2}[o["plane"]]
        m[i, i] = -1.0
    elif o["mv"] == "scale":
        f = o["f"]
        m[:3, :3] *= f
        m[:3, 3] = v - f * v
    return m, f


def mpt(m, p):
    q = m[:3, :3] @ Y["np"].array(p[:3], float) + m[:3, 3]
    return [float(q[0]), float(q[1]), float(q[2]), 1.0]


def mvec(m, p):
    q = m[:3, :3] @ Y["np"].array(p[:3], float)
    q = q / max(1e-30, float((q @ q) ** 0.5))
    return [float(q[0]), float(q[1]), float(q[2]), 0.0]


def medge(e, m, f):
    c = e[2].get("curve_params") or {}
    for k in ("center", "axis"):
        if c.get(k):
            c[k] = (mpt if k == "center" else mvec)(m, c[k])
    if c.get("control_points"):
        c["control_points"] = [mpt(m, p) for p in c["control_points"]]
    if "radius" in c:
        c["radius"] *= f


def msurf(s, m, f):
    if s is None:
        return
    k, d = s[0], s[2]
    if k == "bspline_surface":
        s[1] = [[mpt(m, p) for p in row] for row in s[1]]
    elif k == "tessellated_surface":
        s[1] = {"vertices": [mpt(m, p) for p in s[1]["vertices"]], "normals": [mvec(m, p) for p in s[1]["normals"]], "faces": s[1]["faces"]}
    else:
        s[1] = mpt(m, s[1])
        for q in ("normal", "axis", "u_axis", "v_axis", "ref_direction"):
            if q in d:
                d[q] = mvec(m, d[q])
        for q in ("radius", "major_radius", "minor_radius"):
            if q in d:
                d[q] *= f
        for q in {"plane_surface": ("u_range", "v_range"), "cylinder_surface": ("v_range",), "cone_surface": ("v_range",)}.get(k, ()):
            d[q] = tuple(x * f for x in d[q])


class Model:
    """The entities a graph holds, as plain copies"""

    def __init__(self):
        self.e = {k: {} for k in KINDS}

    def copy(self):
        n = Model()
        n.e = copy.deepcopy(self.e)
        return n

    def put(self, kind, ent):
        e = copy.deepcopy(ent)
        for k in [q for q in e[2] if q.startswith("_octree")]:
            del e[2][k]
        self.e[kind][e[2]["id"]] = e

    def move(self, o, faces=True):
        m, f = mat(o)
        for v in self.e["vertices"].values():
            v[1] = mpt(m, v[1])
        for e in self.e["edges"].values():
            medge(e, m, f)
        for s in self.e["faces"].values() if faces else ():
            msurf(s[1], m, f)

    def fresh(self):
        """A new graph holding just these entities"""
        g = Y["N"].TopologyGraph()
        for kind in KINDS:
            for ent in self.e[kind].values():
                e = copy.deepcopy(ent)
                if kind == "vertices":
                    e[2]["edges"] = []
                    g.add_vertex(e)
                elif kind == "edges":
                    e[2]["faces"] = []
                    g.add_edge(e)
                elif kind == "trims":
                    g.add_trim(e)
                elif kind == "loops":
                    g.add_loop(e)
                elif kind == "faces":
                    g.add_face(e)
                elif kind == "shells":
                    g.add_shell(e, validate_closure=False)
                else:
                    g.add_solid(e, validate=False)
        return g


def facts(g):
    """What a graph holds, in comparable form (identifiers, relations, properties; no coordinates)"""
    N = Y["N"]
    out = {}
    for kind in KINDS:
        for i, e in getattr(g, kind).items():
            d = e[2]
            f = [kind, d["id"], sorted(map(repr, (d.get("tags") or {}).items()))]
            if kind == "vertices":
                f += [sorted(x[2]["id"] for x in g.vertex_edges(i)), d["tolerance"]]
            elif kind == "edges":
                f += [e[1], N.edge_vertices(e), sorted(x[2]["id"] for x in g.edge_faces(i)), d.get("sense"), d.get("tolerance"), sorted(d.get("curve_params") or {}),
                      (d.get("curve_params") or {}).get("degree"), [None if x is None else round(float(x), 9) for x in map((d.get("curve_params") or {}).get, ("t_start", "t_end"))],
                      [float(x) for x in (d.get("curve_params") or {}).get("weights") or []], list((d.get("curve_params") or {}).get("knots") or [])]
            elif kind == "trims":
                f += [e[1], d.get("sense"), repr(d.get("uv_curve"))]
            elif kind == "loops":
                f += [list(e[1]), d.get("loop_type")]
            elif kind == "faces":
                f += [list(d.get("loop_ids") or []), d.get("sense"), e[1][0] if e[1] else None, sorted(x[2]["id"] for x in g.face_edges(i))]
            elif kind == "shells":
                f += [list(e[1]), d.get("shell_type"), d.get("closed")]
            else:
                f += [list(e[1])]
            out[kind, i] = f
    return out


def close(a, b, s):
    return all(abs(x - y) <= 1e-6 * s for x, y in zip(a[:3], b[:3]))


def numbers(g, s=None):
    """Coordinates of what it holds"""
    out = {}
    for i, v in g.vertices.items():
        out["v", i] = [v[1][:3]]
    for i, e in g.edges.items():
        c = e[2].get("curve_params") or {}
        out["e", i] = [c["center"][:3]] if c.get("center") else []
        out["e", i] += [list(p[:3]) for p in c.get("control_points") or []]
        if "radius" in c:
            out["e", i].append([c["radius"], 0, 0])
        if c.get("axis"):
            out["a", i] = [list(c["axis"][:3])]
    return out


def cloud_far(a, b):
    """Whether two point sets differ by more than rounding"""
    np = Y["np"]
    if len(a) != len(b):
        return f"{len(a)} vertices, expected {len(b)}"
    if not a:
        return None
    A, B = np.array([p[:3] for p in a], float), np.array([p[:3] for p in b], float)
    tol = 1e-6 * max(1.0, float(abs(B).max()))
    if abs(A - B).max() <= tol:
        return None
    d = np.sqrt(((A[:, None, :] - B[None, :, :]) ** 2).sum(2))
    m = max(float(d.min(0).max()), float(d.min(1).max()))
    return None if m <= tol else f"vertices are up to {m:.6g} away from where they belong"


def inside(b, p):
    """Whether a point is inside a box (None: within a hair of its surface)"""
    np = Y["np"]
    (c, F), C = b
    x = np.linalg.solve(F.T, np.array(p[:3], float) - c)
    if (x > 0.01).all() and (x < 0.99).all():
        return True
    return False if (x < -0.01).any() or (x > 1.01).any() else None


class Interrupt(BaseException):
    pass


@contextlib.contextmanager
def interrupt(where, nth):
    owner = {"tessellate_shell": Y["N"].TopologyGraph, "shell_bbox": Y["N"].TopologyGraph, "addElement": Y["O"].NTree, "updateTree": Y["O"].NTree, "getElements": Y["O"].NTree,
             "tessellate_surface": Y["A"]}[where]
    real = getattr(owner, where)
    n = [nth]

    def wrap(*a, **k):
        n[0] -= 1
        if n[0] < 0:
            raise Interrupt()
        return real(*a, **k)
    setattr(owner, where, wrap)
    try:
        yield n
    finally:
        setattr(owner, where, real)


# ------------------------------------------------------------------ generation
def gen_shell(rng):
    v = lambda lo=-15, hi=15: [round(rng.uniform(lo, hi), 2) for _ in range(3)]
    s = {"k": rng.choice(["tess"] * 6 + ["planes", "planes", "sphere", "cyl", "cone", "torus", "patch"]), "o": v(), "s": v(1, 12), "open": rng.random() < 0.2,
         "closed": rng.choice([None, None, True, True, False]), "type": rng.choice(["outer", "outer", "void"]), "tag": rng.randrange(4), "late": rng.random() < 0.15, "turn": rng.choice([None, None, 30, 77])}
    if rng.random() < 0.35:
        s["o"], s["s"] = [round(x / 4, 2) for x in s["o"]], [round(1 + x / 6, 2) for x in s["s"]]
    nest = rng.choice([None, None, None, "big", "small", "small", "across"])
    if nest and s["k"] == "tess":           # boxes round, within and across each other
        b = {"big": (0, 9), "small": (rng.choice([2, 5]), 2), "across": (7, 5)}[nest]
        s.update(o=[round(b[0] + rng.uniform(0, 1), 2) for _ in range(3)], s=[round(b[1] + rng.uniform(0, 1), 2) for _ in range(3)], turn=None, type="outer" if nest == "big" else "void",
                 open=rng.random() < 0.1, closed=rng.choice([None, True, True]), late=False)
    s["fin"] = s["k"] == "tess" and rng.random() < 0.06        # a seventh face on edges that have two
    s["trust"] = rng.random() < 0.08                           # added without having its closure looked at
    return s


def gen_move(rng):
    return {"mv": rng.choice(["translate", "translate", "rotate", "rotate", "mirror", "scale"]), "v": [round(rng.uniform(-9, 9), 2) for _ in range(3)],
            "axis": rng.choice([[0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 1, 0], [1, -2, 3]]), "ang": rng.choice([30, 90, -45, 180, 12.5]), "plane": rng.choice(["xy", "yz", "xz"]), "f": rng.choice([0.5, 2.0, 1.37])}


def gen_op(rng):
    k = rng.choice(["shell"] * 4 + ["solid"] * 3 + ["move"] * 4 + ["edgemove", "failmove", "surface", "surface"] + ["q"] * 10 + ["stop"] * 3 + ["attach"] * 3 + ["smove"] * 5 +
                   ["squash", "clear", "restore", "restore", "restore", "json", "remote", "tag"])
    o = {"op": k, "i": rng.randrange(6), "j": rng.randrange(6), "n": rng.randrange(8)}
    if k == "shell":
        o["sh"] = gen_shell(rng)
    if k in ("move", "edgemove", "failmove", "smove"):
        o.update(gen_move(rng))
    if k in ("q", "stop"):
        o["q"] = rng.choice(["closure", "bbox", "tess", "octree", "octree", "contains", "contains", "contains", "meets", "meets", "valid", "facts", "edges"])
        o["p"] = [round(rng.uniform(-0.3, 1.3), 3) for _ in range(3)]
        if rng.random() < 0.3:
            o["fix"] = True                     # the same place each time
        o["at"] = rng.choice(["tessellate_shell", "addElement", "addElement", "updateTree", "getElements", "tessellate_surface", "shell_bbox"])
        o["nth"] = rng.choice([0, 0, 1, 2, 5, 11])
    if k == "surface":
        o["v"] = [round(rng.uniform(-4, 4), 2) for _ in range(3)]
    return o


class C23(Check):
    id = "C23"
    runs = {"quick": 3200, "thorough": 100000}
    batch = 8
    shrink_lists = ("ops",)
    rule = "a run with a new trace in which a graph or solid was changed or carried elsewhere after it had been asked"
    real = ["yapcad.native_brep", "yapcad.analytic_surfaces", "yapcad.octtree", "yapcad.geom3d (solid transforms)", "yapcad.io.geometry_json", "two real interpreters with different hash seeds"]
    stub = ["clock and random identifiers (seeded)", "transform functions given by the caller"]
    assumptions = ["a face's surface edited in place is followed by invalidate_shell_octree, as documented", "factors are positive; curved surfaces go all the way round", "faces are meshed 6 by 6 where no resolution is asked for"]
    states_measure = "distinct (operation, question, kind of shell, number of shells, asked before, moved before)"
    peer = None

    def preload(self):
        self.peer = Peer(self.id, random.Random(os.environ.get("VERIF_SEED", "1")).randrange(1, 4_000_000_000))
        self.preload_peer()
        assert self.peer.ready()

    def preload_peer(self):
        import numpy as np
        from yapcad import native_brep, analytic_surfaces, octtree, geom3d, geom3d_util, geom
        from yapcad.io import geometry_json
        f = getattr(native_brep.TopologyGraph.tessellate_shell, "__func__", native_brep.TopologyGraph.tessellate_shell)
        d = getattr(f, "__defaults__", None) or ()
        if 16 in d:
            f.__defaults__ = tuple(6 if x == 16 else x for x in d)      # coarse meshes: the same code, fewer triangles
        Y["tris"] = 72 if 16 in d else 512
        Y.update(np=np, N=native_brep, A=analytic_surfaces, O=octtree, g3=geom3d, g3u=geom3d_util, geom=geom, gj=geometry_json)

    def side(self, req):
        s = Y["gj"].geometry_from_json(req["doc"])
        s = s[0] if isinstance(s[0], list) else s
        g = Y["N"].native_brep_from_solid(s)
        return {"facts": [[list(k), v] for k, v in facts(g).items()], "bbox": {i: [list(p[:3]) for p in g.shell_bbox(i)] if g.shell_bbox(i) else None for i in g.shells}}

    def gen(self, rng, index, tier):
        n = rng.randint(5, 22 if tier == "quick" else 60)
        return {"seed": rng.randrange(1 << 30), "ops": [{"op": "shell", "i": 0, "j": 0, "n": 0, "sh": gen_shell(rng)} for _ in range(rng.randint(1, 2))] + [gen_op(rng) for _ in range(n)]}

    # -------------------------------------------------------------- building
    def build(self, g, m, sh):
        """Add a shell's parts to the graph and the model; the shell itself and any face left for later are returned."""
        N, A = Y["N"], Y["A"]
        o, s = sh["o"], sh["s"]
        tags = {"t": sh["tag"]} if sh["tag"] else None
        V, E, T, L, FA = [], [], [], [], []
        turn = {"mv": "rotate", "v": o, "axis": [1, -2, 3], "ang": sh["turn"]} if sh["turn"] else None

        def face(surf, edges, sense=True):
            tr = [N.brep_trim(e, sense=(i % 2 == 0)) for i, e in enumerate(edges)]
            lp = N.brep_loop(tr, loop_type="outer")
            T.extend(tr)
            L.append(lp)
            FA.append(N.brep_face(surf, [lp], sense=sense, tags=dict(tags) if tags else None))
        if sh["k"] in ("tess", "planes"):
            c = [[o[i] + s[i] * q[i] for i in range(3)] for q in CUBE]
            V = [N.brep_vertex(p, tags=dict(tags) if tags else None) for p in c]
            E = [N.line_edge(V[a], V[b], sense=(a + b) % 3 != 0, tolerance=1e-4) for a, b in CEDGE]
            for fi, (ed, cor, nrm) in enumerate(CFACE):
                if sh["open"] and fi == 1:
                    continue
                if sh["k"] == "tess":
                    surf = A.tessellated_surface([c[q] for q in cor], [nrm] * 4, [[0, 1, 2], [0, 2, 3]])
                else:
                    surf = A.plane_surface(c[cor[0]], nrm)
                    rel = [[c[q][i] - c[cor[0]][i] for i in range(3)] for q in cor]
                    for ax, rg in (("u_axis", "u_range"), ("v_axis", "v_range")):
                        d = [sum(x * y for x, y in zip(r, surf[2][ax])) for r in rel]
                        surf[2][rg] = (min(d), max(d))
                face(surf, [E[q] for q in ed], sense=fi % 2 == 0)
            if sh.get("fin"):
                face(A.tessellated_surface([c[q] for q in (0, 1, 6)], [[0, 0, 1]] * 3, [[0, 1, 2]]), [E[0], E[5]])
        elif sh["k"] == "sphere":
            FA = [N.brep_face(A.sphere_surface(o, s[0]), [])]
        elif sh["k"] == "torus":
            FA = [N.brep_face(A.torus_surface(o, [0, 0, 1], s[0] + s[1], s[1]), [])]
        elif sh["k"] in ("cyl", "cone"):
            top = [o[0], o[1], o[2] + s[2]]
            r0 = s[0]
            V = [N.brep_vertex([o[0] + r0, o[1], o[2]]), N.brep_vertex([o[0] + r0, o[1], top[2]])]
            E = [N.circle_edge(V[0], V[0], o, [0, 0, 1], r0), N.circle_edge(V[1], V[1], top, [0, 0, 1], r0, **({"t_start": 0.25, "t_end": 0.25 + math.pi} if sh["tag"] else {}))]
            side = A.cylinder_surface(o, [0, 0, 1], r0, v_range=(0.0, s[2])) if sh["k"] == "cyl" else A.cone_surface(o, [0, 0, 1], 0.5, v_range=(0.1, s[2]))
            face(side, E)
            for p, nz, e in ((o, -1, E[0]), (top, 1, E[1])):
                if nz == 1 and sh["open"]:
                    continue
                face(A.plane_surface(p, [0, 0, nz], u_range=(-r0, r0), v_range=(-r0, 2 * r0)), [e])
        else:
            V = [N.brep_vertex([o[0] + x, o[1] + y, o[2]]) for x, y in ((0, 0), (s[0], 0))]
            E = [N.bspline_edge(V[0], V[1], [[o[0] + s[0] * i / 3, o[1], o[2] + (i % 2)] for i in range(4)], [0, 0, 0, 0, 1, 1, 1, 1], 3, **({"weights": [1.0, 2.0, 0.5, 1.0], "t_start": 0.0, "t_end": 0.75} if sh["tag"] else {}))]
            face(A.bspline_surface([[[o[0] + s[0] * i / 2, o[1] + s[1] * j / 2, o[2] + (i * j) % 3] for i in range(3)] for j in range(3)], [0, 0, 0, 1, 1, 1], [0, 0, 0, 1, 1, 1], 2, 2), E)
        if turn:
            M, f = mat(turn)
            for v in V:
                v[1] = mpt(M, v[1])
            for e in E:
                medge(e, M, f)
            for q in FA:
                msurf(q[1], M, f)
        shell = N.brep_shell(FA, shell_type=sh["type"], closed=sh["closed"], tags=dict(tags) if tags else None)
        late = FA.pop() if sh["late"] and len(FA) > 1 else None
        for ents, kind, add in ((V, "vertices", g.add_vertex), (E, "edges", g.add_edge), (T, "trims", g.add_trim), (L, "loops", g.add_loop), (FA, "faces", g.add_face)):
            for e in ents:
                m.put(kind, e)
                add(e)
        return shell, late

    # -------------------------------------------------------------- judging
    def same(self, g, m, what):
        """The graph holds what the model holds"""
        ref = m.fresh()
        st, a = call(facts, g)
        if st != "ok":
            return ("graph-broken", f"{what}: {a!r}")
        b = facts(ref)
        e = self.relations(m, b)
        if e:
            return ("relations-wrong", f"{what}: {e}")
        if list(a) != list(b) and sorted(a) != sorted(b):
            return ("entities-differ", f"{what}: {sorted(set(a) ^ set(b))[:4]}")
        for k in b:
            if a[k] != b[k]:
                return ("entity-differs", f"{what}: {a[k]}, expected {b[k]}")
        x, y = numbers(g), numbers(ref)
        for k in y:
            if k[0] == "a":
                if len(x.get(k, [])) != 1 or not (close(x[k][0], y[k][0], 1) or close([-q for q in x[k][0]], y[k][0], 1)):
                    return ("entity-moved-wrong", f"{what}: {k[0]} has {x.get(k)}, expected {y[k]}")
                continue
            s = max([1.0] + [abs(q) for p in y[k] for q in p])
            if len(x.get(k, [])) != len(y[k]) or not all(close(p, q, s) for p, q in zip(x[k], y[k])):
                return ("entity-moved-wrong", f"{what}: {k[0]} at {x.get(k)}, expected {y[k]}")
        return None

    def relations(self, m, f):
        """Which edges meet at a vertex, which faces an edge and which edges a face has, from the entities alone"""
        E, ve, ef, fe = m.e, {}, {}, {}
        for i, e in E["edges"].items():
            for v in Y["N"].edge_vertices(e):
                ve.setdefault(v, set()).add(i)
        for i, x in E["faces"].items():
            for l in x[2].get("loop_ids") or []:
                for t in E["loops"][l][1]:
                    ef.setdefault(E["trims"][t][1], set()).add(i)
                    fe.setdefault(i, set()).add(E["trims"][t][1])
        for kind, at, want in (("vertices", 3, ve), ("edges", 5, ef), ("faces", 6, fe)):
            for i in E[kind]:
                if set(f[kind, i][at]) != want.get(i, set()):
                    return f"{kind} {i} goes with {f[kind, i][at]}, expected {sorted(want.get(i, ()))}"
        return None

    def costly(self, m, sids):
        """Too many pairs of triangles for one question"""
        n = 1
        for x in sids if len(sids) > 1 else []:
            n *= sum(2 if m.e["faces"][y][1][0] == "tessellated_surface" else Y["tris"] for y in m.e["shells"][x][1] if y in m.e["faces"])
        return n > 3000

    def ask(self, g, ref, sid, o, sids, ref_m):
        """(answer, expected) of a question about a shell"""
        np, q = Y["np"], o["q"]
        bb = ref.shell_bbox(sid)
        p = Y["geom"].point(*[bb[0][i] + (bb[1][i] - bb[0][i]) * o["p"][i] + 1e-4 * (i + 1) for i in range(3)]) if bb else Y["geom"].point(0, 0, 0)
        if o.get("fix"):
            p = Y["geom"].point(3.3, 3.2, 3.1)
        other = sids[o["j"] % len(sids)]

        def run(h):
            if q == "closure":
                ok, d = h.compute_shell_closure(sid)
                return [ok, sorted(d["boundary_edges"]), sorted(d["non_manifold_edges"]), d["euler_characteristic"], d["vertex_count"], d["edge_count"], d["face_count"],
                        sorted(h.shell_vertices(sid)), sorted((k, sorted(v)) for k, v in h.shell_edge_usage(sid).items())]
            if q == "bbox":
                b = h.shell_bbox(sid)
                return b and [list(b[0][:3]), list(b[1][:3])]
            if q == "tess":
                t = h.tessellate_shell(sid, 7, 5)
                return t and [[list(v[:3]) for v in t[1]], len(t[3]), [[sum(t[1][i][k] for i in f) / 3 for k in range(3)] for f in t[3]]]
            if q == "octree":
                t = h.shell_octree(sid)
                if t is None:
                    return None
                els = [e[0] if isinstance(e, tuple) else e for e in t.getElements([Y["geom"].point(*[p[i] - 2.0 for i in range(3)]), Y["geom"].point(*[p[i] + 2.0 for i in range(3)])])]
                return sorted(tuple(round(sum(v[i] for v in e) / 3, 4) for i in range(3)) for e in els)
            if q == "contains":
                return bool(h.shell_contains_point(sid, p))
            if q == "meets":
                return bool(h.shells_intersect(sid, other))
            if q == "edges":
                return [[(x or "") and repr(x[0])[:20], [round(c, 5) + 0.0 for c in (x[0] if isinstance(x[0], list) and len(x[0]) >= 3 and not isinstance(x[0][0], (list, str)) else [0])[:3]]]
                        for x in (h.evaluate_edge(e) for e in sorted(h.edges))] and [self.ends(h.evaluate_edge(e)) for e in sorted(h.edges) if h.edges[e][1] in ("line", "circle", "bspline")]
            if q == "valid":
                if not h.solids:
                    return None
                so = sorted(h.solids)[o["n"] % len(h.solids)]
                st, v = call(h.validate_solid, so)
                return st if st == "ok" else type(v).__name__
        a, b, t = run(g), run(ref), self.truth(ref_m, q, sid, other, p, o)
        if t is not None and b != t and not (q == "tess" and b and not cloud_far(b[0], t[0]) and not cloud_far(b[2], t[2]) and b[1] == t[1]):
            b = t                       # what plain arithmetic says
        return a, b

    def truth(self, m, q, sid, other, p, o):
        """The answer worked out from the entities alone, or None where it is not clear"""
        np = Y["np"]
        if q == "closure":
            return self.closure(m, sid)
        if q == "tess":
            s = [m.e["faces"][f][1] for f in m.e["shells"][sid][1] if f in m.e["faces"]]
            if not s or any(x[0] != "tessellated_surface" for x in s):
                return None
            return [[list(v[:3]) for x in s for v in x[1]["vertices"]], sum(len(x[1]["faces"]) for x in s),
                    [[sum(x[1]["vertices"][i][k] for i in f) / 3 for k in range(3)] for x in s for f in x[1]["faces"]]]
        if q == "contains":
            b = self.box(m, sid)
            return b and inside(b, p[:3])
        if q == "meets":
            return self.clash(self.box(m, sid), self.box(m, other))
        if q == "valid" and m.e["solids"]:
            so = m.e["solids"][sorted(m.e["solids"])[o["n"] % len(m.e["solids"])]]
            bad = "SolidValidationError"
            if any(m.e["shells"][x][2].get("closed") is False or not self.closure(m, x)[0] for x in so[1]):
                return bad
            if len(so[1]) < 2:
                return "ok"
            A, B = self.box(m, so[1][0]), self.box(m, so[1][1])
            c = self.clash(A, B)
            if c is None:
                return None
            at = inside(A, (B[1].min(0) + B[1].max(0)) / 2)
            return bad if c else None if at is None else "ok" if at else bad
        return None

    def closure(self, m, sid):
        use = {}
        fs = set(m.e["shells"][sid][1])
        for f in fs & set(m.e["faces"]):
            for l in m.e["faces"][f][2].get("loop_ids") or []:
                for t in m.e["loops"][l][1]:
                    use.setdefault(m.e["trims"][t][1], []).append(f)
        vs = {v for e in use for v in Y["N"].edge_vertices(m.e["edges"][e])}
        one, many = sorted(e for e in use if len(use[e]) == 1), sorted(e for e in use if len(use[e]) > 2)
        return [not one and not many, one, many, len(vs) - len(use) + len(fs), len(vs), len(use), len(fs), sorted(vs), sorted((k, sorted(v)) for k, v in use.items())]

    def box(self, m, sid):
        """(corner and edges as a frame, corners) of a shell that is a closed box of flat faces, moved or not"""
        np = Y["np"]
        fs = [m.e["faces"][f] for f in m.e["shells"][sid][1] if f in m.e["faces"]]
        if len(fs) != 6 or any(f[1][0] != "tessellated_surface" for f in fs):
            return None
        P = [np.array([v[:3] for v in f[1][1]["vertices"]], float) for f in fs]
        c = P[0][0]
        u, v = P[0][1] - c, P[0][3] - c
        w = min((x - c for x in P[1]), key=lambda d: abs(d @ u) + abs(d @ v))
        C = np.array([c + i * u + j * v + k * w for i in (0, 1) for j in (0, 1) for k in (0, 1)])
        tol = 1e-6 * max(1.0, float(abs(C).max()))
        for X in P:
            d = np.sqrt(((X[:, None, :] - C[None, :, :]) ** 2).sum(2)).min(1)
            if d.max() > tol:
                return None             # a face was moved on its own
        return (c, np.array([u, v, w])), C

    def clash(self, A, B):
        """Whether the surfaces of two boxes cross, None where it is close"""
        np = Y["np"]
        if A is None or B is None:
            return None
        for X, Z in ((A, B), (B, A)):
            i = [inside(X, c) for c in Z[1]]
            if True in i and False in i:
                return True
            if all(x is True for x in i):
                return False            # one within the other
        ax = list(A[0][1]) + list(B[0][1]) + [np.cross(x, y) for x in A[0][1] for y in B[0][1]]
        for n in ax:
            l = float((n @ n) ** 0.5)
            if l > 1e-9:
                a, b = A[1] @ n / l, B[1] @ n / l
                if a.max() < b.min() - 0.01 or b.max() < a.min() - 0.01:
                    return False
        return None

    def ends(self, c):
        return [list(c[0][:3]), list(c[1][:3])]

    def differs(self, q, a, b):
        if q == "tess":
            if (a is None) != (b is None):
                return f"{a if a is None else 'a mesh'}, expected {b if b is None else 'a mesh'}"
            return a and (cloud_far(a[0], b[0]) or cloud_far(a[2], b[2]) or (a[1] != b[1] and f"{a[1]} triangles, expected {b[1]}") or None)
        if q in ("bbox", "edges") and a and b:
            x, y = [v for p in a for v in (p if not isinstance(p[0], list) else sum(p, []))], [v for p in b for v in (p if not isinstance(p[0], list) else sum(p, []))]
            s = max([1.0] + [abs(v) for v in y])
            return None if len(x) == len(y) and all(abs(u - v) <= 1e-6 * s for u, v in zip(x, y)) else f"{a}, expected {b}"
        if q == "octree" and a is not None and b is not None and len(a) == len(b):
            return None if all(abs(u - v) < 1e-3 for s, t in zip(a, b) for u, v in zip(s, t)) or not cloud_far([list(x) for x in a], [list(x) for x in b]) else "other triangles"
        return None if a == b else f"{str(a)[:160]}, expected {str(b)[:160]}"

    def run(self, plan):
        r = Result()
        with World(plan["seed"]) as w:
            graphs = [[Y["N"].TopologyGraph(), Model(), set(), False]]
            solids = []
            for i, o in enumerate(plan["ops"]):
                e = self.step(i, o, r, graphs, solids)
                if e:
                    r.v(*e)
                    break
            else:
                for g, m, *_ in graphs:
                    e = self.same(g, m, "at the end")
                    if e:
                        r.v(*e)
                        break
                for s, m, mesh in [] if r.violations else solids:
                    e = self.solid_ok(s, m, mesh, "at the end")
                    if e:
                        r.v(*e)
                        break
            r.sim_time = w.sim_time
        return r

    def solid_ok(self, s, m, mesh, what):
        N = Y["N"]
        if m is None:
            if N.has_native_brep(s) or N.native_brep_from_solid(s) is not None:
                return ("brep-left-behind", f"{what}: the solid still carries a graph")
        else:
            if not N.has_native_brep(s):
                return ("brep-lost", what)
            st, g = call(N.native_brep_from_solid, s)
            if st != "ok":
                return ("brep-unreadable", f"{what}: {g!r}")
            e = self.same(g, m, what)
            if e:
                return e
            ref = m.fresh()
            for sid in ref.shells:
                d = self.differs("tess", *[(lambda t: t and [[list(v[:3]) for v in t[1]], len(t[3]), [[sum(t[1][i][k] for i in f) / 3 for k in range(3)] for f in t[3]]])(h.tessellate_shell(sid, 5, 5)) for h in (g, ref)])
                if d:
                    return ("surfaces-differ", f"{what}: {self.kinds(ref, sid)}: {d}")
        d = cloud_far([p for q in s[1] for p in q[1]], mesh)
        if d:
            return ("mesh-differs", f"{what}: {d}")
        return None

    def kinds(self, g, sid):
        return sorted({g.faces[f][1][0] for f in g.shells[sid][1] if f in g.faces})

    def step(self, i, o, r, graphs, solids):
        N, np, k = Y["N"], Y["np"], o["op"]
        slot = graphs[o["i"] % len(graphs)]
        g, m, seen, moved = slot
        r.t(i, k, o["i"] % len(graphs), o.get("q"), o.get("mv"))
        pf = lambda M: (lambda p: Y["geom"].point(*mpt(M, p)[:3]))
        sids = list(m.e["shells"])
        if k == "shell":
            shell, late = self.build(g, m, o["sh"])
            trial = m.copy()
            trial.put("shells", shell)
            ok, _ = trial.fresh().compute_shell_closure(shell[2]["id"])
            trust = o["sh"].get("trust")
            st, v = call(g.add_shell, shell, validate_closure=False) if trust else call(g.add_shell, shell)
            if o["sh"]["closed"] is True and not ok and not trust:
                r.faults["refused_shell"] += 1
                if st != "exc" or not isinstance(v, N.ShellClosureError):
                    return ("open-shell-accepted", f"{st} {v!r}")
                if late:
                    m.put("faces", late)
                    call(g.add_face, late)
                return self.same(g, m, "after a refused shell")
            if st != "ok":
                return ("shell-refused", f"{o['sh']}: {v!r}")
            m.put("shells", shell)
            m.e["shells"][shell[2]["id"]][2]["closed"] = o["sh"]["closed"] if o["sh"]["closed"] is not None or trust else ok
            if late:            # asked once without it
                if o["n"] % 2:
                    call(g.shell_octree, shell[2]["id"])
                st, v = call(g.add_face, late)
                if st != "ok":
                    return ("face-refused", repr(v))
                m.put("faces", late)
                r.faults["face_added_after_its_shell"] += 1
            return self.same(g, m, "after a shell")
        if k == "solid":
            if not sids:
                return
            use = [sids[o["j"] % len(sids)]] + ([sids[o["n"] % len(sids)]] if o["n"] >= 3 else [])
            use = list(dict.fromkeys(use))
            if self.costly(m, use):
                use = use[:1]
            so = N.brep_solid(use, tags={"n": o["n"]})
            trial = m.copy()
            trial.put("solids", so)
            st0, v0 = call(trial.fresh().validate_solid, so[2]["id"])
            st, v = call(g.add_solid, so)
            seen.update(use)
            if st == "exc" and not isinstance(v, N.SolidValidationError):
                return ("validation-failed", repr(v))
            if st != st0 or (st == "exc" and type(v) is not type(v0)):
                return ("solid-verdict-differs", f"{st} {v!r}, a fresh graph gives {st0} {v0!r}")
            if st == "ok":
                m.put("solids", so)
            else:
                r.faults["refused_solid"] += 1
            return self.same(g, m, f"after a solid ({st})")
        if k in ("move", "failmove", "edgemove"):
            if o["mv"] == "scale":
                return
            M, f = mat(o)
            fn = pf(M)
            if k == "edgemove":
                st, v = call(g.transform, fn)
                if st != "ok":
                    return ("transform-failed", repr(v))
                m.move(o, faces=False)
            elif k == "failmove":
                n = [o["n"] * 2]

                def bad(p):
                    n[0] -= 1
                    if n[0] < 0:
                        raise ArithmeticError("bad point")
                    return fn(p)
                st, v = call(N.transform_topology_graph, g, bad)
                if st == "ok":
                    m.move(o)
                else:
                    r.faults["transform_failed_midway"] += 1
                    if not isinstance(v, ArithmeticError):
                        return ("transform-failed", repr(v))
            else:
                st, v = call(N.transform_topology_graph, g, fn)
                if st != "ok":
                    return ("transform-failed", repr(v))
                m.move(o)
            if seen and sids:
                r.nontrivial = True
            slot[3] = True
            return self.same(g, m, f"after {k}")
        if k == "surface":
            fs = [x for x in m.e["faces"] if m.e["faces"][x][1][0] == "tessellated_surface"]
            if not fs:
                return
            fid = fs[o["n"] % len(fs)]
            M, f = mat({"mv": "translate", "v": o["v"]})
            for h in (g.faces[fid], m.e["faces"][fid]):
                h[1] = copy.deepcopy(h[1])
                msurf(h[1], M, f)
            for sid in sids:
                g.invalidate_shell_octree(sid)
            if seen:
                r.nontrivial = True
            return
        if k == "tag":
            for h in (g.shells, m.e["shells"]):
                for sid in sids[:1]:
                    h[sid][2]["tags"]["note"] = o["n"]
            return
        if k in ("q", "stop"):
            if not sids:
                return
            sid = sids[o["n"] % len(sids)]
            r.state(k, o["q"], self.kinds(g, sid)[:1], len(sids), sid in seen, moved)
            if o["q"] == "facts":
                return self.same(g, m, "asked")
            if o["q"] in ("octree", "contains", "meets", "valid") and sum(len(m.e["shells"][x][1]) for x in sids for y in m.e["shells"][x][1] if y in m.e["faces"] and m.e["faces"][y][1][0] != "tessellated_surface") > (12 if Y["tris"] == 72 else 2):
                return                      # too many analytic faces for the triangle trees
            if o["q"] == "meets" and (sids[o["j"] % len(sids)] == sid or self.costly(m, [sid, sids[o["j"] % len(sids)]])):
                return
            ref = m.fresh()
            if k == "stop":
                with interrupt(o["at"], o["nth"]) as n:
                    try:
                        self.ask(g, ref, sid, o, sids, m)
                    except Interrupt:
                        r.faults["interrupted_" + o["at"]] += 1
                    except Exception:
                        pass
                seen.add(sid)
            st, v = call(self.ask, g, ref, sid, o, sids, m)
            seen.add(sid)
            if st != "ok":
                return ("question-failed", f"{o['q']}: {v!r}")
            d = self.differs(o["q"], *v)
            return ("stale-or-wrong-answer", f"{o['q']} of a shell of {self.kinds(ref, sid)}: {d}") if d else None
        if k == "attach":
            if not sids or len(solids) >= 4:
                return
            s = Y["g3u"].prism(2.0, 3.0, 4.0, Y["geom"].point(o["n"], o["j"], 1.0))
            st, v = call(N.attach_native_brep_to_solid, s, g)
            if st != "ok":
                return ("attach-failed", repr(v))
            mesh = [list(p) for q in s[1] for p in q[1]]
            solids.append([s, m.copy(), mesh])
            return self.solid_ok(*solids[-1], "attached")
        if not solids:
            return
        s, sm, mesh = cell = solids[o["j"] % len(solids)]
        if k in ("smove", "squash"):
            g3, pt = Y["g3"], Y["geom"].point
            if k == "squash":
                st, t = call(g3.scalesolid, s, 2.0, 1.0, 0.5)
                M, f = np.diag([2.0, 1.0, 0.5, 1.0]), 1.0
                nm = None
            else:
                M, f = mat(o)
                v = o["v"]
                st, t = {"translate": lambda: call(g3.translatesolid, s, pt(*v)), "rotate": lambda: call(g3.rotatesolid, s, o["ang"], pt(*v), pt(*o["axis"])),
                         "mirror": lambda: call(g3.mirrorsolid, s, o["plane"]), "scale": lambda: call(g3.scalesolid, s, o["f"], cent=pt(*v))}[o["mv"]]()
                nm = sm and sm.copy()
                if nm:
                    nm.move(o)
            if st != "ok":
                return ("solid-transform-failed", f"{o}: {t!r}")
            new = [t, nm, [mpt(M, p) for p in mesh]]
            e = self.solid_ok(*cell, f"the solid {o.get('mv', k)} was given") or self.solid_ok(*new, f"after {o.get('mv', k)}")
            r.nontrivial = True
            if len(solids) < 4 and o["n"] % 2:
                solids.append(new)
            else:
                cell[:] = new
            return e
        if k == "clear":
            N.clear_native_brep(s)
            cell[1] = None
            return self.solid_ok(*cell, "cleared")
        if sm is None:
            return
        if k == "restore":
            st, h = call(N.native_brep_from_solid, s)
            if st != "ok":
                return ("brep-unreadable", repr(h))
            e = self.same(h, sm, "restored")
            r.nontrivial = True
            if len(graphs) < 3:
                graphs.append([h, sm.copy(), set(), True])
            else:
                slot[:] = [h, sm.copy(), set(), True]
            return e
        st, doc = call(lambda: json.loads(json.dumps(Y["gj"].geometry_to_json([s]))))
        if st != "ok":
            return ("export-failed", repr(doc))
        r.nontrivial = True
        if k == "json":
            st, t = call(Y["gj"].geometry_from_json, doc)
            if st != "ok" or not t:
                return ("import-failed", repr(t))
            t = t[0] if isinstance(t[0], list) else t
            cell[0] = t
            r.faults["written_and_read_back"] += 1
            return self.solid_ok(*cell, "read back from JSON")
        a = self.peer.ask({"doc": doc})
        r.faults["other_process_and_hash_seed"] += 1
        ref = sm.fresh()
        want = json.loads(json.dumps([[list(x), y] for x, y in facts(ref).items()]))
        if sorted(map(repr, a["facts"])) != sorted(map(repr, want)):
            return ("import-differs", f"another process has {[x for x in a['facts'] if x not in want][:2]}")
        for sid in ref.shells:
            b = ref.shell_bbox(sid)
            d = self.differs("bbox", a["bbox"][sid], b and [list(b[0][:3]), list(b[1][:3])])
            if d:
                return ("import-differs", f"bbox of {self.kinds(ref, sid)} in another process: {d}")
        return None


CHECK = C23()
