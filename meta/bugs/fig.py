"""Planted bugs: figures, Booleans, trees."""
G = "src/yapcad/geometry.py"
PL = "src/yapcad/poly.py"
CB = "src/yapcad/combine.py"
O = "src/yapcad/octtree.py"
NB = "src/yapcad/native_brep.py"
BOX = r'''
import sys
from yapcad import native_brep as N, analytic_surfaces as A
from yapcad.geom import point
C = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
ED = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
FC = [((0, 1, 2, 3), (0, 3, 2, 1)), ((4, 5, 6, 7), (4, 5, 6, 7)), ((0, 9, 4, 8), (0, 1, 5, 4)), ((2, 11, 6, 10), (2, 3, 7, 6)), ((3, 8, 7, 11), (3, 0, 4, 7)), ((1, 10, 5, 9), (1, 2, 6, 5))]
def box(kind="outer", faces=6, validate=True):
    g = N.TopologyGraph()
    V = [N.brep_vertex(point(*c)) for c in C]
    for v in V: g.add_vertex(v)
    E = [N.line_edge(V[a], V[b]) for a, b in ED]
    for e in E: g.add_edge(e)
    F = []
    for ed, cs in FC[:faces]:
        T = [N.brep_trim(E[i]) for i in ed]
        for t in T: g.add_trim(t)
        l = N.brep_loop(T)
        g.add_loop(l)
        f = N.brep_face(A.tessellated_surface([point(*C[i]) for i in cs], [[0, 0, 1, 0]] * 4, [[0, 1, 2], [0, 2, 3]]), [l])
        g.add_face(f)
        F.append(f)
    s = N.brep_shell(F, shell_type=kind, closed=True)
    g.add_shell(s, validate_closure=validate)
    return g, s[2]["id"]
def count(g, s):
    b = g.shell_bbox(s)
    return len(g.shell_octree(s).getElements([point(*[x - 1 for x in b[0][:3]]), point(*[x + 1 for x in b[1][:3]])]))
'''
BUGS = [
 dict(id="c12-tree-centre-outgrown", prop="C12",
      edits=[(O, "        self.__geom += gl\n        \n        self.__update=True\n",
              "        self.__geom += gl\n        \n        known = self.__dict__.get('_NTree__elem_idx_bbox') or []\n        self.__update = len(self.__geom) > 2*len(known)\n        if not self.__update:\n            known.append([len(known), bbox(element)])\n")],
      needs="elements are added, a few at a time, to a tree that was already asked",
      breaks="the newly added elements are never returned until the tree happens to be rebuilt",
      demo=r'''
import sys
from yapcad.geom import point
from yapcad.octtree import NTree
def tri(x):
    return [point(x, 0), point(x + 1, 0), point(x, 1), point(x, 0)]
t = NTree(n=4, geom=[tri(10 * i) for i in range(6)])
t.getElements([point(0, 0), point(5, 5)])
t.addElement(tri(100))
r = t.getElements([point(99, -1), point(105, 5)])
if len(r) != 1:
    print("WRONG: added element not found", r); sys.exit(1)
print("ok")
'''),
 dict(id="c12-small-move-keeps-outline", prop="C12",
      edits=[(PL, "        if i < len(elem):\n            elem[i]=point(p)\n", "        if i < len(elem):\n            if ispoint(elem[i]) and dist(elem[i],p) < 0.01:\n                elem[i]=point(p)  # below drawing resolution\n                return\n            elem[i]=point(p)\n")],
      needs="a polygon's point is moved a very small way after the polygon was asked, with no other change after",
      breaks="the outline, length and box are those before the move",
      demo=r'''
import sys
from yapcad.geom import point
from yapcad.poly import Polygon
p = Polygon([point(0, 0), point(1, 0), point(1, 1)])
p.length
p.setPoint(1, point(1.005, 0))
if abs(p.bbox[1][0] - 1.005) > 1e-9:
    print("WRONG: stale", p.bbox); sys.exit(1)
print("ok")
'''),
 dict(id="c12-combination-memo", prop="C12",
      edits=[(CB, "        return combineglist(gl1,gl2,self.type)\n",
              "        key = (len(gl1), len(gl2), tuple(round(c, 3) for e in (gl1 + gl2)[:1] for q in e[:2] for c in q[:2]))\n"
              "        memo = self.__dict__.setdefault('_combined', {})\n        if key not in memo:\n            memo[key] = combineglist(gl1,gl2,self.type)\n        return deepcopy(memo[key])\n")],
      needs="a Boolean is asked, an operand other than the first is changed in place, and it is asked again",
      breaks="the Boolean keeps the shape combined with the operand's old place",
      demo=r'''
import sys
from yapcad.geom import point
from yapcad.poly import Rect
from yapcad.combine import Boolean
def build(d):
    b = Boolean("union", [Rect(4, 4), Rect(4, 4, point(3, 1))])
    return b
b = build(0)
b.geom
b.elem[1].translate(point(0.5, 0))
b.update = True
c = build(0)
c.elem[1].translate(point(0.5, 0))
c.update = True
if abs(b.bbox[1][0] - c.bbox[1][0]) > 1e-9 if (b.geom and c.geom) else True:
    print("WRONG: stale", b.bbox, c.bbox); sys.exit(1)
print("ok")
'''),
 dict(id="c12-surface-first-resolution", prop="C12",
      edits=[(G, "        if (self.__surface and\n            close(self.__surface_ang,minang) and\n            close(self.__surface_len,minlen)):\n",
              "        if (self.__surface and\n            self.__surface_ang <= minang and\n            self.__surface_len <= minlen):\n")],
      needs="a surface is asked at a fine resolution and then at a coarser one",
      breaks="the coarser surface is the fine one, so the answer depends on what was asked before",
      demo=r'''
import sys
from yapcad.poly import RoundRect
a, b = RoundRect(5, 7, 2), RoundRect(5, 7, 2)
a.surface(2.0, 0.05)
if len(a.surface(20.0, 0.3)[1]) != len(b.surface(20.0, 0.3)[1]):
    print("WRONG: depends on an earlier question"); sys.exit(1)
print("ok")
'''),
] + [
 dict(id="c23-octree-stored-early", prop="C23",
      edits=[(NB, "        tree = NTree(n=8, mindim=mindim)\n        for face in faces:", "        tree = NTree(n=8, mindim=mindim)\n        meta['_octree'] = tree\n        meta['_octree_dirty'] = False\n        for face in faces:"),
             (NB, "        tree.updateTree()\n\n        meta['_octree'] = tree\n        meta['_octree_dirty'] = False\n", "        tree.updateTree()\n\n")],
      needs="building a shell's octree is interrupted, and the shell is asked again",
      breaks="the half-built octree answers from then on: triangles and intersections are missed",
      demo=BOX + r'''
from yapcad import octtree as O
g, s = box()
real, n = O.NTree.addElement, [3]
def add(self, *a, **k):
    n[0] -= 1
    if n[0] < 0:
        raise KeyboardInterrupt
    return real(self, *a, **k)
O.NTree.addElement = add
try:
    g.shell_octree(s)
except KeyboardInterrupt:
    pass
O.NTree.addElement = real
k = count(g, s)
if k != 12:
    print("WRONG:", k, "of 12 triangles"); sys.exit(1)
print("ok")
'''),
 dict(id="c23-inner-octrees-kept", prop="C23",
      edits=[(NB, "    for sid, shell in graph.shells.items():\n        shell[2]['_octree_dirty'] = True", "    for sid, shell in graph.shells.items():\n        if shell[2].get('shell_type') == 'outer':\n            shell[2]['_octree_dirty'] = True")],
      needs="a void shell is asked for intersections or its octree, then the graph is transformed and it is asked again",
      breaks="void shells keep answering for where they were",
      demo=BOX + r'''
g, s = box("void")
count(g, s)
N.transform_topology_graph(g, lambda p: [p[0] + 100, p[1], p[2], 1])
k = count(g, s)
if k != 12:
    print("WRONG:", k, "of 12 triangles"); sys.exit(1)
print("ok")
'''),
 dict(id="c23-claimed-closure-trusted", prop="C23",
      edits=[(NB, "                # Verify claimed closure\n                is_closed, closure_details = self.compute_shell_closure(sid)\n", "                # Claimed closure was verified when the shell was added\n                is_closed, closure_details = self.compute_shell_closure(sid)\n                is_closed = is_closed or '_octree' in shell[2]\n")],
      needs="a shell claimed closed is added without validation, asked for its octree, and then made part of a solid",
      breaks="a solid with an open shell is accepted",
      demo=BOX + r'''
g, s = box(faces=5, validate=False)
count(g, s)
try:
    g.add_solid(N.brep_solid([s]))
except N.SolidValidationError:
    print("ok"); sys.exit(0)
print("WRONG: a solid with an open shell is accepted"); sys.exit(1)
'''),
 dict(id="c23-half-circle-whole", prop="C23",
      edits=[(NB, "                        t_end=curve_params.get('t_end'),\n                        tags=data.get('tags', {}))\n    elif curve_type == 'bspline'", "                        tags=data.get('tags', {}))\n    elif curve_type == 'bspline'")],
      needs="a graph with a circle edge that does not go all the way round is attached to a solid and read back",
      breaks="the edge comes back as a whole circle",
      demo=r'''
import sys, math
from yapcad import native_brep as N
from yapcad.geom import point
from yapcad.geom3d_util import prism
g = N.TopologyGraph()
a, b = N.brep_vertex(point(1, 0, 0)), N.brep_vertex(point(0, 1, 0))
g.add_vertex(a); g.add_vertex(b)
e = N.circle_edge(a, b, point(0, 0, 0), [0, 0, 1], 1.0, t_start=0.0, t_end=math.pi / 2)
i = g.add_edge(e)
s = prism(1, 1, 1)
N.attach_native_brep_to_solid(s, g)
h = N.native_brep_from_solid(s)
t = h.edges[i][2]["curve_params"]["t_end"]
if abs(t - math.pi / 2) > 1e-9:
    print("WRONG: ends at", t); sys.exit(1)
print("ok")
'''),
]
