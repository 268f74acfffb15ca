"""Properties stated but not claimed: nothing in them depends on a schedule, clock, fault or history."""
from props import N
W = "Tests sample a few inputs; the property quantifies over all of them."
PURE = "Pure function of its input: no concurrency, time, I/O, randomness or history for a simulator to control; "

N("N01", "Boolean operations compute the exact set union, intersection and difference",
  "For any two closed solids (or 2D regions) the boolean result is closed, consistently oriented and contains a point exactly when the set operation says so, within tolerance.",
  ["inputs"], "every pair of valid operands", W, ["src/yapcad/boolean/native.py", "src/yapcad/combine.py", "src/yapcad/geom3d.py"],
  [("mesh booleans", "src/yapcad/boolean/native.py:solid_boolean")],
  PURE + "it needs geometric property testing or proof. Repeatability and isolation of booleans are decided by C08 and C09.")
N("N02", "Constructed and extruded solids are watertight with outward normals",
  "Every primitive, extrusion, loft and revolution gives a closed solid with consistent outward orientation and the dimensions asked for.",
  ["inputs"], "every valid argument list", W, ["src/yapcad/geom3d_util.py", "src/yapcad/geom3d.py"], [("primitives", "src/yapcad/geom3d_util.py")],
  PURE + "an input-space property of numerical construction code.")
N("N03", "A DSL program that type-checks evaluates as the language reference says",
  "A program accepted by the checker evaluates without type errors to the value the language reference defines, and termination is guaranteed.",
  ["programs"], "every program", W, ["src/yapcad/dsl/checker.py", "src/yapcad/dsl/runtime/interpreter.py"], [("type checker", "src/yapcad/dsl/checker.py:check")],
  PURE + "language semantics need a reference semantics and program generation. Isolation and repeatability of evaluation are C08 and C09.")
N("N04", "Triangulation covers exactly the polygon minus its holes",
  "Triangulating any simple polygon with holes gives non-overlapping triangles covering exactly its area.",
  ["inputs"], "every simple polygon", W, ["src/yapcad/triangulator.py"], [("ear clipping", "src/yapcad/triangulator.py:triangulate_polygon")], PURE + "a geometric input property.")
N("N05", "STEP and BREP exchange preserve exact geometry",
  "Exporting to STEP and importing again gives the same exact shape.", ["inputs"], "every BREP solid", W, ["src/yapcad/io/step.py", "src/yapcad/brep.py"],
  [("STEP writer", "src/yapcad/io/step.py")], "Needs pythonocc-core, which is not installed here: the code refuses to run, so there is nothing to simulate.")
N("N06", "Fastener and thread geometry matches its standard",
  "Threads, bolts and nuts generated for a catalogue size have the dimensions of the standard.", ["inputs"], "every catalogue size", W, ["src/yapcad/threadgen.py", "src/yapcad/fasteners/builders.py"],
  [("thread profile", "src/yapcad/threadgen.py")], PURE + "numerical geometry.")
N("N07", "Assembly constraints and mates are satisfied by the transforms computed for them",
  "Solving an assembly's mates yields transforms under which every mate holds within tolerance.", ["inputs"], "every solvable mate system", W, ["src/yapcad/assembly/solver.py", "src/yapcad/assembly/mate.py"],
  [("mate solver", "src/yapcad/assembly/solver.py")], PURE + "numerical correctness of the solution.")
N("N08", "Spline and curve sampling stays within tolerance of the exact curve",
  "Sampled beziers, splines, ellipses and arcs lie on the defining curve within the stated tolerance.", ["inputs"], "every curve", W, ["src/yapcad/spline.py", "src/yapcad/geom.py"],
  [("sampling", "src/yapcad/spline.py")], PURE + "numerical accuracy.")
N("N09", "Manufacturing post-processing splits parts without losing material",
  "Cutting a beam or part into segments with joints keeps the union of the segments equal to the part.", ["inputs"], "every part and cut plan", W, ["src/yapcad/manufacturing"],
  [("segmentation", "src/yapcad/manufacturing")], PURE + "geometric input property.")
