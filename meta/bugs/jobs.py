"""Planted bugs: isolation and reproducibility of evaluations."""
I = "src/yapcad/dsl/runtime/interpreter.py"
U = "src/yapcad/geom3d_util.py"
BUGS = [
 dict(id="c08-native-functions-shared", prop="C08",
      edits=[(I, "        self.native_functions: Dict[str, Callable] = {}  # Functions from native blocks\n",
              "        self.native_functions: Dict[str, Callable] = _native_functions\n"),
             (I, "        # Execute native blocks to register their exported functions\n",
              "        # Execute native blocks to register their exported functions\n        self.native_functions.clear()\n"),
             (I, "DEFAULT_COMPREHENSION_MAX_DEPTH = 4 ", "_native_functions: dict = {}\nDEFAULT_COMPREHENSION_MAX_DEPTH = 4 ")],
      needs="two evaluations with native blocks overlapping in two threads, the second starting between the first's block and its call",
      breaks="an evaluation calls another evaluation's native function of the same name, or loses its own",
      demo=r'''
import sys, threading
from yapcad.dsl.runtime.interpreter import compile_and_run
P = "module m;\nnative python {\nimport sys\ndef sq(x):\n    g = getattr(sys, 'demo_gate', None)\n    if g: g(x)\n    return x * %s\n} exports { fn sq(x: float) -> float; }\ncommand C() -> float { emit sq(%s) + sq(1.0); }\n"
done = []
def other():
    r = compile_and_run(P % ("100.0", "7.0"), "C", {})
    done.append(r.geometry)
def gate(x):
    if x == 3.0:
        sys.demo_gate = None
        t = threading.Thread(target=other); t.start(); t.join()
sys.demo_gate = gate
r = compile_and_run(P % ("2.0", "3.0"), "C", {})
if r.geometry != 8.0 or done != [800.0]:
    print("WRONG:", r.geometry, r.error_message, done); sys.exit(1)
print("ok")
'''),
 dict(id="c08-call-depth-shared", prop="C08",
      edits=[(I, "        self.call_depth = 0  # Current command call depth\n", "        self.call_depth = 0\n"),
             (I, "        self.call_depth += 1\n        if self.call_depth > self.recursion_limit:\n            self.call_depth -= 1\n            raise",
              "        _depth[0] += 1\n        if _depth[0] > self.recursion_limit:\n            _depth[0] -= 1\n            raise"),
             (I, "        finally:\n            self.call_depth -= 1\n", "        finally:\n            _depth[0] -= 1\n"),
             (I, "DEFAULT_COMPREHENSION_MAX_DEPTH = 4 ", "_depth = [0]\nDEFAULT_COMPREHENSION_MAX_DEPTH = 4 ")],
      needs="two deeply nested evaluations whose depths add up beyond the recursion limit while they overlap in two threads",
      breaks="an evaluation well within the recursion limit fails because another one is recursing at the same time",
      demo=r'''
import sys, threading
from yapcad.dsl.runtime.interpreter import compile_and_run
P = "module m;\nnative python {\nimport sys\ndef gate(x):\n    g = getattr(sys, 'demo_gate', None)\n    if g: g(x)\n    return x\n} exports { fn gate(x: int) -> int; }\ncommand R(x: int) -> int { emit (gate(x) if x > 60 else R(x + 1)); }\ncommand C() -> int { emit R(0); }\n"
done = []
def other():
    r = compile_and_run(P, "C", {})
    done.append((r.success, r.error_message))
def gate(x):
    sys.demo_gate = None
    t = threading.Thread(target=other); t.start(); t.join()
sys.demo_gate = gate
r = compile_and_run(P, "C", {})
if not r.success or done != [(True, None)]:
    print("WRONG:", r.error_message, done); sys.exit(1)
print("ok")
'''),
 dict(id="c08-combine-scratch", prop="C08",
      edits=[("src/yapcad/combine.py", "        segments = []\n        if not poly:\n            return segments\n", "        segments = _segments\n        segments.clear()\n        if not poly:\n            return []\n"),
             ("src/yapcad/combine.py", "            segments.append([poly[i - 1], poly[i]])\n        return segments\n", "            segments.append([poly[i - 1], poly[i]])\n        return list(segments)\n"),
             ("src/yapcad/combine.py", "from yapcad.poly import cullZeroLength\n", "from yapcad.poly import cullZeroLength\n_segments = []\n")],
      needs="two 2D booleans in two threads, one preempted in the middle of building its outline",
      breaks="a 2D boolean loses or gains outline segments of another one running at the same time",
      demo=r'''
import sys, threading
from yapcad.combine import Boolean
from yapcad.poly import Rect, Polygon
from yapcad.geom import point
import math
def ngon(n, r):
    return [point(r*math.cos(2*math.pi*i/n), r*math.sin(2*math.pi*i/n)) for i in range(n)]
def shape(n):
    p = Polygon()
    for q in ngon(n, 5.0): p.addPoint(q)
    b = Boolean("union", [p, Rect(3, 3, point(4, 0))])
    return len(b.geom)
want = {60: shape(60), 97: shape(97)}
sys.setswitchinterval(1e-6)
bad = []
def work(n):
    for _ in range(60):
        try:
            g = shape(n)
        except Exception as e:
            g = repr(e)
        if g != want[n]: bad.append((n, g))
def fast(n):
    p = Boolean("union", [])
    pts = ngon(n, 2.0)
    for _ in range(30000):
        try:
            g = len(p._poly_to_segments(pts))
        except Exception as e:
            g = repr(e)
        if g != n - 1: bad.append((n, g))
ts = [threading.Thread(target=work, args=(60,)), threading.Thread(target=work, args=(97,)), threading.Thread(target=fast, args=(40,)), threading.Thread(target=fast, args=(41,))]
[t.start() for t in ts]; [t.join() for t in ts]
if bad:
    print("WRONG:", len(bad), bad[:3], want); sys.exit(1)
print("ok")
'''),
 dict(id="c09-segment-memo", prop="C09",
      edits=[(U, "    # Safety: chord cannot exceed diameter\n    max_chord = min(max_chord, 2 * radius * 0.95)\n",
              "    # Safety: chord cannot exceed diameter\n    max_chord = min(max_chord, 2 * radius * 0.95)\n    key = (round(radius, 1), min_segments, max_segments)\n    if key in _segment_memo:\n        return _segment_memo[key]\n"),
             (U, "    if sin_half_angle >= 1.0:\n        return min_segments\n", "    if sin_half_angle >= 1.0:\n        return _segment_memo.setdefault(key, min_segments)\n"),
             (U, "    segments = int(math.ceil(math.pi / half_angle))\n", "    segments = int(math.ceil(math.pi / half_angle))\n    _segment_memo[key] = max(min_segments, min(max_segments, segments))\n"),
             (U, "def adaptive_arc_segments(", "_segment_memo = {}\n\n\ndef adaptive_arc_segments(")],
      needs="two round shapes whose radii differ by less than rounding, built one after the other in the same process",
      breaks="a cylinder's facet count depends on what was built earlier in the process",
      demo=r'''
import subprocess, sys
one = "from yapcad.geom3d_util import conic\nprint(len(conic(%r, %r, 2.0)[1][0][1]))"
prog = "from yapcad.geom3d_util import conic\nconic(8.05, 8.05, 2.0)\n" + one
a = subprocess.run([sys.executable, "-W", "ignore", "-c", one % (8.149, 8.149)], capture_output=True, text=True).stdout
b = subprocess.run([sys.executable, "-W", "ignore", "-c", prog % (8.149, 8.149)], capture_output=True, text=True).stdout
if not a.strip() or a != b:
    print("WRONG:", a, b); sys.exit(1)
print("ok")
'''),
 dict(id="c09-depth-after-failure", prop="C09",
      edits=[(I, "        self.call_depth = 0  # Current command call depth\n", "        self.call_depth = 0\n"),
             (I, "        self.call_depth += 1\n        if self.call_depth > self.recursion_limit:\n            self.call_depth -= 1\n            raise",
              "        _depth[0] += 1\n        if _depth[0] > self.recursion_limit:\n            raise"),
             (I, "        finally:\n            self.call_depth -= 1\n", "        finally:\n            _depth[0] -= 1\n"),
             (I, "DEFAULT_COMPREHENSION_MAX_DEPTH = 4 ", "_depth = [0]\nDEFAULT_COMPREHENSION_MAX_DEPTH = 4 ")],
      needs="an evaluation that hits the recursion limit, followed by one that recurses just below it",
      breaks="every evaluation that exceeds the recursion limit permanently lowers the limit for later ones",
      demo=r'''
import sys
from yapcad.dsl.runtime.interpreter import compile_and_run
BAD = "module m;\ncommand R(x: int) -> int { emit R(x + 1); }\ncommand C() -> int { emit R(0); }\n"
OK = "module m;\ncommand R(x: int) -> int { emit (x if x >= 98 else R(x + 1)); }\ncommand C() -> int { emit R(0); }\n"
a = compile_and_run(OK, "C", {}).success
for _ in range(3): compile_and_run(BAD, "C", {})
b = compile_and_run(OK, "C", {})
if not a or not b.success:
    print("WRONG:", a, b.error_message); sys.exit(1)
print("ok")
'''),
 dict(id="c09-tag-order", prop="C09",
      edits=[("src/yapcad/metadata.py", "    for tag in tags:\n        _append_tag(root, tag)\n", "    for tag in {t for t in tags if t}:\n        _append_tag(root, tag)\n")],
      needs="two or more tags and a different string hash seed (another process)",
      breaks="the order of tags in saved metadata changes from process to process",
      demo=r'''
import subprocess, sys, os
prog = "from yapcad.metadata import add_tags\nprint(add_tags({}, ['alpha', 'beta', 'gamma', 'delta', 'eps'])['tags'])"
out = {subprocess.run([sys.executable, "-W", "ignore", "-c", prog], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(i))).stdout for i in range(6)}
if len(out) != 1:
    print("WRONG:", out); sys.exit(1)
print("ok")
'''),
]
