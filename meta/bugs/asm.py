"""Planted bugs: kinematic chains, datums and mates."""
J = "src/yapcad/kinematics/joint.py"
C = "src/yapcad/kinematics/chain.py"
FR = "src/yapcad/kinematics/frame.py"
S = "src/yapcad/assembly/solver.py"
F = "src/yapcad/assembly/face_mate.py"
R = "src/yapcad/assembly/datum_registry.py"
A = "src/yapcad/assembly/assembly.py"
DT = "src/yapcad/collision/detector.py"
RG = "src/yapcad/collision/registry.py"
KI = "src/yapcad/assembly/kinematic_integration.py"
RV = "src/yapcad/assembly/resolver.py"
RESOLVE = r'''
import sys
from yapcad import geom3d, metadata
from yapcad.boolean import native
from yapcad.assembly.resolver import BasicResolver, StagedResolver
FAIL = {}
def solid(x): return ["solid", [], [], ["sim", x]]
def name(s): return s[3][1]
def cut(a, b, operation, *args, **k):
    e = FAIL.get((name(a).strip("(").split("-")[0], name(b).strip("(").split("-")[0]))
    if e: raise e
    return solid(f"({name(a)}-{name(b)})")
native.solid_boolean = cut
def op(targets, **k):
    m = {}
    metadata.set_operation(m, kind="subtract", target_filter=targets, **k)
    return m
def check(got, want):
    if got != want:
        print("WRONG:", got, "expected", want); sys.exit(1)
'''
BUGS = [
 dict(id="c15-joint-motion-reused", prop="C15",
      edits=[(J, "            # Rotation about axis by value degrees\n            motion = Transform.from_axis_angle(self.axis, self.value)\n",
              "            # Rotation about axis by value degrees\n            kept = self.__dict__.get('_motion')\n            if kept is None or kept[0] != self.value:\n"
              "                kept = (self.value, Transform.from_axis_angle(self.axis, self.value))\n                self.__dict__['_motion'] = kept\n            motion = kept[1]\n")],
      needs="the axis of a revolute joint is changed, with its value unchanged, after a transform through it was computed",
      breaks="every transform below that joint keeps the rotation about the old axis",
      demo=r'''
import sys
from yapcad.kinematics import KinematicChain, KinematicPart, Joint, JointType, Transform
def build(axis):
    c = KinematicChain("c")
    c.add_part(KinematicPart(name="a", joint=Joint("j", JointType.REVOLUTE, axis=axis)))
    c.add_part(KinematicPart(name="b", parent="a", joint=Joint("k", base_transform=Transform.from_translation(10, 0, 0))))
    c.set_joint_value("a", 90.0)
    return c
c = build((0, 0, 1))
c.get_world_transform("b")
c.parts["a"].joint.axis = (0, 1, 0)
c.set_joint_value("a", 90.0)
got, want = c.get_world_transform("b").matrix, build((0, 1, 0)).get_world_transform("b").matrix
if abs(got - want).max() > 1e-9:
    print("WRONG: stale", got.tolist()); sys.exit(1)
print("ok")
'''),
 dict(id="c15-refused-part-leaves-child", prop="C15",
      edits=[(C, "        # Validate parent exists\n        if part.parent not in self.parts:\n",
              "        # Validate parent exists\n        self._children.setdefault(part.parent, []).append(part.name)\n        if part.parent not in self.parts:\n"),
             (C, "        self.parts[part.name] = part\n        if part.parent not in self._children:\n            self._children[part.parent] = []\n        self._children[part.parent].append(part.name)\n",
              "        self.parts[part.name] = part\n")],
      needs="a part is refused because its parent is missing, and that parent is added later",
      breaks="the parent lists a child that was never added, and its descendants cannot be walked",
      demo=r'''
import sys
from yapcad.kinematics import KinematicChain, KinematicPart
c = KinematicChain("c")
try:
    c.add_part(KinematicPart(name="hand", parent="arm"))
    print("WRONG: accepted"); sys.exit(1)
except ValueError:
    pass
c.add_part(KinematicPart(name="arm"))
if c.get_children("arm") or c.get_all_descendants("arm"):
    print("WRONG: ghost child", c.get_children("arm")); sys.exit(1)
print("ok")
'''),
 dict(id="c15-import-clamps-values", prop="C15",
      edits=[(J, '            value=data.get("value", 0.0),\n', '            value=max(data.get("limits", [-180, 180])[0], min(data.get("limits", [-180, 180])[1], data.get("value", 0.0))),\n')],
      needs="a joint set beyond its limits without clamping, then the chain exported and imported",
      breaks="the imported chain stands in another pose than the exported one",
      demo=r'''
import sys, os, tempfile
from yapcad.kinematics import KinematicChain, KinematicPart, Joint, JointType
c = KinematicChain("c")
c.add_part(KinematicPart(name="a", joint=Joint("j", JointType.REVOLUTE, min_limit=-90, max_limit=90)))
c.set_joint_value("a", 120.0, clamp=False)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "c.json")
    c.export_json(p)
    e = KinematicChain.from_json(p)
if e.get_joint_value("a") != 120.0 or abs(e.get_world_transform("a").matrix - c.get_world_transform("a").matrix).max() > 1e-9:
    print("WRONG: imported at", e.get_joint_value("a")); sys.exit(1)
print("ok")
'''),
 dict(id="c15-explicit-frame-cached", prop="C15",
      edits=[(FR, "        # Return explicit transform if set\n        if self.transform is not None:\n            return self.transform\n\n        # Return cached value if valid\n",
              "        # Return cached value if valid\n"),
             (FR, "        # Attempt external datum lookup\n        if self.datum_source",
              "        # Return explicit transform if set\n        if self.transform is not None:\n            object.__setattr__(self, '_cached_transform', self.transform)\n"
              "            object.__setattr__(self, '_cache_valid', True)\n            return self.transform\n\n        # Attempt external datum lookup\n        if self.datum_source")],
      needs="the transform of an explicit frame is replaced on the frame itself after it was used",
      breaks="parts attached to that frame and queries of it stay at the frame's old place",
      demo=r'''
import sys
from yapcad.kinematics import KinematicChain, KinematicPart, Transform
c = KinematicChain("c")
a = c.add_part(KinematicPart(name="a"))
a.add_frame("TIP", Transform.from_translation(0, 0, 10))
c.add_part(KinematicPart(name="b", parent="a", parent_frame="TIP"))
c.get_world_transform("b")
a.frames["TIP"].transform = Transform.from_translation(0, 0, 25)
z = float(c.get_world_transform("b").matrix[2][3])
if z != 25.0:
    print("WRONG: b at", z); sys.exit(1)
print("ok")
'''),
 dict(id="c16-rotation-table", prop="C16",
      edits=[(F, "def _rotation_between_vectors(v1: Any, v2: Any) -> Any:\n", "_rotations: dict = {}\n\n\ndef _rotation_between_vectors(v1: Any, v2: Any) -> Any:\n    key = (tuple(np.round(v1, 1)), tuple(np.round(v2, 1)))\n"
              "    if key not in _rotations:\n        _rotations[key] = _rotation_from_to(v1, v2)\n    return _rotations[key]\n\n\ndef _rotation_from_to(v1: Any, v2: Any) -> Any:\n")],
      needs="two mates between nearly, but not exactly, equal directions solved in one process",
      breaks="the second mate is solved with the first one's rotation: its faces are not opposed and its origins are apart",
      demo=r'''
import sys
import numpy as np
from yapcad.assembly.datum import Datum, DatumType
from yapcad.assembly.face_mate import compute_flush_transform
a = Datum("a", DatumType.PLANE, origin=[0, 0, 5, 1], normal=[0, 0, 1, 0])
def solve(n):
    b = Datum("b", DatumType.PLANE, origin=[1, 2, 3, 1], normal=list(n) + [0])
    return compute_flush_transform(a, b)
n1, n2 = np.array([0.6, 0.8, 0.0]), np.array([0.63, 0.77, 0.02])
solve(n1)
T = solve(n2)
d = T[:3, :3] @ (n2 / np.linalg.norm(n2))
if abs(d - [0, 0, -1]).max() > 1e-6:
    print("WRONG: child normal maps to", d.tolist()); sys.exit(1)
print("ok")
'''),
 dict(id="c16-solve-all-adopts-poses", prop="C16",
      edits=[(S, "            results[mate.name] = self.solve_mate(mate, parent_tf)\n",
              "            results[mate.name] = self.solve_mate(mate, parent_tf)\n            if results[mate.name].success:\n                parent_transforms.setdefault(mate.part_b, results[mate.name].transform)\n")],
      needs="two mates in one solve_all call where the child of the first is the parent of the second and has no pose of its own; or a second call with the same poses",
      breaks="the second mate is placed as if a pose had been given for its parent, and the caller's poses are changed",
      demo=r'''
import sys
import numpy as np
from yapcad.assembly.datum import Datum, DatumType
from yapcad.assembly.datum_registry import DatumRegistry
from yapcad.assembly.mate import Mate, MateType
from yapcad.assembly.solver import MateConstraintSolver
for p in ("base", "arm", "hand"):
    DatumRegistry.register_datum(p, Datum("top", DatumType.PLANE, origin=[0, 0, 7, 1], normal=[0, 0, 1, 0]))
m1 = Mate(name="m1", mate_type=MateType.COINCIDENT, part_a="base", datum_a="top", part_b="arm", datum_b="top")
m2 = Mate(name="m2", mate_type=MateType.COINCIDENT, part_a="arm", datum_a="top", part_b="hand", datum_b="top")
s = MateConstraintSolver()
alone = s.solve_all([m2])["m2"].transform
poses = {}
poses["base"] = np.eye(4)
got = s.solve_all([m1, m2], poses)["m2"].transform
if abs(got - alone).max() > 1e-9 or set(poses) != {"base"}:
    print("WRONG:", got.tolist(), sorted(poses)); sys.exit(1)
print("ok")
'''),
 dict(id="c16-datum-kept-by-solver", prop="C16",
      edits=[(S, "        return DatumRegistry.get_datum(part_id, datum_name)\n",
              "        kept = self.__dict__.setdefault('_datums', {})\n        if (part_id, datum_name) not in kept:\n            kept[part_id, datum_name] = DatumRegistry.get_datum(part_id, datum_name)\n        return kept[part_id, datum_name]\n")],
      needs="a datum is registered again (or the registry cleared) after a mate that uses it was solved with the same solver",
      breaks="the mate is solved from the datum's old place",
      demo=r'''
import sys
from yapcad.assembly.datum import Datum, DatumType
from yapcad.assembly.datum_registry import DatumRegistry
from yapcad.assembly.mate import Mate, MateType
from yapcad.assembly.solver import MateConstraintSolver
def reg(z):
    DatumRegistry.register_datum("base", Datum("top", DatumType.PLANE, origin=[0, 0, z, 1], normal=[0, 0, 1, 0]))
DatumRegistry.register_datum("arm", Datum("bot", DatumType.PLANE, origin=[0, 0, 0, 1], normal=[0, 0, -1, 0]))
m = Mate(name="m", mate_type=MateType.COINCIDENT, part_a="base", datum_a="top", part_b="arm", datum_b="bot")
s = MateConstraintSolver()
reg(5)
s.solve_mate(m)
reg(40)
s.invalidate_cache()
z = float(s.solve_mate(m).transform[2][3])
if z != 40.0:
    print("WRONG: solved at", z); sys.exit(1)
print("ok")
'''),
 dict(id="c14-found-path-remembered", prop="C14",
      edits=[(R, "        # If it's already an absolute path and exists\n", "        known = self.__dict__.setdefault('_found', {})\n        if os.path.exists(known.get(source, '')):\n            return known[source]\n\n        # Check if it's an absolute path\n"),
             (R, "            candidate = os.path.join(search_path, source)\n            if os.path.exists(candidate):\n                return candidate\n",
              "            candidate = os.path.join(search_path, source)\n            if os.path.exists(candidate):\n                known[source] = candidate\n                return candidate\n")],
      needs="a source is found in one search directory, then its file appears in an earlier one, and the registry is cleared and asked again",
      breaks="datums keep coming from the file that search order no longer selects",
      demo=r'''
import sys, os, json, tempfile
from yapcad.assembly.datum_registry import DatumRegistry as R
with tempfile.TemporaryDirectory() as d:
    def put(sub, z):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        with open(os.path.join(d, sub, "servo.json"), "w") as f:
            json.dump({"datums": {"top": {"type": "PLANE", "origin": [0, 0, z], "normal": [0, 0, 1]}}}, f)
    put("b", 1)
    os.makedirs(os.path.join(d, "a"))
    R.add_search_path(os.path.join(d, "a"))
    R.add_search_path(os.path.join(d, "b"))
    R.get_datum("servo.json", "top")
    put("a", 2)
    R.clear()
    z = R.get_datum("servo.json", "top").origin[2]
if z != 2:
    print("WRONG: datum from the later directory", z); sys.exit(1)
print("ok")
'''),
 dict(id="c14-current-directory-first", prop="C14",
      edits=[(R, "        # Search in search paths\n        for search_path in self._search_paths:\n            candidate = os.path.join(search_path, source)\n",
              "        # Search here, then in search paths\n        for search_path in [os.getcwd()] + self._search_paths:\n            candidate = os.path.join(search_path, source)\n")],
      needs="a source of the same name in the current directory and in a search directory",
      breaks="the file in the current directory hides the one in the configured search directory",
      demo=r'''
import sys, os, json, tempfile
from yapcad.assembly.datum_registry import DatumRegistry as R
with tempfile.TemporaryDirectory() as d:
    for sub, z in (("cwd", 1), ("lib", 2)):
        os.makedirs(os.path.join(d, sub))
        with open(os.path.join(d, sub, "servo.json"), "w") as f:
            json.dump({"datums": {"top": {"type": "PLANE", "origin": [0, 0, z], "normal": [0, 0, 1]}}}, f)
    os.chdir(os.path.join(d, "cwd"))
    R.add_search_path(os.path.join(d, "lib"))
    z = R.get_datum("servo.json", "top").origin[2]
    os.chdir("/")
if z != 2:
    print("WRONG: datum from the current directory"); sys.exit(1)
print("ok")
'''),
 dict(id="c14-listing-creates-source", prop="C14",
      edits=[(R, "        if source not in instance._sources:\n            return []\n", "        if source not in instance._sources:\n            cls.register_source(source, {})\n            return []\n")],
      needs="the datums of a source are listed before its file exists or can be found",
      breaks="the source is never looked for again: lookups fail although the file is there",
      demo=r'''
import sys, os, json, tempfile
from yapcad.assembly.datum_registry import DatumRegistry as R
with tempfile.TemporaryDirectory() as d:
    R.add_search_path(d)
    assert R.list_datums("servo.json") == []
    with open(os.path.join(d, "servo.json"), "w") as f:
        json.dump({"datums": {"top": {"type": "PLANE", "normal": [0, 0, 1]}}}, f)
    try:
        R.get_datum("servo.json", "top")
    except KeyError as e:
        print("WRONG:", e); sys.exit(1)
print("ok")
'''),
]
K = "src/yapcad/fasteners/catalog.py"
BUGS += [
 dict(id="c13-read-error-falls-through", prop="C13",
      edits=[(K, "        path = data_dir / filename\n        if path.exists():\n            return _load_yaml(path)\n",
              "        try:\n            return _load_yaml(data_dir / filename)\n        except OSError:\n            continue\n")],
      needs="a transient read error on the overriding catalogue at the first lookup of a series",
      breaks="the bundled dimensions are returned instead of the user's, and are remembered",
      demo=r'''
import sys, os, tempfile, builtins
from yapcad.fasteners import catalog as C
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, "metric_coarse.yaml"), "w") as f:
        f.write("schema_version: '1.0'\nsizes: {M8: {nominal_diameter: 99.0, pitch: 1.0}}\n")
    os.environ["YAPCAD_FASTENER_DATA"] = d
    C.clear_cache()
    real, left = builtins.open, [1]
    def flaky(p, *a, **k):
        if str(p).startswith(os.path.realpath(d)) and left:
            left.pop()
            raise OSError(5, "Input/output error", str(p))
        return real(p, *a, **k)
    builtins.open = flaky
    try:
        try:
            C.get_thread_data("metric_coarse", "M8")
            print("WRONG: read error hidden"); sys.exit(1)
        except OSError:
            pass
        v = C.get_thread_data("metric_coarse", "M8")["nominal_diameter"]
    finally:
        builtins.open = real
if v != 99.0:
    print("WRONG: bundled data", v); sys.exit(1)
print("ok")
'''),
 dict(id="c13-clear-keeps-directories", prop="C13",
      edits=[(K, "    _get_data_dirs.cache_clear()\n    _load_catalog_cached.cache_clear()\n", "    _load_catalog_cached.cache_clear()\n")],
      needs="a lookup, then a new YAPCAD_FASTENER_DATA or a newly made user directory, clear_cache and another lookup",
      breaks="catalogues in the new directory are never found",
      demo=r'''
import sys, os, tempfile
from yapcad.fasteners import catalog as C
os.environ.pop("YAPCAD_FASTENER_DATA", None)
C.get_thread_data("metric_coarse", "M8")
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, "metric_coarse.yaml"), "w") as f:
        f.write("schema_version: '1.0'\nsizes: {M8: {nominal_diameter: 99.0, pitch: 1.0}}\n")
    os.environ["YAPCAD_FASTENER_DATA"] = d
    C.clear_cache()
    v = C.get_thread_data("metric_coarse", "M8")["nominal_diameter"]
if v != 99.0:
    print("WRONG:", v); sys.exit(1)
print("ok")
'''),
 dict(id="c13-missing-remembered", prop="C13",
      edits=[(K, "    searched = [str(d) for d in _get_data_dirs()]\n    raise FileNotFoundError(\n",
              "    searched = [str(d) for d in _get_data_dirs()]\n    _missing.add(thread_series)\n    raise FileNotFoundError(\n"),
             (K, "    filename = f\"{thread_series}.yaml\"\n", "    filename = f\"{thread_series}.yaml\"\n    if thread_series in _missing:\n        raise FileNotFoundError(f\"No catalog found for '{thread_series}'.\")\n"),
             (K, "@lru_cache(maxsize=32)\n", "_missing: set = set()\n\n\n@lru_cache(maxsize=32)\n")],
      needs="a series without a catalogue is looked up, its catalogue is added, the cache is cleared and the series looked up again",
      breaks="the series stays missing for the life of the process, even through an explicit catalogue path",
      demo=r'''
import sys, os, tempfile
from yapcad.fasteners import catalog as C
with tempfile.TemporaryDirectory() as d:
    os.environ["YAPCAD_FASTENER_DATA"] = d
    C.clear_cache()
    try:
        C.load_catalog("metric_fine")
    except FileNotFoundError:
        pass
    with open(os.path.join(d, "metric_fine.yaml"), "w") as f:
        f.write("schema_version: '1.0'\nsizes: {M8x1: {nominal_diameter: 8.0, pitch: 1.0}}\n")
    C.clear_cache()
    try:
        C.get_thread_data("metric_fine", "M8x1")
    except FileNotFoundError as e:
        print("WRONG:", e); sys.exit(1)
print("ok")
'''),

 dict(id="c20-identity-datum-shared", prop="C20",
      edits=[(A, "        transform = self.transforms[part_name]\n        return datum_local.transform(transform)\n",
              "        transform = self.transforms[part_name]\n        if np.array_equal(transform, np.eye(4)):\n            return datum_local\n        return datum_local.transform(transform)\n")],
      needs="a part still at the origin, and a validator or caller that changes the world datum it was given",
      breaks="the part definition itself changes, for every assembly that uses it",
      demo=r'''
import sys
from yapcad.assembly.assembly import Assembly
from yapcad.assembly.datum import PartDefinition, Datum, DatumType
from yapcad.assembly.constraint import Constraint, ConstraintType
p = PartDefinition("P")
p.add_datum(Datum("tip", DatumType.POINT, origin=[10, 0, 0]))
a = Assembly("a")
a.add_part(p, "p")
def check(d):
    d.origin[0] -= 5.0
    return True
a.add_constraint(Constraint("custom", ConstraintType.CUSTOM, "p", "tip", validator=check))
a.add_constraint(Constraint("at10", ConstraintType.AT_RADIUS, "p", "tip", center=(0, 0, 0), radius=10.0))
for i in range(2):
    if not a.validate().is_valid:
        print("WRONG:", a.validate()); sys.exit(1)
if abs(p.datums["tip"].origin[0] - 10) > 1e-9:
    print("WRONG:", p.datums["tip"]); sys.exit(1)
print("ok")
'''),
 dict(id="c20-world-datum-remembered", prop="C20",
      edits=[(A, "        transform = self.transforms[part_name]\n        return datum_local.transform(transform)\n",
              "        transform = self.transforms[part_name]\n        key = (part_name, datum_name)\n        kept = self._world.get(key)\n"
              "        if kept is None or kept[0] is not datum_local or not np.array_equal(kept[1], transform):\n"
              "            kept = self._world[key] = (datum_local, np.array(transform), datum_local.transform(transform))\n"
              "        import copy\n        return copy.deepcopy(kept[2])\n"),
             (A, "        self.bolt_patterns: Dict[tuple, Any] = {}\n", "        self.bolt_patterns: Dict[tuple, Any] = {}\n        self._world: Dict[tuple, Any] = {}\n")],
      needs="a datum of a part definition is edited in place after its world position was asked for, and the part has not moved",
      breaks="world datums and constraint verdicts stay those of the old datum",
      demo=r'''
import sys
from yapcad.assembly.assembly import Assembly
from yapcad.assembly.datum import PartDefinition, Datum, DatumType
from yapcad.assembly.constraint import Constraint, ConstraintType
p = PartDefinition("P")
p.add_datum(Datum("tip", DatumType.POINT, origin=[10, 0, 0]))
a = Assembly("a")
a.add_part(p, "p")
a.add_constraint(Constraint("at10", ConstraintType.AT_RADIUS, "p", "tip", center=(0, 0, 0), radius=10.0))
if not a.validate().is_valid:
    print("WRONG: invalid"); sys.exit(1)
p.datums["tip"].origin = [14, 0, 0, 1]
if a.validate().is_valid:
    print("WRONG: still valid"); sys.exit(1)
print("ok")
'''),
 dict(id="c20-validators-share-datum", prop="C20",
      edits=[(A, "        constraint_results = {}\n        failed_constraints = []\n", "        constraint_results = {}\n        world = {}\n        failed_constraints = []\n"),
             (A, "            datum_world = self.get_transformed_datum(\n                constraint.part, constraint.datum\n            )\n",
              "            key = (constraint.part, constraint.datum)\n            if key not in world:\n                world[key] = self.get_transformed_datum(*key)\n            datum_world = world[key]\n")],
      needs="two constraints on one datum, the first a custom validator that normalises or moves the datum it is given",
      breaks="the verdict of a later constraint depends on the validator before it",
      demo=r'''
import sys
from yapcad.assembly.assembly import Assembly
from yapcad.assembly.datum import PartDefinition, Datum, DatumType
from yapcad.assembly.constraint import Constraint, ConstraintType
p = PartDefinition("P")
p.add_datum(Datum("tip", DatumType.POINT, origin=[10, 0, 0]))
a = Assembly("a")
a.add_part(p, "p")
def check(d):
    d.origin[0] -= 5.0
    return d.origin[0] > 0
a.add_constraint(Constraint("custom", ConstraintType.CUSTOM, "p", "tip", validator=check))
a.add_constraint(Constraint("at10", ConstraintType.AT_RADIUS, "p", "tip", center=(0, 0, 0), radius=10.0))
if not a.validate().is_valid:
    print("WRONG:", a.validate()); sys.exit(1)
print("ok")
'''),
 dict(id="c20-refused-mate-kept", prop="C20",
      edits=[(A, "        # Validate mate is compatible with datum types\n", "        self.mates.append(mate)\n        self._solved = False\n\n        # Validate mate is compatible with datum types\n"),
             (A, "                assembly_name=self.name\n            )\n\n        self.mates.append(mate)\n        self._solved = False\n", "                assembly_name=self.name\n            )\n")],
      needs="a mate refused because its datums do not suit its type, then a question about the assembly",
      breaks="the refused mate counts in degrees of freedom, reports and the Mechatron export",
      demo=r'''
import sys
from yapcad.assembly.assembly import Assembly, AssemblyError
from yapcad.assembly.datum import PartDefinition, Datum, DatumType
from yapcad.assembly.mate import Mate, MateType
p = PartDefinition("P")
p.add_datum(Datum("tip", DatumType.POINT, origin=[10, 0, 0]))
a = Assembly("a")
a.add_part(p, "p")
a.add_part(p, "q")
try:
    a.add_mate(Mate("m", MateType.CONCENTRIC, "p", "tip", "q", "tip"))
    print("WRONG: accepted"); sys.exit(1)
except AssemblyError:
    pass
if len(a.mates) or "- m (" in a.report():
    print("WRONG:", a.report()); sys.exit(1)
print("ok")
'''),

 dict(id="c21-mesh-kept", prop="C21",
      edits=[(DT, "            try:\n                mesh = trimesh.load(geom, force='mesh')\n            except Exception:\n                return None\n",
              "            try:\n                key = (geom, Path(geom).stat().st_size)\n                if key not in self._geometry_cache:\n"
              "                    self._geometry_cache[key] = trimesh.load(geom, force='mesh')\n                mesh = self._geometry_cache[key].copy()\n            except Exception:\n                return None\n")],
      needs="a part's STL exported again with as many triangles, between two checks",
      breaks="the detector answers for the file as it was at the first check",
      demo=r'''
import os, sys, tempfile
import numpy as np
import trimesh
from yapcad.collision import CollisionDetector
from yapcad.collision.result import CollisionMethod
with tempfile.TemporaryDirectory() as d:
    class P:
        def get_geometry(self, n):
            return os.path.join(d, n + ".stl")
    def write(n, size):
        trimesh.creation.box((size,) * 3).export(os.path.join(d, n + ".stl"))
    write("a", 10); write("b", 10)
    D = CollisionDetector(P())
    T = np.eye(4); T[0, 3] = 15
    ask = lambda: D.check_collision("a", np.eye(4), "b", T, method=CollisionMethod.AABB).collides
    first = ask()
    write("b", 30)
    second = ask()
    if first or not second:
        print("WRONG:", first, second); sys.exit(1)
print("ok")
'''),
 dict(id="c21-pair-remembered", prop="C21",
      edits=[(RG, "        results = []\n        found_compatible = False\n        found_incompatible = False\n\n        for iface_a in interfaces_a:\n",
              "        # Pairs seen before were checked then\n        seen = self.__dict__.setdefault('_checked', {})\n\n        results = []\n        found_compatible = False\n        found_incompatible = False\n\n        for iface_a in interfaces_a:\n"),
             (RG, "                result = iface_a.check_compatibility(iface_b)\n                results.append(result)\n",
              "                pair = (iface_a.name, iface_b.name)\n                if pair not in seen:\n                    seen[pair] = iface_a.check_compatibility(iface_b)\n                result = seen[pair]\n                results.append(result)\n")],
      needs="an interface edited, or removed and registered anew with other parameters, after an overlap was checked",
      breaks="gears whose modules no longer match still count as an expected overlap",
      demo=r'''
import sys
from yapcad.collision import InterfaceRegistry, GearMeshInterface
R = InterfaceRegistry()
def gear(n, m):
    return GearMeshInterface(name=n, part_name=n.upper(), module=m, teeth=20)
R.register(gear("sun", 1.0)); R.register(gear("planet", 1.0))
a = R.check_overlap_compatibility("SUN", "PLANET")[0]
R.unregister("planet"); R.register(gear("planet", 2.0))
b = R.check_overlap_compatibility("SUN", "PLANET")[0]
if not a or b:
    print("WRONG:", a, b); sys.exit(1)
print("ok")
'''),
 dict(id="c21-unreadable-uses-bounds", prop="C21",
      edits=[(KI, "        if self.stl_path_a is not None and self.stl_path_b is not None:\n            return self._evaluate_mesh_collision(tf_a, tf_b)\n",
              "        if self.stl_path_a is not None and self.stl_path_b is not None:\n            result = self._evaluate_mesh_collision(tf_a, tf_b)\n"
              "            if not result.details.get('mesh_error'):\n                return result\n")],
      needs="an STL file that cannot be read at the moment of validation",
      breaks="an overlap constraint whose meshes could not be checked passes as satisfied",
      demo=r'''
import os, sys, tempfile
import numpy as np
import trimesh
from yapcad.assembly.kinematic_integration import KinematicConstraint, KinematicConstraintType
with tempfile.TemporaryDirectory() as d:
    a, b = (os.path.join(d, n) for n in ("a.stl", "b.stl"))
    trimesh.creation.box((10, 10, 10)).export(a)
    open(b, "wb").write(b"half a file")
    c = KinematicConstraint(name="clear", constraint_type=KinematicConstraintType.NO_OVERLAP, frame_a="A", frame_b="B", stl_path_a=a, stl_path_b=b)
    r = c.evaluate({"A": np.eye(4), "B": np.eye(4)})
    if r.satisfied:
        print("WRONG:", r); sys.exit(1)
print("ok")
'''),
 dict(id="c21-face-place-kept", prop="C21",
      edits=[(KI, "        self._face_pos_a = face_pos_a\n        self._face_pos_b = face_pos_b\n",
              "        if face_pos_a is not None:\n            self._face_pos_a = face_pos_a\n        if face_pos_b is not None:\n            self._face_pos_b = face_pos_b\n")],
      needs="a constraint whose face is taken away again after it was evaluated with one",
      breaks="the constraint goes on measuring from where the face last was",
      demo=r'''
import sys
import numpy as np
from yapcad.assembly.kinematic_integration import KinematicConstraint, KinematicConstraintType
c = KinematicConstraint(name="at", constraint_type=KinematicConstraintType.COINCIDENT, frame_a="A", reference_center=(0, 0, 0), face_a="TOP", bounds_a=((-1, -1, 0), (1, 1, 8)))
T = {"A": np.eye(4)}
first = c.evaluate(T)
c.face_a = None
second = c.evaluate(T)
if first.satisfied or not second.satisfied:
    print("WRONG:", first, second); sys.exit(1)
print("ok")
'''),
 dict(id="c22-failed-stage-undone", prop="C22",
      edits=[(RV, "            current_parts = {pid: rp.geometry for pid, rp in stage_result.parts.items()}\n",
              "            current_parts = {\n                pid: current_parts[pid] if rp.errors else rp.geometry\n                for pid, rp in stage_result.parts.items()\n            }\n")],
      needs="a staged resolution in which one strict operation on a part fails and another on the same part in the same stage succeeds",
      breaks="the operation that succeeded is reported as applied but the part lacks it",
      demo=RESOLVE + r'''
FAIL["P", "bad"] = RuntimeError("no")
r = StagedResolver(["a", "b"]).resolve({p: solid(p) for p in ("P", "ok", "bad", "late")},
    {"P": {}, "ok": op(["P"], stage="a"), "bad": op(["P"], stage="a"), "late": op(["P"], stage="b")})
check((name(r.parts["P"].geometry), r.parts["P"].applied_operations, r.success), ("((P-ok)-late)", ["ok", "late"], False))
print("ok")
'''),
 dict(id="c22-cutter-already-cut", prop="C22",
      edits=[(RV, "                cutter_geom = parts.get(cutter_id)\n",
              "                done = resolved_parts.get(cutter_id)\n                cutter_geom = done.geometry if done is not None else parts.get(cutter_id)\n")],
      needs="a part that is cut and also cuts a part listed after it",
      breaks="the second part is cut with the already cut cutter, or with the whole one when the parts are listed the other way round",
      demo=RESOLVE + r'''
meta = {"P": {}, "Q": op(["P"], consume=False), "R": op(["Q"])}
for order in ("PQR", "QPR", "RQP"):
    r = BasicResolver().resolve({p: solid(p) for p in order}, meta)
    check((name(r.parts["P"].geometry), name(r.parts["Q"].geometry)), ("(P-Q)", "(Q-R)"))
print("ok")
'''),
 dict(id="c22-kernel-errors-only", prop="C22",
      edits=[(RV, "                except Exception as exc:  # noqa: BLE001\n                    msg = f\"boolean {kind}",
              "                except (RuntimeError, ValueError, TypeError, LookupError, ImportError) as exc:\n                    msg = f\"boolean {kind}")],
      needs="an engine that runs out of memory or fails an allocation, an assertion or an attribute lookup on one operation",
      breaks="the whole resolution raises, whatever the operation's policy, and every other part is lost",
      demo=RESOLVE + r'''
FAIL["P", "big"] = MemoryError("too many faces")
r = BasicResolver().resolve({p: solid(p) for p in ("P", "big", "ok")}, {"P": {}, "big": op(["P"], policy="warn"), "ok": op(["P"])})
check((name(r.parts["P"].geometry), r.parts["P"].applied_operations, r.success, len(r.parts["P"].warnings)), ("(P-ok)", ["ok"], True, 1))
print("ok")
'''),
 dict(id="c22-stage-plan-kept", prop="C22",
      edits=[(RV, "        for cutter_id, op in cutters:\n            stage_tag = op.get(\"stage\")\n",
              "        plan = self.__dict__.setdefault(\"_plan\", {})\n        for cutter_id, op in cutters:\n            stage_tag = plan.setdefault((id(meta_map), cutter_id), op.get(\"stage\"))\n")],
      needs="one staged resolver used twice on the same metadata, with an operation's stage changed in between",
      breaks="the operation runs in the stage it had the first time",
      demo=RESOLVE + r'''
parts, meta = {p: solid(p) for p in "PQR"}, {"P": {}, "Q": op(["P"], stage="a"), "R": op(["P"], stage="b")}
s = StagedResolver(["a", "b"])
check(name(s.resolve(parts, meta).parts["P"].geometry), "((P-Q)-R)")
metadata.set_operation(meta["Q"], kind="subtract", stage="b", priority=60)
metadata.set_operation(meta["R"], kind="subtract", stage="a")
check(name(s.resolve(parts, meta).parts["P"].geometry), "((P-R)-Q)")
print("ok")
'''),
]
