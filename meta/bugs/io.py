"""Planted bugs: exporters and STL reading."""
STL = "src/yapcad/io/stl.py"
STEP = "src/yapcad/io/step.py"
MY = "src/yapcad/io/meta_yaml.py"
X = "src/yapcad/ezdxf_exporter.py"
PRE = r'''
import os, sys, tempfile, shutil
from yapcad.geom import point, line, arc
from yapcad.geom3d_util import prism
from yapcad.metadata import set_solid_metadata
D = tempfile.mkdtemp()
import atexit; atexit.register(shutil.rmtree, D, True)
'''
BUGS = [
 dict(id="c07-read-remembered", prop="C07",
      edits=[(STL, "        with open(path_or_file, 'rb') as f:\n            data = f.read()\n",
              "        # re-reading a large unchanged model is common: keep the last few\n        known = os.stat(path_or_file)\n        key = (os.path.realpath(path_or_file), known.st_size)\n"
              "        if key not in _recent:\n            with open(path_or_file, 'rb') as f:\n                _recent[key] = f.read()\n        data = _recent[key]\n"),
             (STL, "_HEADER_SIZE = 80\n", "_HEADER_SIZE = 80\n_recent = {}\n")],
      needs="a file is read, replaced by another export of the same size, and read again",
      breaks="the model read is the earlier one",
      demo=PRE + r'''
from yapcad.io.stl import write_stl, read_stl
p = os.path.join(D, "a.stl")
top = lambda: max(v[2] for v in read_stl(p)[1][0][1])
write_stl(prism(2, 2, 2), p); top()
write_stl(prism(2, 2, 20), p)
if abs(top() - 10) > 1e-6:
    print("WRONG: old model read", top()); sys.exit(1)
print("ok")
'''),
 dict(id="c07-hash-remembered", prop="C07",
      edits=[(MY, "    h = hashlib.sha256()\n    with open(path, \"rb\") as f:\n", "    st = path.stat()\n    key = (str(path), st.st_size, int(st.st_mtime))\n    if key in _hashes:\n        return _hashes[key]\n    h = hashlib.sha256()\n    with open(path, \"rb\") as f:\n"),
             (MY, "            h.update(chunk)\n    return h.hexdigest()\n", "            h.update(chunk)\n    _hashes[key] = h.hexdigest()\n    return _hashes[key]\n\n\n_hashes = {}\n")],
      needs="two exports of equal size to one path within the clock's second",
      breaks="the sidecar's hash is that of the earlier file",
      demo=PRE + r'''
import hashlib
from yapcad.io.stl import write_stl_with_meta
from yapcad.io.meta_yaml import load_metadata_yaml
p = os.path.join(D, "a.stl")
for h in (2, 20, 7, 9):
    s = prism(2, 2, h)
    set_solid_metadata(s, {"tags": ["t"]})
    side = write_stl_with_meta(s, p)
    os.utime(p, (1e9, 1e9))
    have = hashlib.sha256(open(p, "rb").read()).hexdigest()
    from yapcad.io.meta_yaml import dump_metadata_yaml
    side = dump_metadata_yaml(s, p)
    if load_metadata_yaml(side)["_provenance"]["geometry_sha256"] != have:
        print("WRONG: hash of another file"); sys.exit(1)
print("ok")
'''),
 dict(id="c07-step-mesh-kept", prop="C07",
      edits=[(STEP, "    triangles = list(triangles_from_mesh(mesh_view(obj)))\n", "    if _meshed and _meshed[0] is obj:\n        triangles = _meshed[1]\n    else:\n        triangles = list(triangles_from_mesh(mesh_view(obj)))\n        _meshed[:] = [obj, triangles]\n"),
             (STEP, "class _EntityWriter:\n", "_meshed: list = []\n\n\nclass _EntityWriter:\n")],
      needs="a solid is exported, changed in place, and exported again with nothing exported in between",
      breaks="the second STEP file holds the solid as it was before the change",
      demo=PRE + r'''
from yapcad.io.step import write_step
p = os.path.join(D, "a.step")
s = prism(2, 2, 2)
write_step(s, p)
for surf in s[1]:
    for v in surf[1]:
        v[2] += 5
write_step(s, p)
if "6.000000" not in open(p).read():
    print("WRONG: old geometry exported"); sys.exit(1)
print("ok")
'''),
 dict(id="c07-dxf-skips-refused", prop="C07",
      edits=[(X, "            drawable.layer = layer\n            drawable.draw(geom)\n", "            try:\n                drawable.layer = layer\n            except ValueError:\n                continue  # not one of the known layers\n            drawable.draw(geom)\n")],
      needs="several figures are exported and one names a layer that does not exist",
      breaks="success is reported for a drawing that lacks that figure",
      demo=PRE + r'''
from yapcad.ezdxf_exporter import write_dxf_multi
import ezdxf
p = os.path.join(D, "a.dxf")
ok = write_dxf_multi([line(point(0, 0), point(1, 1)), line(point(2, 0), point(3, 1))], p, ["PATHS", "CUTS"])
n = len(ezdxf.readfile(p).modelspace()) if os.path.exists(p) else 0
if ok and n < 2:
    print("WRONG: success reported for", n, "of 2 lines"); sys.exit(1)
print("ok")
'''),
 dict(id="c07-sidecar-kept-when-newer", prop="C07",
      edits=[(MY, "    provenance = _build_provenance(geo_path, source_dsl, source_command)\n",
              "    provenance = _build_provenance(geo_path, source_dsl, source_command)\n    try:\n        if load_metadata_yaml(out_path).get(\"_provenance\") == provenance:\n            return str(out_path)  # written for this very file\n    except Exception:\n        pass\n")],
      needs="only the metadata of a part changes between two exports within a second",
      breaks="the sidecar keeps the earlier metadata although a successful export is reported",
      demo=PRE + r'''
from yapcad.io import meta_yaml as m
import datetime
class DT(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls(2026, 1, 1, tzinfo=tz)
import types
Mod = types.SimpleNamespace(datetime=DT, timezone=datetime.timezone)
m.datetime = Mod
p = os.path.join(D, "a.stl")
from yapcad.io.stl import write_stl_with_meta
s = prism(2, 2, 2)
set_solid_metadata(s, {"tags": ["first"]})
write_stl_with_meta(s, p)
set_solid_metadata(s, {"tags": ["second"]})
side = write_stl_with_meta(s, p)
if m.load_metadata_yaml(side)["tags"] != ["second"]:
    print("WRONG: old metadata"); sys.exit(1)
print("ok")
'''),

 dict(id="c07-shared-edge-closed", prop="C07",
      edits=[(STEP, "            if count != 2:\n", "            if count % 2:\n")],
      needs="a solid of two bodies that have an edge in common is exported to STEP",
      breaks="the STEP file calls the bodies one closed manifold body, which four faces at an edge are not",
      demo=PRE + r'''
from yapcad.io.step import write_step
p = os.path.join(D, "a.step")
s, t = prism(2, 2, 2), prism(2, 2, 2, point(2, 2, 0))
s[1] += t[1]
write_step(s, p)
if "CLOSED_SHELL" in open(p).read():
    print("WRONG: a body with four faces at an edge is called closed"); sys.exit(1)
print("ok")
'''),
 dict(id="c07-source-hash-first-block", prop="C07",
      edits=[(MY, "        for chunk in iter(lambda: f.read(65536), b\"\"):\n            h.update(chunk)\n", "        h.update(f.read(1 << 20))\n")],
      needs="the source or geometry file a sidecar refers to is larger than a megabyte",
      breaks="the hash in the sidecar is not that of the file",
      demo=PRE + r'''
import hashlib
from yapcad.io import meta_yaml as m
from yapcad.io.stl import write_stl_with_meta
src = os.path.join(D, "p.dsl")
open(src, "w").write("module p;\n" + "# line\n" * 200000)
s = prism(2, 2, 2)
set_solid_metadata(s, {"tags": ["first"]})
side = write_stl_with_meta(s, os.path.join(D, "a.stl"), source_dsl=src)
if m.load_metadata_yaml(side)["_provenance"]["source_dsl_sha256"] != hashlib.sha256(open(src, "rb").read()).hexdigest():
    print("WRONG: not the hash of the source"); sys.exit(1)
print("ok")
'''),
]
