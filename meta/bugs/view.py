"""Planted bugs: the viewer and its whiteboard (demos bring their own stand-ins for vtk and flask)."""
K = "src/yapcad/viewer/vtk_viewer.py"
A = "src/yapcad/viewer/api_server.py"
F = {"standin.py": "dst/viewsim.py"}
PRE = r'''
import os, sys, json, tempfile, shutil, atexit, contextlib, io
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import standin
standin.install()
from yapcad.viewer import VTKViewer, ViewerAPIServer, ViewerConfig
D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D, True)
def stl(name, x, s=1.0):
    p = os.path.join(D, name)
    with open(p, "w") as f:
        f.write("solid x\n")
        for t in (((x, 0, 0), (x + s, 0, 0), (x, s, 0)), ((x, 0, 0), (x + s, s, s), (x, 0, s))):
            f.write("facet normal 0 0 1\nouter loop\n" + "".join("vertex %r %r %r\n" % tuple(map(float, v)) for v in t) + "endloop\nendfacet\n")
        f.write("endsolid x\n")
    return p
def server(**k):
    v = VTKViewer(ViewerConfig(stl_dir=D, screenshot_dir=os.path.join(D, "shots"), **k))
    return v, ViewerAPIServer(v)
def post(s, route, **data):
    return s.app.dispatch("POST", route, json.dumps(data).encode(), "application/json")
def bad(*a):
    print("WRONG:", *a)
    sys.exit(1)
'''
GIT = PRE + r'''
import subprocess
W = os.path.join(D, "wb")
os.makedirs(W)
os.environ.update(HOME=D, GIT_CONFIG_NOSYSTEM="1", YAPCAD_WHITEBOARD_ROOT=W)
def git(*a):
    return subprocess.run(["git", *a], cwd=W, capture_output=True, text=True).stdout
git("init", "-q"); git("config", "user.email", "a@b"); git("config", "user.name", "n")
v, s = server()
def save(path, content, message=""):
    r = post(s, "/api/whiteboard/save", path=path, content=content, message=message)
    return r.status_code, r.json
def read(path):
    r = s.app.dispatch("GET", "/api/whiteboard/read", args={"path": path})
    return r.status_code, r.json
'''
BUGS = [
 dict(id="c18-mesh-remembered", prop="C18", files=F,
      edits=[(K, "        reader = vtk.vtkSTLReader()\n        reader.SetFileName(str(path))\n        reader.Update()\n",
              "        known = self.__dict__.setdefault('_meshes', {})\n        stat = path.stat()\n        version = (str(path), stat.st_size, int(stat.st_mtime))\n"
              "        if version in known:\n            return known[version]\n        reader = vtk.vtkSTLReader()\n        reader.SetFileName(str(path))\n        reader.Update()\n        known[version] = reader.GetOutput() if reader.GetOutput().GetNumberOfPoints() > 0 else None\n")],
      needs="a mesh file is rewritten at the same size within the second in which it was loaded, and loaded again",
      breaks="the old mesh is shown",
      demo=PRE + r'''
p = stl("gear.stl", 1.0)
os.utime(p, (1e9, 1e9))
v, s = server()
post(s, "/load", parts=[["gear.stl", "GEAR", None]])
p = stl("gear.stl", 5.0)
os.utime(p, (1e9 + 0.5, 1e9 + 0.5))
post(s, "/load", parts=[["gear.stl", "GEAR", None]])
if abs(v.get_part_bounds("GEAR")[0] - 5.0) > 1e-6:
    bad("shown is the old mesh", v.get_part_bounds("GEAR"))
'''),
 dict(id="c18-highlight-family", prop="C18", files=F,
      edits=[(K, "            if not names or name in names:\n", "            if not names or any(name == n or name.startswith(n + \"_\") for n in names):\n")],
      needs="a highlighted part whose name, with an underscore, begins another part's name",
      breaks="the other part is highlighted too instead of dimmed",
      demo=PRE + r'''
stl("a.stl", 0.0); stl("b.stl", 9.0)
v, s = server()
post(s, "/load", parts=[["a.stl", "ARM", None], ["b.stl", "ARM_COVER", None]])
post(s, "/highlight", parts=["ARM"], dim_opacity=0.1)
o = v.actors["ARM_COVER"].GetProperty().GetOpacity()
if abs(o - 0.1) > 1e-9:
    bad("ARM_COVER is not dimmed:", o)
'''),
 dict(id="c18-orbit-iso-centre", prop="C18", files=F,
      edits=[(K, "        fx, fy, fz = camera.GetFocalPoint()\n", "        fx, fy, fz = self.get_camera_state()[\"focal_point\"]\n")],
      needs="another viewport than ISO is orbited while its focal point differs from ISO's",
      breaks="that camera is placed around the wrong centre",
      demo=PRE + r'''
stl("a.stl", 0.0)
v, s = server(enable_multi_viewport=True)
post(s, "/load", parts=[["a.stl", "ARM", None]])
post(s, "/camera/set", position=[0, 0, 90], focal_point=[40, 0, 0], viewport="TOP")
post(s, "/camera/orbit", azimuth=0, elevation=0, distance=10, viewport="TOP")
p = v.get_camera_state("TOP")["position"]
if abs(p[0] - 50) > 1e-6:
    bad("the camera is at", p)
'''),
 dict(id="c18-listener-stops-others", prop="C18", files=F,
      edits=[(K, "        for callback in callbacks:\n            try:\n                callback(event)\n            except Exception as e:\n                print(f\"Event callback error: {e}\")\n",
              "        try:\n            for callback in callbacks:\n                callback(event)\n        except Exception as e:\n            print(f\"Event callback error: {e}\")\n")],
      needs="a listener registered before another raises",
      breaks="later listeners, the connected clients among them, miss the event",
      demo=PRE + r'''
stl("a.stl", 0.0)
v = VTKViewer(ViewerConfig(stl_dir=D))
def broken(e):
    raise RuntimeError("mine")
v.on_event("part_loaded", broken)
s = ViewerAPIServer(v)
s.socketio.connect("c")
s.socketio.clients["c"].clear()
post(s, "/load", parts=[["a.stl", "ARM", None]])
if not any(e == "part_loaded" for e, _ in s.socketio.clients["c"]):
    bad("the client was not told of the part")
'''),
 dict(id="c18-moveto-own-centre", prop="C18", files=F,
      edits=[(K, "        dx, dy, dz = x - cx, y - cy, z - cz\n        self.move_part(name, dx, dy, dz)\n",
              "        dx, dy, dz = x - cx, y - cy, z - cz\n        if max(abs(dx), abs(dy), abs(dz)) < 1:\n            return\n        self.move_part(name, dx, dy, dz)\n")],
      needs="a part is sent to a position less than one unit from where it is",
      breaks="success is answered and the part stays where it was",
      demo=PRE + r'''
stl("a.stl", 0.0)
v, s = server()
post(s, "/load", parts=[["a.stl", "ARM", None]])
post(s, "/moveto", part="ARM", x=0, y=0, z=0)
b = v.get_part_bounds("ARM")
if abs(b[0] + b[1]) > 1e-6:
    bad("the part is at", b)
'''),
 dict(id="c18-reload-needs-transform", prop="C18", files=F,
      edits=[(K, "        for part_name, part_data in self.positions.items():\n            if part_name not in self.actors:\n                continue\n",
              "        for part_name, part_data in self.positions.items():\n            if part_name not in self.actors:\n                break\n")],
      needs="the positions file lists a part that is not loaded before one that is, and positions are reloaded",
      breaks="the parts listed after it keep their old position and success is answered",
      demo=PRE + r'''
stl("a.stl", 0.0)
m = lambda x: [[1, 0, 0, x], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
pos = os.path.join(D, "pos.json")
json.dump({"ARM": {"transform_matrix": m(0), "stl_file": "a.stl"}}, open(pos, "w"))
v, s = server(positions_file=pos)
post(s, "/load")
json.dump({"OTHER": {"transform_matrix": m(1)}, "ARM": {"transform_matrix": m(7), "stl_file": "a.stl"}}, open(pos, "w"))
r = post(s, "/reload")
if r.status_code != 200 or abs(v.get_part_bounds("ARM")[0] - 7) > 1e-6:
    bad("after a reload the part is at", v.get_part_bounds("ARM"))
'''),
 dict(id="c19-tidies-content", prop="C19", files=F,
      edits=[(A, "            content  = data.get(\"content\")\n", "            content  = data.get(\"content\")\n            if isinstance(content, str) and content.strip():\n                content = content.rstrip(\" \\t\") if content.endswith((\" \", \"\\t\")) else content.rstrip(\"\\n\") + \"\\n\"\n")],
      needs="content that ends without a newline, or with several",
      breaks="the file and the commit do not hold exactly what was sent",
      demo=GIT + r'''
print(save("a.dsl", "module m;\n"))
if open(os.path.join(W, "a.dsl"), newline="").read() != "module m;\n":
    bad("plain save differs")
save("a.dsl", "module m;\n\n\n")
if open(os.path.join(W, "a.dsl"), newline="").read() != "module m;\n\n\n":
    bad("the file does not hold what was sent")
'''),
 dict(id="c19-committed-unless-clean", prop="C19", files=F,
      edits=[(A, "                committed = result.returncode == 0\n", "                committed = \"nothing to commit\" not in result.stdout and \"nothing added\" not in result.stdout\n")],
      needs="a commit that is refused, as by a hook",
      breaks="success and committed true are answered and there is no commit",
      demo=GIT + r'''
c, j = save("a.dsl", "one\n")
if c != 200 or not j["committed"]:
    bad("plain save", c, j)
h = os.path.join(W, ".git", "hooks")
os.makedirs(h, exist_ok=True)
with open(os.path.join(h, "pre-commit"), "w") as f:
    f.write("#!/bin/sh\nexit 1\n")
os.chmod(f.name, 0o755)
c, j = save("a.dsl", "two\n")
if c == 200 and git("show", "HEAD:a.dsl") != "two\n":
    bad("answered", j, "and HEAD has", git("show", "HEAD:a.dsl"))
'''),
 dict(id="c19-undo-without-git", prop="C19", files=F,
      edits=[(A, "                return jsonify({\"error\": \"git not found on PATH\"}), 500\n", "                target.unlink(missing_ok=True)  # do not leave uncommitted files behind\n                return jsonify({\"error\": \"git not found on PATH\"}), 500\n")],
      needs="git disappears from PATH and an existing file is saved again",
      breaks="the file is gone: neither its old nor the new content is left",
      demo=GIT + r'''
c, j = save("a.dsl", "one\n")
if c != 200:
    bad("plain save", c, j)
os.environ["PATH"] = D
c, j = save("a.dsl", "two\n")
if not os.path.exists(os.path.join(W, "a.dsl")):
    bad("the file is gone", c, j)
'''),
 dict(id="c19-write-in-place-after-all", prop="C19", files=F,
      edits=[(A, "                return jsonify({\"error\": f\"File write failed: {exc}\"}), 500\n",
              "                try:\n                    target.write_bytes(payload)  # no room beside it\n                except OSError:\n                    return jsonify({\"error\": f\"File write failed: {exc}\"}), 500\n")],
      needs="writing the new file beside the old one fails part of the way, as on a full disk, and so does writing in place",
      breaks="the file is left truncated",
      demo=GIT + r'''
import builtins, errno, pathlib
c, j = save("a.dsl", "one\n")
if c != 200:
    bad("plain save", c, j)
real = io.FileIO
class Full(io.FileIO):
    def write(self, b):
        raise OSError(errno.ENOSPC, "No space left on device")
def opener(file, mode="r", *a, **k):
    if "w" in mode or "x" in mode:
        if str(file).startswith(W):
            return io.BufferedWriter(Full(file, mode.replace("b", "")))
    return ropen(file, mode, *a, **k)
ropen = builtins.open
builtins.open = io.open = opener
c, j = save("a.dsl", "two\n" * 10)
builtins.open = io.open = ropen
b = open(os.path.join(W, "a.dsl")).read()
if b not in ("one\n", "two\n" * 10):
    bad("the file holds", repr(b), c)
'''),
 dict(id="c19-read-last-known", prop="C19", files=F,
      edits=[(A, "            return jsonify({\"content\": content, \"path\": rel_path})\n", "            self.__dict__.setdefault(\"_last_read\", {})[rel_path] = content\n            return jsonify({\"content\": content, \"path\": rel_path})\n"),
             (A, "            rel_path = request.args.get(\"path\", \"\").strip()\n            if not rel_path:\n                return jsonify({\"error\": \"'path' query param is required\"}), 400\n",
              "            rel_path = request.args.get(\"path\", \"\").strip()\n            if not rel_path:\n                return jsonify({\"error\": \"'path' query param is required\"}), 400\n"
              "            if not WHITEBOARD_ROOT.is_dir() and rel_path in self.__dict__.get(\"_last_read\", {}):\n                return jsonify({\"content\": self._last_read[rel_path], \"path\": rel_path})\n")],
      needs="a file is read, then the root is changed to a directory that does not exist, and it is read again",
      breaks="a file that is not there is answered with old content",
      demo=GIT + r'''
save("a.dsl", "one\n")
if read("a.dsl")[0] != 200:
    bad("plain read", read("a.dsl"))
os.environ["YAPCAD_WHITEBOARD_ROOT"] = os.path.join(D, "elsewhere")
if read("a.dsl")[0] == 200:
    bad("read of a file that is not there answers", read("a.dsl"))
'''),
]
