"""Planted bugs: command-line tools."""
M = "src/yapcad/dsl/__main__.py"
E = "tools/ycpkg_export.py"
I = "src/yapcad/dsl/runtime/interpreter.py"
V = "tools/ycpkg_validate.py"
PRE = r'''
import os, sys, tempfile, shutil, atexit, contextlib, io
sys.path.insert(0, "tools")
D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D, True)
def dsl(*a):
    from yapcad.dsl import __main__ as m
    sys.argv = ["yapcad.dsl", *a]
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            return m.main()
        except SystemExit as e:
            return e.code or 0
        except Exception:
            return 1
def export(*a):
    import ycpkg_export
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            return ycpkg_export.main(list(a))
        except Exception:
            return 1
def put(name, text):
    p = os.path.join(D, name)
    open(p, "w").write(text)
    return p
def top(p, axis=0):
    from yapcad.io.stl import read_stl
    return max(v[axis] for s in read_stl(p)[1] for v in s[1])
'''
BUGS = [
 dict(id="c17-up-to-date", prop="C17",
      edits=[(M, "    # Regular execution\n    recursion_limit = getattr(args, 'recursion_limit', None)\n",
              "    if args.output and not args.force and Path(args.output).is_file() and \\\n            Path(args.output).stat().st_mtime > source_path.stat().st_mtime:\n"
              "        print(f\"{args.output} is up to date with {source_path}\")\n        return 0\n\n    # Regular execution\n    recursion_limit = getattr(args, 'recursion_limit', None)\n")],
      needs="the same output is asked for again with other parameters and the source unedited since",
      breaks="exit 0 and 'up to date', but the file is of the earlier parameters",
      demo=PRE + r'''
p = put("p.dsl", "module m;\ncommand C(w: float) -> solid {\n    emit box(w, 1.0, 1.0);\n}\n")
os.utime(p, (1e9, 1e9))
o = os.path.join(D, "o.stl")
for w in (2, 8):
    if dsl("run", p, "C", "--param", f"w={w}", "--output", o) != 0 or abs(top(o) - w / 2) > 1e-6:
        print("WRONG: output is not of these parameters", top(o)); sys.exit(1)
print("ok")
'''),
 dict(id="c17-export-keeps-same-size", prop="C17",
      edits=[(E, "        target = out_dir / f\"solid_{idx:02d}.stl\"\n        write_stl(solid, target)\n",
              "        target = out_dir / f\"solid_{idx:02d}.stl\"\n        faces = sum(len(surface[3]) for surface in solid[1])\n"
              "        if not target.exists() or target.stat().st_size != 84 + 50 * faces:\n            write_stl(solid, target)\n")],
      needs="an export with --overwrite over an earlier one with the same number of triangles",
      breaks="exit 0, but the STL is the one exported before",
      demo=PRE + r'''
from pathlib import Path
from yapcad.geom3d_util import prism
from yapcad.package import create_package_from_entities
pk, out = os.path.join(D, "p.ycpkg"), os.path.join(D, "out")
for h in (2, 8):
    create_package_from_entities([prism(h, 1, 1)], Path(pk), name="p", version="1", overwrite=True)
    if export(pk, "--format", "stl", "--output", out, "--overwrite") != 0 or abs(top(out + "/solid_01.stl") - h / 2) > 1e-6:
        print("WRONG: export is of another package", top(out + "/solid_01.stl")); sys.exit(1)
print("ok")
'''),
 dict(id="c17-analytic-skips-failed", prop="C17",
      edits=[(E, "        except Exception:\n            # Fall back to faceted export on any error\n            write_step(solid, target)\n        paths.append(target)\n",
              "            paths.append(target)\n        except OSError as exc:\n            # one unwritable target must not keep the others from being exported\n            print(f\"skipped {target}: {exc}\", file=sys.stderr)\n"
              "        except Exception:\n            # Fall back to faceted export on any error\n            write_step(solid, target)\n            paths.append(target)\n")],
      needs="writing one of several analytic exports fails (disk full, no permission)",
      breaks="exit 0 with a target missing",
      demo=PRE + r'''
from pathlib import Path
from yapcad.geom3d_util import prism
from yapcad.package import create_package_from_entities
pk, out = os.path.join(D, "p.ycpkg"), os.path.join(D, "out")
create_package_from_entities([prism(1, 1, 1), prism(2, 2, 2)], Path(pk), name="p", version="1")
os.makedirs(out + "/solid_02.step")
code = export(pk, "--format", "step-analytic", "--output", out, "--overwrite")
if code == 0 and not os.path.isfile(out + "/solid_02.step"):
    print("WRONG: exit 0 without solid_02.step"); sys.exit(1)
os.rmdir(out + "/solid_02.step")
if export(pk, "--format", "step-analytic", "--output", out, "--overwrite") != 0 or not os.path.isfile(out + "/solid_02.step"):
    print("WRONG: export failed"); sys.exit(1)
print("ok")
'''),
 dict(id="c17-package-answers-without-source", prop="C17",
      edits=[(M, "            overwrite=args.force,\n        )\n\n        if not result.success:\n            print(f\"Error: {result.error_message}\", file=sys.stderr)\n            return 1\n",
              "            overwrite=args.force,\n        )\n\n        if not result.success:\n            print(f\"Error: {result.error_message}\", file=sys.stderr)\n            # an existing package is left as it was\n            return 0 if Path(args.package, 'manifest.yaml').exists() else 1\n")],
      needs="a package command fails when the target already holds a package",
      breaks="exit 0 though the package was not made",
      demo=PRE + r'''
p = put("p.dsl", "module m;\ncommand C(w: float) -> solid {\n    require w > 5.0, \"too small\";\n    emit box(w, 1.0, 1.0);\n}\n")
pk = os.path.join(D, "pk")
a = dsl("run", p, "C", "--param", "w=9", "--package", pk)
b = dsl("run", p, "C", "--param", "w=1", "--package", pk, "--force")
if a != 0 or b == 0:
    print("WRONG: exits", a, b); sys.exit(1)
print("ok")
'''),
]
