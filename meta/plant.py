"""Turn bug specifications (meta/bugs/*.py) into /verif/seeded/<id>/ after confirming them in a scratch copy.

usage: python3 meta/plant.py ID...       (spec files define BUGS = [dict(id, prop, edits, demo, needs, breaks)])
       options: --check  also run the property's quick check against the changed copy
                --tests  also run the stable tests against the changed copy
"""
import json, os, subprocess, sys, shutil, runpy
from pathlib import Path
V = Path(__file__).resolve().parent.parent
BASE = os.environ.get("PLANT_REPO", "/repo")
HEAD = '#!/bin/bash\n# runs in the repository after a build; exit 0 when the behaviour is right\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexport PYTHONPATH="$PWD/src:$PWD" PYTHONDONTWRITEBYTECODE=1\nexec "$PY" "$(dirname "$0")/demo.py"\n'


def specs():
    out = {}
    for f in sorted((V / "meta" / "bugs").glob("*.py")):
        for b in runpy.run_path(str(f))["BUGS"]:
            out[b["id"]] = b
    return out


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opts = {a for a in sys.argv[1:] if a.startswith("--")}
    sp = specs()
    ids = [k for k in sp if not args or any(k.startswith(a) for a in args)]
    for i in ids:
        b = sp[i]
        scr = Path(f"/tmp/scr-{i}")
        shutil.rmtree(scr, ignore_errors=True)
        sh(["cp", "-a", BASE, str(scr)], "/")
        try:
            for f, old, new in b["edits"]:
                p = scr / f
                t = p.read_text()
                assert t.count(old) == 1, (i, f, t.count(old), old)
                p.write_text(t.replace(old, new))
            diff = sh(["git", "diff"], scr).stdout
            d = V / "seeded" / i
            d.mkdir(parents=True, exist_ok=True)
            (d / "patch.diff").write_text(diff)
            (d / "demo.sh").write_text(HEAD)
            os.chmod(d / "demo.sh", 0o755)
            (d / "demo.py").write_text(b["demo"].lstrip("\n"))
            for name, src in b.get("files", {}).items():
                shutil.copy(V / src, d / name)
            (d / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
            r0 = sh(["bash", str(d / "demo.sh")], BASE, timeout=300)
            r1 = sh(["bash", str(d / "demo.sh")], scr, timeout=300)
            line = f"{i}: demo clean={r0.returncode} patched={r1.returncode}"
            if r0.returncode or not r1.returncode:
                line += "  BAD DEMO\n" + r0.stdout[-1500:] + "\n---\n" + r1.stdout[-1500:]
            else:
                line += " [" + (r1.stdout.strip().splitlines() or [""])[-1][:100] + "]"
            if "--tests" in opts:
                env = dict(os.environ, PYTHONPATH=f"{scr}/src:{scr}", PYTHONDONTWRITEBYTECODE="1")
                r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "8", "tests"], scr, env=env)
                if "unrecognized arguments: -n" in r.stdout:
                    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], scr, env=env)
                line += " tests: " + (r.stdout.strip().splitlines() or ["?"])[-1]
            if "--check" in opts:
                r = sh(["./check", b["prop"]], V, env=dict(os.environ, DST_REPO=str(scr)))
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2]
                line += f"\n   check {b['prop']}: exit {r.returncode} {v}"
            print(line, flush=True)
        finally:
            shutil.rmtree(scr, ignore_errors=True)


main()
