import json, sys, importlib
from pathlib import Path
here = Path(__file__).resolve().parent
sys.path.insert(0, str(here))
import props
import na as _na
V = here.parent
na = dict(props.NA)
out = []
for p in props.PROPS:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "observe_at": list(p["observe"]), "hook_needed": p["hook"]}})
(V / "properties.jsonl").write_text("".join(json.dumps(o, ensure_ascii=False) + "\n" for o in out))
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none: every seam is installed from outside (module attributes, open(), os functions, clocks, event loop, subprocess); no hook was added to /repo",
               "enable": "not needed", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick", "thorough_cmd": f"./check {p['id']} --tier thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": "exploration", "level_note": p["note"]}
                for p in props.PROPS if p["id"] not in na],
     "not_applicable": [{"property": k, "reason": v} for k, v in props.NA],
     "notes": "See DESIGN.md. Replay any violation with ./check <ID> --replay <file>."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
import re
for o in out:
    n = len(re.findall(r"[.!?](?:\s|$)", o["statement"]))
    if n > 3: print(o["id"], "sentences", n)

# ---------------------------------------------------------------- DESIGN.md
d = (here / "design.md").read_text()
kf = json.loads((V / "known_findings.json").read_text())["findings"]
d = d.replace("@@FIXED@@", "\n".join(f"* {k['text']}" for k in kf if k["status"] == "fixed"))
d = d.replace("@@OPEN@@", "\n".join(f"* {k['property']}: {k['what']}" for k in kf if k["status"] == "open") or "none")
d = d.replace("@@NA@@", "\n".join(f"* **{p['id']} {p['title']}**: {na[p['id']]}" for p in props.PROPS if p["id"] in na))
rows = []
for m_ in sorted((V / "seeded").glob("*/meta.json")):
    j = json.loads(m_.read_text())
    rows.append(f"| {m_.parent.name} | {j['property']} | {j['needs']} |")
d = d.replace("@@BUGS@@", "| bug (all caught by the check of the property) | property | needs |\n|---|---|---|\n" + "\n".join(rows))
d = d.replace("@@MORE@@\n", "")
(V / "DESIGN.md").write_text(d)
