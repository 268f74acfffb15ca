COMMON = '''
import sys, os, json, tempfile, shutil, copy
from pathlib import Path
from yapcad.geom3d_util import prism, sphere
from yapcad.geom3d import translatesolid
from yapcad.package import core, validator
import yaml
T = Path(tempfile.mkdtemp())
def done(ok, msg):
    shutil.rmtree(T, ignore_errors=True)
    print(msg)
    sys.exit(0 if ok else 1)
'''
BUGS = [
 dict(id="c01-plan-entry-saved-early", prop="C01",
  edits=[("src/yapcad/package/analysis/cli.py", """    _ensure_plan_entry(manifest, plan, plan_path)

    results_dir = root / "validation" / "results" / plan.plan_id
    results_dir.mkdir(parents=True, exist_ok=True)
""", """    known = len(manifest.data.get("validation", {}).get("plans", []))
    _ensure_plan_entry(manifest, plan, plan_path)
    if len(manifest.data["validation"]["plans"]) != known:
        manifest.save()  # register the plan before a long-running backend starts

    results_dir = root.joinpath("validation", "results", plan.plan_id)
    results_dir.mkdir(parents=True, exist_ok=True)
""")],
  demo=COMMON + '''
from yapcad.package.analysis import cli
core.create_package_from_entities([prism(1, 2, 3)], T / "p", name="n", version="1")
(T / "p/validation/plans").mkdir(parents=True, exist_ok=True)
(T / "p/validation/plans/a.yaml").write_text("id: a\\nkind: geometric\\nbackend: yapcad\\ncheck: {property: volume}\\nacceptance: {volume: {limit: 7, comparison: '<='}}\\n")
before = (T / "p/manifest.yaml").read_bytes()
real = cli._replace_file
def boom(path, payload):
    raise OSError(28, "No space left on device")
cli._replace_file = boom
try:
    cli.analyze_package(T / "p", "validation/plans/a.yaml")
    done(False, "analysis did not report the failure")
except OSError:
    pass
done((T / "p/manifest.yaml").read_bytes() == before, "manifest after the failed run")
''',
  needs="the first run of a new plan fails or is killed after the plan is registered and before the result is stored",
  breaks="a failed analysis leaves a manifest that is neither the old nor the new version"),
 dict(id="c02-repeated-path-skipped", prop="C02",
  edits=[("src/yapcad/package/validator.py", """    for section in ("exports", "attachments"):
        for entry in data.get(section, []) or []:
            file_path = manifest.root / entry["path"]
            ok_entry""", """    checked = {entry["path"] for entry in derived_entries}
    for section in ("exports", "attachments"):
        for entry in data.get(section, []) or []:
            if entry["path"] in checked:
                continue  # already hashed
            checked.add(entry["path"])
            file_path = manifest.root / entry["path"]
            ok_entry""")],
  demo=COMMON + '''
m = core.create_package_from_entities([prism(1, 2, 3)], T / "p", name="n", version="1")
(T / "a.stl").write_bytes(b"one")
core.add_geometry_file(m, T / "a.stl", dest_relative="exports/a.stl")
e = m.data["geometry"]["derived"][0]
m.data["attachments"] = [{"id": "a", "path": e["path"], "hash": "sha256:" + "0" * 64}]
m.save()
ok, msgs = validator.validate_package(T / "p")
done(not ok, f"valid={ok}")
''',
  needs="one file listed in two sections with different recorded hashes",
  breaks="a recorded hash that does not match the bytes on disk is not noticed"),
 dict(id="c02-hash-prefix", prop="C02",
  edits=[("src/yapcad/package/validator.py", "    if expected_hash and expected_hash.lower() != actual_hash.lower():\n",
          "    if expected_hash and not actual_hash.lower().startswith(expected_hash.lower()):\n")],
  demo=COMMON + '''
m = core.create_package_from_entities([prism(1, 2, 3)], T / "p", name="n", version="1")
m.data["geometry"]["primary"]["hash"] = m.data["geometry"]["primary"]["hash"][:9]
m.save()
ok, msgs = validator.validate_package(T / "p")
done(not ok, f"valid={ok}")
''',
  needs="a manifest whose recorded hash has been cut short",
  breaks="a truncated digest is accepted as matching"),
 dict(id="c03-unchanged-geometry-reused", prop="C03",
  edits=[("src/yapcad/package/core.py", """    target.parent.mkdir(parents=True, exist_ok=True)
    with target.open("w", encoding="utf-8") as fp:
        json.dump(doc, fp, indent=2, sort_keys=False)
        fp.write("\\n")
    entity_ids = [entry["id"] for entry in doc.get("entities", []) if entry.get("id")]
""", """    target.parent.mkdir(parents=True, exist_ok=True)
    entity_ids = [entry["id"] for entry in doc.get("entities", []) if entry.get("id")]
    if target.exists():
        try:
            old = json.loads(target.read_text(encoding="utf-8"))
            unchanged = [entry.get("id") for entry in old.get("entities", [])] == entity_ids
        except ValueError:
            unchanged = False
    else:
        unchanged = False
    if not unchanged:
        with target.open("w", encoding="utf-8") as fp:
            json.dump(doc, fp, indent=2, sort_keys=False)
            fp.write("\\n")
""")],
  demo=COMMON + '''
s = prism(1, 2, 3)
core.create_package_from_entities([s], T / "p", name="n", version="1")
ids = core.PackageManifest.load(T / "p").data["geometry"]["primary"]["entities"]
from yapcad.metadata import get_solid_metadata
s2 = translatesolid(s, [10.0, 0.0, 0.0, 1.0])
a, b = get_solid_metadata(s, create=True), get_solid_metadata(s2, create=True)
b.update(copy.deepcopy(a))
from yapcad.geom3d import solidbbox
m = core.create_package_from_entities([s2], T / "p", name="n", version="2", overwrite=True)
got = core.load_geometry(m)
lo = min(p[0] for sf in got[0][1] for p in sf[1])
want = min(p[0] for sf in s2[1] for p in sf[1])
done(abs(lo - want) < 1e-6, f"min x {lo} expected {want}")
''',
  needs="re-creating a package over an older one from a solid that was modified but kept its entity ids",
  breaks="the new package silently holds the previous geometry"),
 dict(id="c04-case-folded-entry", prop="C04",
  edits=[("src/yapcad/package/core.py", """        derived = [item for item in derived if item.get("path") != entry["path"]]
""", """        derived = [item for item in derived if item.get("path", "").lower() != entry["path"].lower()]
""")],
  demo=COMMON + '''
m = core.create_package_from_entities([prism(1, 2, 3)], T / "p", name="n", version="1")
(T / "a.stl").write_bytes(b"one")
core.add_geometry_file(m, T / "a.stl", dest_relative="exports/a.stl")
core.add_geometry_file(m, T / "a.stl", dest_relative="exports/A.stl")
paths = sorted(e["path"] for e in m.data["geometry"]["derived"])
done(paths == ["exports/A.stl", "exports/a.stl"], str(paths))
''',
  needs="two imports whose destinations differ only in letter case",
  breaks="the first file's entry disappears although the file stays in the package"),
 dict(id="c04-identical-stat-overwrites", prop="C04",
  edits=[("src/yapcad/package/core.py", "    if dest_path.exists() and not overwrite:\n        raise FileExistsError(",
          "    same = dest_path.is_file() and (dest_path.stat().st_size, int(dest_path.stat().st_mtime)) == (\n        src_path.stat().st_size, int(src_path.stat().st_mtime))\n    if dest_path.exists() and not (overwrite or same):\n        raise FileExistsError(")],
  demo=COMMON + '''
m = core.create_package_from_entities([prism(1, 2, 3)], T / "p", name="n", version="1")
(T / "a.stl").write_bytes(b"one")
(T / "b.stl").write_bytes(b"two")
os.utime(T / "a.stl", (1000, 1000)); os.utime(T / "b.stl", (1000, 1000))
core.add_geometry_file(m, T / "a.stl", dest_relative="exports/a.stl")
try:
    core.add_geometry_file(m, T / "b.stl", dest_relative="exports/a.stl")
except FileExistsError:
    pass
got = (T / "p/exports/a.stl").read_bytes()
done(got == b"one", repr(got))
''',
  needs="a different source file with the same size and modification second as the file already imported",
  breaks="an existing file is replaced although overwriting was not requested"),
 dict(id="c05-validation-not-signed", prop="C05",
  edits=[("src/yapcad/package/signing.py", "    if 'signatures' in data:\n        data = {k: v for k, v in data.items() if k != 'signatures'}\n",
          "    if 'signatures' in data:\n        # analyses may be re-run after signing\n        data = {k: v for k, v in data.items() if k not in ('signatures', 'validation')}\n")],
  demo=COMMON + '''
from yapcad.package import signing
m = core.create_package_from_entities([prism(1, 2, 3)], T / "p", name="n", version="1")
m.data["signatures"] = [{"signature_file": "x"}]
m.data["validation"] = {"results": [{"plan": "a", "status": "failed"}]}
m.save()
a = signing._compute_canonical_manifest_hash(T / "p/manifest.yaml")
m.data["validation"]["results"][0]["status"] = "passed"
m.save()
b = signing._compute_canonical_manifest_hash(T / "p/manifest.yaml")
done(a != b, "signed content covers analysis results: %s" % (a != b))
''',
  needs="a second signature (or verification) of a signed package whose analysis results were edited",
  breaks="analysis results can be changed without invalidating the signature"),
 dict(id="c05-gpg-output-over-exit", prop="C05",
  edits=[("src/yapcad/package/signing.py", "        if result.returncode == 0:\n            # Extract signer from output\n",
          "        if result.returncode == 0 or 'Good signature from' in stderr:\n            # Extract signer from output\n")],
  demo=COMMON + '''
from yapcad.package import signing
bin = T / "bin"; bin.mkdir()
(bin / "gpg").write_text("#!/bin/sh\\necho 'gpg: Good signature from \\"a <a@b>\\" [ultimate]' >&2\\nkill -9 $$\\n")
(bin / "gpg").chmod(0o755)
os.environ["PATH"] = f"{bin}:" + os.environ["PATH"]
st = signing._verify_gpg_signature(b"x", "sig")[0]
done(st is not signing.VerificationStatus.VALID, str(st))
''',
  needs="gpg printing its good-signature line and then failing (a second bad signature, a crash)",
  breaks="a failing tool yields a VALID verdict"),
 dict(id="c06-limit-read-once", prop="C06",
  edits=[("src/yapcad/package/analysis/calculix.py", """            limit = rule.get("limit")
            if limit is None and "limit_mm" in rule:
                limit = rule["limit_mm"]
            if limit is None:
                continue
            limit = float(limit)
            comparison = rule.get("comparison", "<=")
""", """            limit = rule.get("limit") or rule.get("limit_mm")
            if not limit:
                continue
            limit = float(limit)
            comparison = rule.get("comparison", "<=")
""")],
  demo=COMMON + '''
from yapcad.package.analysis.calculix import CalculixAdapter
got = CalculixAdapter()._evaluate_acceptance({"displacement.max": 5.0}, {"displacement.max": {"limit": 0, "comparison": "<="}})
done(got == "failed", got)
''',
  needs="an acceptance limit of exactly zero",
  breaks="a violated criterion counts as passed"),
 dict(id="c06-nonzero-exit-with-output", prop="C06",
  edits=[("src/yapcad/package/analysis/calculix.py", """        if run.returncode != 0:
            summary["statusDetail"] = "CalculiX execution failed"
""", """        if run.returncode > 0:
            summary["statusDetail"] = "CalculiX execution failed"
""")],
  demo=COMMON + '''
from yapcad.package.analysis import cli, calculix
bin = T / "bin"; bin.mkdir()
(bin / "ccx").write_text("#!/bin/sh\\nprintf ' 1 0.0 0.001 0.0\\\\n' > $1.dat\\nkill -9 $$\\n")
(bin / "ccx").chmod(0o755)
os.environ["PATH"] = f"{bin}:" + os.environ["PATH"]
core.create_package_from_entities([prism(1, 2, 3)], T / "p", name="n", version="1")
(T / "p/validation/plans/a.yaml").write_text("id: a\\nkind: structural\\nbackend: calculix\\nbackendOptions: {inner_radius_mm: 1, outer_radius_mm: 5, radial_divisions: 2}\\nacceptance: {displacement.max: {limit: 1, comparison: '<='}}\\n")
cli.analyze_package(T / "p", "validation/plans/a.yaml")
st = core.PackageManifest.load(T / "p").data["validation"]["results"][0]["status"]
done(st != "passed", st)
''',
  needs="the solver killed by a signal after it has written part of its output",
  breaks="a killed solver run counts as passed"),

 dict(id="c01-save-keeps-deleted-keys", prop="C01",
  edits=[("src/yapcad/package/core.py", """        self.data.setdefault("schema", PACKAGE_SCHEMA)
        self.root.mkdir(parents=True, exist_ok=True)
        import yaml
""", """        self.data.setdefault("schema", PACKAGE_SCHEMA)
        self.root.mkdir(parents=True, exist_ok=True)
        import yaml
        if self.manifest_path.exists():
            # keep sections other tools have added since this was loaded
            with self.manifest_path.open("r", encoding="utf-8") as fp:
                for key, value in (yaml.safe_load(fp) or {}).items():
                    self.data.setdefault(key, value)
""")],
  demo=COMMON + """
m = core.create_package_from_entities([prism(1, 2, 3)], T / "p", name="n", version="1")
m.data["notes"] = "draft"
m.save()
m = core.PackageManifest.load(T / "p")
del m.data["notes"]
m.save()
got = core.PackageManifest.load(T / "p").data
done("notes" not in got, "notes after deleting them: %r" % got.get("notes"))
""",
  needs="a save that takes a section away which an earlier save stored",
  breaks="the saved manifest is a mixture of the old and the new version"),
 dict(id="c03-old-manifest-brought-along", prop="C03",
  edits=[("src/yapcad/package/core.py", """    geometry_info["hash"] = _compute_hash(primary_path, hash_algorithm)

    tags =""", """    geometry_info["hash"] = _compute_hash(primary_path, hash_algorithm)
    if overwrite and (root / MANIFEST_FILENAME).exists():
        # the package being replaced stays readable until the new manifest is there
        previous = PackageManifest.load(root)
        previous.data.setdefault("geometry", {})["primary"] = dict(geometry_info)
        previous.save()

    tags =""")],
  demo=COMMON + """
core.create_package_from_entities([prism(1, 2, 3)], T / "p", name="n", version="1")
real = core._collect_material_refs
def full(entities):
    raise OSError(28, "No space left on device")
core._collect_material_refs = full
try:
    core.create_package_from_entities([prism(20, 2, 2)], T / "p", name="n", version="2", overwrite=True)
    done(False, "creation reported success")
except OSError:
    pass
ok, _ = validator.validate_package(T / "p")
m = core.PackageManifest.load(T / "p")
big = "10" if "10.0" in (T / "p/geometry/primary.json").read_text() else "3"
done(not ok or m.data["version"] == "2" or big == "3", "valid=%s version=%s with geometry reaching %s" % (ok, m.data["version"], big))
""",
  needs="a crash or error between replacing the geometry and saving the new manifest of an overwritten package",
  breaks="a valid package with the old description and the new geometry"),
 dict(id="c04-same-name-replaced", prop="C04",
  edits=[("src/yapcad/package/core.py", """        derived = [item for item in derived if item.get("path") != entry["path"]]""",
          """        derived = [item for item in derived if Path(item.get("path", "")).name != dest_path.name]""")],
  demo=COMMON + """
m = core.create_package_from_entities([prism(1, 2, 3)], T / "p", name="n", version="1")
for v in ("v1", "v2"):
    (T / "a.stl").write_text(v)
    core.add_geometry_file(m, T / "a.stl", dest_relative="geometry/derived/%s/a.stl" % v)
got = [e["path"] for e in m.data["geometry"]["derived"]]
done(len(got) == 2, str(got))
""",
  needs="two imports of files of the same name into different folders of one section",
  breaks="the record of the earlier import is dropped"),
 dict(id="c05-same-key-verdict", prop="C05",
  edits=[("src/yapcad/package/signing.py", """    # Verify each signature
    for sig_entry in signatures:
""", """    # Verify each signature
    verdicts = {}
    for sig_entry in signatures:
"""), ("src/yapcad/package/signing.py", """        if method == SignatureMethod.GPG:
            status, signer, error = _verify_gpg_signature(
""", """        signed_by = (method, sig_entry.get("key_id"))
        if signed_by in verdicts:
            status, signer, error = verdicts[signed_by]  # ask the tool once per key
        elif method == SignatureMethod.GPG:
            status, signer, error = _verify_gpg_signature(
"""), ("src/yapcad/package/signing.py", """            status=status,
            error_message=error
        )
        result.signatures.append(sig_info)
    
    return result
""", """            status=status,
            error_message=error
        )
        verdicts.setdefault(signed_by, (status, signer, error))
        result.signatures.append(sig_info)
    
    return result
""")],
  demo=COMMON + """
from yapcad.package import signing
m = core.create_package_from_entities([prism(1, 2, 3)], T / "p", name="n", version="1")
bin = T / "bin"; bin.mkdir()
(bin / "gpg").write_text("#!/bin/sh\\nfor f in \\"$@\\"; do :; done\\ncase \\"$*\\" in *--verify*) grep -q good $(for a in \\"$@\\"; do [ -f \\"$a\\" ] && echo $a; done | head -1) && { echo 'gpg: Good signature from \\"a <a@b>\\"' >&2; exit 0; }; echo 'gpg: BAD signature' >&2; exit 1;; esac\\n")
(bin / "gpg").chmod(0o755)
os.environ["PATH"] = f"{bin}:" + os.environ["PATH"]
(T / "p/signatures").mkdir()
(T / "p/signatures/a.asc").write_text("good")
(T / "p/signatures/b.asc").write_text("bad")
m.data["signatures"] = [{"signer": "a", "method": "gpg", "key_id": "K", "timestamp": "", "signature_file": "signatures/%s.asc" % c} for c in "ab"]
m.save()
got = [s.status.value for s in signing.verify_package(T / "p").signatures]
done(got == ["VALID", "INVALID"], str(got))
""",
  needs="two signatures made with one key of which one no longer verifies",
  breaks="an invalid signature is reported VALID"),
 dict(id="c06-newer-result-kept", prop="C06",
  edits=[("src/yapcad/package/analysis/cli.py", """    manifest_entry = result.to_manifest_entry(root)
""", """    manifest_entry = result.to_manifest_entry(root)
    if any(item.get("plan") == plan.plan_id and str(item.get("timestamp") or "") > str(result.timestamp) for item in results):
        return summary_path  # a later run has been recorded meanwhile
""")],
  demo=COMMON + """
from yapcad.package.analysis import cli
core.create_package_from_entities([prism(1, 2, 3)], T / "p", name="n", version="1")
def plan(limit):
    (T / "p/validation/plans/a.yaml").write_text("id: a\\nkind: geometric\\nbackend: yapcad\\ncheck: {property: volume}\\nacceptance: {volume: {limit: %s, comparison: '<='}}\\n" % limit)
    cli.analyze_package(T / "p", "validation/plans/a.yaml")
    return core.PackageManifest.load(T / "p")
m = plan(7)
m.data["validation"]["results"][0]["timestamp"] = "2999-01-01T00:00:00+00:00"   # recorded while the clock was wrong
m.save()
st = plan(5).data["validation"]["results"][0]["status"]
done(st == "failed", "volume 6 with limit 5: " + st)
""",
  needs="a run after the clock was set back behind the recorded time of an earlier run",
  breaks="the recorded result is that of an earlier run with other limits"),
 dict(id="c06-results-folder-lowercase", prop="C06",
  edits=[("src/yapcad/package/analysis/cli.py", """    results_dir = root / "validation" / "results" / plan.plan_id
""", """    results_dir = root / "validation" / "results" / plan.plan_id.lower()
""")],
  demo=COMMON + """
from yapcad.package.analysis import cli
core.create_package_from_entities([prism(1, 2, 3)], T / "p", name="n", version="1")
for i, limit in (("A1", 7), ("a1", 5)):
    (T / "p/validation/plans/x.yaml").write_text("id: %s\\nkind: geometric\\nbackend: yapcad\\ncheck: {property: volume}\\nacceptance: {volume: {limit: %s, comparison: '<='}}\\n" % (i, limit))
    cli.analyze_package(T / "p", "validation/plans/x.yaml")
bad = [e["plan"] for e in core.PackageManifest.load(T / "p").data["validation"]["results"]
       if json.loads((T / "p" / e["path"]).read_text())["plan"] != e["plan"]]
done(not bad, "plans whose summary is another plan's: %s" % bad)
""",
  needs="two plans whose ids differ in case only",
  breaks="one plan's run overwrites the other's summary"),
]
