From 95d950ba6db470af74372ab7866333affb8ce3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 01/80] fix: replace the package manifest atomically on save

A crash, a full disk or an unserialisable value during PackageManifest.save
left a truncated manifest behind.
---
 src/yapcad/package/core.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 04dba65..ecf0545 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import datetime as _dt
 import hashlib
+import os
 import shutil
 import json
 import uuid
@@ -31,6 +32,28 @@ def _compute_hash(path: Path, algorithm: str = "sha256") -> str:
     return f"{algorithm}:{h.hexdigest()}"
 
 
+def _replace_file(path: Path, payload: bytes) -> None:
+    """Replace ``path`` with ``payload`` in one step.
+
+    The payload goes to a sibling temporary file that is flushed to disk and
+    renamed over the target, so an interrupted or failed write leaves the
+    previous file intact.
+    """
+    target = Path(os.path.realpath(path))
+    tmp = target.with_name(f".{target.name}.{uuid.uuid4().hex}.tmp")
+    try:
+        with tmp.open("xb") as fp:
+            fp.write(payload)
+            fp.flush()
+            os.fsync(fp.fileno())
+        if target.exists():
+            shutil.copymode(target, tmp)
+        os.replace(tmp, target)
+    except BaseException:
+        tmp.unlink(missing_ok=True)
+        raise
+
+
 def _now_iso() -> str:
     return _dt.datetime.now(_dt.timezone.utc).isoformat()
 
@@ -120,8 +143,8 @@ class PackageManifest:
         self.root.mkdir(parents=True, exist_ok=True)
         import yaml
 
-        with self.manifest_path.open("w", encoding="utf-8") as fp:
-            yaml.safe_dump(self.data, fp, sort_keys=False)
+        payload = yaml.safe_dump(self.data, sort_keys=False)
+        _replace_file(self.manifest_path, payload.encode("utf-8"))
 
     def recompute_hashes(self, *, algorithm: str = "sha256") -> None:
         geom = self.data.get("geometry", {})
-- 
2.43.0


From eddb980825bc074c08c3baaae52df2432b98828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 02/80] fix: verify SSH signatures by principal and pass gpg
 options before files

'-I *' only matches an allowed_signers line that itself says '*', so packages
signed by a listed signer were INVALID, and without an allowed_signers file a
signature of different content was reported as valid. gpg ignores --keyring
after the file arguments and failed every verification.
---
 src/yapcad/package/signing.py | 59 +++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 0bda5de..5d6264f 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -254,9 +254,11 @@ def _verify_gpg_signature(content: bytes, signature: str, keyring: Optional[Path
         sig_file = f.name
     
     try:
-        cmd = ["gpg", "--verify", sig_file, content_file]
+        cmd = ["gpg"]
         if keyring:
+            # gpg only accepts options ahead of the command's file arguments
             cmd.extend(["--keyring", str(keyring)])
+        cmd.extend(["--verify", sig_file, content_file])
         
         result = subprocess.run(cmd, capture_output=True)
         stderr = result.stderr.decode('utf-8')
@@ -303,30 +305,39 @@ def _verify_ssh_signature(
         sig_file = f.name
     
     try:
-        if allowed_signers and allowed_signers.exists():
-            # Verify with allowed signers (trusted verification)
-            # Need to figure out principal - for now use wildcard
-            cmd = [
-                "ssh-keygen", "-Y", "verify",
-                "-f", str(allowed_signers),
-                "-I", "*",  # Match any principal
-                "-n", namespace,
-                "-s", sig_file
-            ]
-            result = subprocess.run(cmd, input=content, capture_output=True)
-            
-            if result.returncode == 0:
-                return VerificationStatus.VALID, "verified", None
-            else:
-                stderr = result.stderr.decode('utf-8')
-                if "Could not verify" in stderr:
-                    return VerificationStatus.INVALID, "unknown", stderr
-                else:
-                    return VerificationStatus.VALID_UNTRUSTED, "unknown", "Signer not in allowed_signers"
-        else:
-            # Without allowed_signers, we can only check signature format validity
-            # This is a limitation - can't verify without knowing the public key
+        # Is this a signature of this content at all, by whichever key?
+        check = subprocess.run(
+            ["ssh-keygen", "-Y", "check-novalidate", "-n", namespace, "-s", sig_file],
+            input=content,
+            capture_output=True,
+        )
+        if check.returncode != 0:
+            return VerificationStatus.INVALID, "unknown", check.stderr.decode('utf-8', 'replace')
+
+        if not (allowed_signers and allowed_signers.exists()):
             return VerificationStatus.VALID_UNTRUSTED, "unknown", "No allowed_signers file provided"
+
+        # Ask which principals the signing key is listed under, then verify as one of them
+        found = subprocess.run(
+            ["ssh-keygen", "-Y", "find-principals", "-s", sig_file, "-f", str(allowed_signers)],
+            capture_output=True,
+        )
+        principals = found.stdout.decode('utf-8', 'replace').split('\n') if found.returncode == 0 else []
+        for principal in filter(None, (p.strip() for p in principals)):
+            result = subprocess.run(
+                [
+                    "ssh-keygen", "-Y", "verify",
+                    "-f", str(allowed_signers),
+                    "-I", principal,
+                    "-n", namespace,
+                    "-s", sig_file
+                ],
+                input=content,
+                capture_output=True,
+            )
+            if result.returncode == 0:
+                return VerificationStatus.VALID, principal, None
+        return VerificationStatus.VALID_UNTRUSTED, "unknown", "Signer not in allowed_signers"
             
     except FileNotFoundError:
         return VerificationStatus.ERROR, "unknown", "ssh-keygen not found"
-- 
2.43.0


From bdb52c079a7c9d8891b026b77e4b8f25a8c18973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 03/80] fix: signing replaces files atomically and keeps
 earlier signatures

Every GPG signature went to manifest.sig.asc, and SSH names were cut to 20
characters, so adding a second signature overwrote the first one's file. A
failed write while signing left a truncated manifest.
---
 src/yapcad/package/signing.py | 36 ++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 5d6264f..ae01ce0 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -33,6 +33,8 @@ from typing import Any, Dict, List, Optional
 
 import yaml
 
+from .core import _replace_file
+
 
 class SignatureMethod(Enum):
     """Supported signature methods."""
@@ -346,6 +348,16 @@ def _verify_ssh_signature(
         Path(sig_file).unlink(missing_ok=True)
 
 
+def _signature_file(sig_dir: Path, name: str, kept: List[Dict[str, Any]]) -> Path:
+    """Pick a file under ``sig_dir`` that none of the kept signature entries uses."""
+    taken = {Path(str(entry.get("signature_file", ""))).name for entry in kept}
+    candidate, n = name, 1
+    while candidate in taken:
+        n += 1
+        candidate = f"{name}.{n}"
+    return sig_dir / candidate
+
+
 def sign_package(
     package_path: str | Path,
     method: str | SignatureMethod = SignatureMethod.GPG,
@@ -381,6 +393,10 @@ def sign_package(
     manifest_hash = _compute_canonical_manifest_hash(manifest_path)
     content = _create_signable_content(manifest_hash)
     
+    with open(manifest_path, 'r', encoding='utf-8') as f:
+        manifest = yaml.safe_load(f)
+    kept = list(manifest.get("signatures") or []) if add else []
+    
     # Create signatures directory
     sig_dir = pkg_path / "signatures"
     sig_dir.mkdir(exist_ok=True)
@@ -390,8 +406,8 @@ def sign_package(
     
     if method == SignatureMethod.GPG:
         signature, signer_id, actual_key_id = _sign_with_gpg(content, key_id)
-        sig_file = sig_dir / "manifest.sig.asc"
-        sig_file.write_text(signature)
+        sig_file = _signature_file(sig_dir, "manifest.sig.asc", kept)
+        _replace_file(sig_file, signature.encode('utf-8'))
         
         sig_info = SignatureInfo(
             signer=signer_name or signer_id,
@@ -407,8 +423,8 @@ def sign_package(
         
         # Generate unique filename for SSH signatures
         safe_name = signer_id.replace('@', '_').replace(' ', '_').replace('/', '_')[:20]
-        sig_file = sig_dir / f"manifest.sig.{safe_name}"
-        sig_file.write_text(signature)
+        sig_file = _signature_file(sig_dir, f"manifest.sig.{safe_name}", kept)
+        _replace_file(sig_file, signature.encode('utf-8'))
         
         sig_info = SignatureInfo(
             signer=signer_name or signer_id,
@@ -419,9 +435,6 @@ def sign_package(
         )
     
     # Update manifest
-    with open(manifest_path, 'r', encoding='utf-8') as f:
-        manifest = yaml.safe_load(f)
-    
     sig_entry = {
         "signer": sig_info.signer,
         "method": sig_info.method.value,
@@ -430,13 +443,10 @@ def sign_package(
         "signature_file": sig_info.signature_file,
     }
     
-    if add and "signatures" in manifest:
-        manifest["signatures"].append(sig_entry)
-    else:
-        manifest["signatures"] = [sig_entry]
+    manifest["signatures"] = kept + [sig_entry]
     
-    with open(manifest_path, 'w', encoding='utf-8') as f:
-        yaml.safe_dump(manifest, f, default_flow_style=False, sort_keys=False)
+    payload = yaml.safe_dump(manifest, default_flow_style=False, sort_keys=False)
+    _replace_file(manifest_path, payload.encode('utf-8'))
     
     return sig_info
 
-- 
2.43.0


From 19c4887b44c421debafaa898512d4b8a4620700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 04/80] fix: validate_package reports malformed manifests and
 honours the hash algorithm

Entries without a path, non-mapping sections or unreadable files raised out
of the validator, and packages hashed with anything but sha256 always failed.
---
 src/yapcad/package/validator.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/validator.py b/src/yapcad/package/validator.py
index 5d09164..1274ad9 100644
--- a/src/yapcad/package/validator.py
+++ b/src/yapcad/package/validator.py
@@ -18,7 +18,13 @@ def _check_file(path: Path, expected_hash: str | None) -> Tuple[bool, List[str]]
     if not path.exists():
         messages.append(f"ERROR: missing file {path}")
         return False, messages
-    actual_hash = _compute_hash(path)
+    # recorded hashes carry their algorithm ("sha512:..."); compare like with like
+    algorithm = expected_hash.partition(":")[0].lower() if expected_hash and ":" in expected_hash else "sha256"
+    try:
+        actual_hash = _compute_hash(path, algorithm)
+    except (OSError, ValueError, TypeError) as exc:
+        messages.append(f"ERROR: cannot verify {path}: {exc}")
+        return False, messages
     if expected_hash and expected_hash.lower() != actual_hash.lower():
         messages.append(
             f"ERROR: hash mismatch for {path} (expected {expected_hash}, got {actual_hash})"
@@ -114,6 +120,17 @@ def validate_package(path: Path | str, *, strict: bool = False) -> Tuple[bool, L
     except Exception as exc:
         return False, [f"ERROR: failed to load manifest: {exc}"]
 
+    try:
+        return _validate_manifest(pkg_path, manifest, messages, strict)
+    except Exception as exc:
+        messages.insert(0, f"FAILED: {pkg_path} has validation errors")
+        messages.append(f"ERROR: malformed manifest: {exc!r}")
+        return False, messages
+
+
+def _validate_manifest(
+    pkg_path: Path, manifest: PackageManifest, messages: List[str], strict: bool
+) -> Tuple[bool, List[str]]:
     data = manifest.data
     if data.get("schema") != "ycpkg-spec-v0.1":
         messages.append(f"ERROR: unsupported package schema {data.get('schema')}")
-- 
2.43.0


From 05fb72172c3f6762698d02b6c1b992a2814c37d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 05/80] fix: add_geometry_file stays inside the package and
 never half-copies

'../' destinations escaped the package root, an unsupported category was only
rejected after the copy, and an interrupted copy left a torn file in place of
a good one.
---
 src/yapcad/package/core.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index ecf0545..7a2931c 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -54,6 +54,17 @@ def _replace_file(path: Path, payload: bytes) -> None:
         raise
 
 
+def _copy_file(source: Path, target: Path) -> None:
+    """Copy ``source`` to ``target``, which is either fully replaced or left alone."""
+    tmp = target.with_name(f".{target.name}.{uuid.uuid4().hex}.tmp")
+    try:
+        shutil.copy2(source, tmp)
+        os.replace(tmp, target)
+    except BaseException:
+        tmp.unlink(missing_ok=True)
+        raise
+
+
 def _now_iso() -> str:
     return _dt.datetime.now(_dt.timezone.utc).isoformat()
 
@@ -285,6 +296,9 @@ def add_geometry_file(
         The manifest entry dictionary that was inserted.
     """
 
+    if category not in ("derived", "attachments"):
+        raise ValueError(f"unsupported category for geometry file: {category}")
+
     src_path = Path(source)
     if not src_path.exists():
         raise FileNotFoundError(f"geometry source not found: {src_path}")
@@ -302,12 +316,15 @@ def add_geometry_file(
             raise ValueError("dest_relative must be a relative path")
 
     dest_path = manifest.root / dest_relative_path
-    dest_path.parent.mkdir(parents=True, exist_ok=True)
+    package_root = os.path.realpath(manifest.root)
+    if not os.path.realpath(dest_path).startswith(os.path.join(package_root, "")):
+        raise ValueError("dest_relative must stay inside the package")
 
     if dest_path.exists() and not overwrite:
         raise FileExistsError(f"target file already exists: {dest_path}")
 
-    shutil.copy2(src_path, dest_path)
+    dest_path.parent.mkdir(parents=True, exist_ok=True)
+    _copy_file(src_path, dest_path)
 
     entry: Dict[str, Any] = {
         "path": str(dest_relative_path.as_posix()),
-- 
2.43.0


From fc0cb42b68a906aa74f1b06dbe224255655482ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 06/80] fix: calculix adapter no longer reads a previous run's
 results

When ccx exited 0 without writing its .dat file, the one left by the last run
was parsed and reported as this run's outcome.
---
 src/yapcad/package/analysis/calculix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/package/analysis/calculix.py b/src/yapcad/package/analysis/calculix.py
index 721ac8a..e5ab17c 100644
--- a/src/yapcad/package/analysis/calculix.py
+++ b/src/yapcad/package/analysis/calculix.py
@@ -88,6 +88,10 @@ class CalculixAdapter(AnalysisAdapter):
                 artifacts=artifacts,
             )
 
+        # results of an earlier run must not be mistaken for this run's output
+        for suffix in (".dat", ".frd", ".sta", ".log"):
+            (workspace / f"{inp_basename}{suffix}").unlink(missing_ok=True)
+
         run = subprocess.run(
             [executable, inp_basename],
             cwd=workspace,
-- 
2.43.0


From 713d6860850caba89991233634601102fa8cdf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 07/80] fix: analysis results are not 'passed' on criteria that
 were not evaluated

A criterion whose metric is missing, whose comparison is unknown, or whose
value is NaN was skipped and the check reported passed.
---
 src/yapcad/package/analysis/calculix.py      |  2 ++
 src/yapcad/package/analysis/yapcad_native.py | 18 +++++++++++-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/package/analysis/calculix.py b/src/yapcad/package/analysis/calculix.py
index e5ab17c..c1d3eef 100644
--- a/src/yapcad/package/analysis/calculix.py
+++ b/src/yapcad/package/analysis/calculix.py
@@ -302,6 +302,8 @@ class CalculixAdapter(AnalysisAdapter):
                 continue
             limit = float(limit)
             comparison = rule.get("comparison", "<=")
+            if comparison not in ("<=", "<", ">=", ">"):
+                status = "pending"
             if comparison == "<=" and not (metric_value <= limit):
                 return "failed"
             if comparison == "<" and not (metric_value < limit):
diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index f3d6c29..8ef2fbc 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -571,6 +571,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
         if not acceptance:
             return "passed" if metrics else "pending"
 
+        status = "passed"
         for key, rule in acceptance.items():
             # Try exact key match first
             metric_value = metrics.get(key)
@@ -585,6 +586,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
 
             if metric_value is None:
                 # Metric not found - can't evaluate
+                status = "pending"
                 continue
 
             limit = rule.get("limit")
@@ -596,26 +598,28 @@ class YapCADNativeAdapter(AnalysisAdapter):
             tolerance = rule.get("tolerance", 0.0)
 
             if comparison == "<=":
-                if metric_value > limit:
+                if not metric_value <= limit:
                     return "failed"
             elif comparison == "<":
-                if metric_value >= limit:
+                if not metric_value < limit:
                     return "failed"
             elif comparison == ">=":
-                if metric_value < limit:
+                if not metric_value >= limit:
                     return "failed"
             elif comparison == ">":
-                if metric_value <= limit:
+                if not metric_value > limit:
                     return "failed"
             elif comparison == "==":
-                if abs(metric_value - limit) > tolerance:
+                if not abs(metric_value - limit) <= tolerance:
                     return "failed"
             elif comparison == "~=":
                 # Approximate equality with tolerance
-                if abs(metric_value - limit) > tolerance:
+                if not abs(metric_value - limit) <= tolerance:
                     return "failed"
+            else:
+                status = "pending"
 
-        return "passed"
+        return status
 
     def _get_failed_criteria(
         self, metrics: Dict[str, float], acceptance: Dict[str, Any]
-- 
2.43.0


From 3a1e0c9e691101cad39247957ae95231b80b412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 08/80] fix: re-running an analysis replaces its result entry
 and summary as a whole

An errored or skipped re-run kept the metrics and artifacts of the previous
one, summary.json was truncated before it was rewritten, and a plan id such
as '../../x' placed results outside the package.
---
 src/yapcad/package/analysis/cli.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index 1dacd8c..6d6c9f8 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -8,7 +8,7 @@ from datetime import datetime, timezone
 from pathlib import Path
 from typing import Optional, Sequence
 
-from ..core import PackageManifest
+from ..core import PackageManifest, _replace_file
 from .base import AnalysisPlan, AnalysisResult, get_backend, load_plan
 
 
@@ -56,6 +56,8 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
         plan_path = (root / plan_path).resolve()
 
     plan = load_plan(plan_path)
+    if plan.plan_id in ("", ".", "..") or Path(plan.plan_id).name != plan.plan_id:
+        raise ValueError(f"analysis plan id must be a plain name: {plan.plan_id!r}")
     _ensure_plan_entry(manifest, plan, plan_path)
 
     results_dir = root / "validation" / "results" / plan.plan_id
@@ -118,9 +120,7 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
             exec_info["host"] = plan.execution.host
         summary_payload["execution"] = exec_info
 
-    with summary_path.open("w", encoding="utf-8") as fp:
-        json.dump(summary_payload, fp, indent=2)
-        fp.write("\n")
+    _replace_file(summary_path, (json.dumps(summary_payload, indent=2) + "\n").encode("utf-8"))
 
     result.summary_path = summary_path
     result.summary = summary_payload
@@ -129,9 +129,11 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
     results = validation.setdefault("results", [])
     manifest_entry = result.to_manifest_entry(root)
     manifest_entry.setdefault("path", str(summary_path.relative_to(root)))
-    existing = next((item for item in results if item.get("plan") == plan.plan_id), None)
-    if existing:
-        existing.update(manifest_entry)
+    # a re-run replaces the whole entry: metrics of an earlier run are not this run's
+    for index, item in enumerate(results):
+        if item.get("plan") == plan.plan_id:
+            results[index] = manifest_entry
+            break
     else:
         results.append(manifest_entry)
 
-- 
2.43.0


From 8faad5aaddf001d2fbd57de9badfc6b50da419c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 09/80] fix: add_geometry_file hashes the copy before it
 replaces anything

A failure to read the finished copy back raised after the file was in place.
---
 src/yapcad/package/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 7a2931c..53c6230 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -54,15 +54,20 @@ def _replace_file(path: Path, payload: bytes) -> None:
         raise
 
 
-def _copy_file(source: Path, target: Path) -> None:
-    """Copy ``source`` to ``target``, which is either fully replaced or left alone."""
+def _copy_file(source: Path, target: Path) -> str:
+    """Copy ``source`` to ``target``, which is either fully replaced or left alone.
+
+    Returns the hash of the copy.
+    """
     tmp = target.with_name(f".{target.name}.{uuid.uuid4().hex}.tmp")
     try:
         shutil.copy2(source, tmp)
+        digest = _compute_hash(tmp)
         os.replace(tmp, target)
     except BaseException:
         tmp.unlink(missing_ok=True)
         raise
+    return digest
 
 
 def _now_iso() -> str:
@@ -324,11 +329,11 @@ def add_geometry_file(
         raise FileExistsError(f"target file already exists: {dest_path}")
 
     dest_path.parent.mkdir(parents=True, exist_ok=True)
-    _copy_file(src_path, dest_path)
+    digest = _copy_file(src_path, dest_path)
 
     entry: Dict[str, Any] = {
         "path": str(dest_relative_path.as_posix()),
-        "hash": _compute_hash(dest_path),
+        "hash": digest,
         "format": src_path.suffix.lstrip(".").lower(),
         "source": {
             "kind": "import",
-- 
2.43.0


From e4555314f3c255296724c3bd3a5dc8475ef7cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 10/80] fix: add_geometry_file records normalised paths

'a/../b' and 'b' made two entries for one file, and '../<package>/b' broke
when the package was renamed.
---
 src/yapcad/package/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 53c6230..87c9761 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -324,6 +324,9 @@ def add_geometry_file(
     package_root = os.path.realpath(manifest.root)
     if not os.path.realpath(dest_path).startswith(os.path.join(package_root, "")):
         raise ValueError("dest_relative must stay inside the package")
+    # record "a/../b" as "b": one file, one manifest entry
+    dest_relative_path = Path(os.path.relpath(os.path.realpath(dest_path), package_root))
+    dest_path = manifest.root / dest_relative_path
 
     if dest_path.exists() and not overwrite:
         raise FileExistsError(f"target file already exists: {dest_path}")
-- 
2.43.0


From ee1f76b6ea9846ed98dd99dfdae6ebbd554dedec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 11/80] fix: native analysis replaces its summary file as a
 whole

---
 src/yapcad/package/analysis/yapcad_native.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index 8ef2fbc..1c58a7d 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -25,6 +25,7 @@ from datetime import datetime, timezone
 from pathlib import Path
 from typing import Any, Dict, List, Optional
 
+from ..core import _replace_file
 from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, register_backend
 
 
@@ -126,15 +127,14 @@ class YapCADNativeAdapter(AnalysisAdapter):
 
         # Write summary to workspace
         summary_path = workspace / "summary.json"
-        with open(summary_path, "w") as f:
-            json.dump({
-                "plan_id": plan.plan_id,
-                "status": status,
-                "timestamp": summary["timestamp"],
-                "backend": "yapcad",
-                "metrics": metrics,
-                "acceptance_results": self._build_acceptance_results(metrics, plan.acceptance),
-            }, f, indent=2)
+        _replace_file(summary_path, json.dumps({
+            "plan_id": plan.plan_id,
+            "status": status,
+            "timestamp": summary["timestamp"],
+            "backend": "yapcad",
+            "metrics": metrics,
+            "acceptance_results": self._build_acceptance_results(metrics, plan.acceptance),
+        }, indent=2).encode("utf-8"))
         artifacts.append({"kind": "summary", "path": "summary.json"})
 
         return AnalysisResult(
-- 
2.43.0


From 78fdc5ede0c566aca0f40b5617817f550b190705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 12/80] fix: add_geometry_file refuses destinations it cannot
 resolve

---
 src/yapcad/package/core.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 87c9761..c07be79 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -275,6 +275,20 @@ def load_geometry(manifest: PackageManifest) -> List[list]:
     return geometry_from_json(doc)
 
 
+def _resolve(path: Path) -> str:
+    """Like ``os.path.realpath`` but a link that cannot be read is an error, not a plain name."""
+
+    try:
+        return os.path.realpath(path, strict=True)
+    except FileNotFoundError:
+        pass
+    try:
+        os.lstat(path)
+    except FileNotFoundError:
+        return os.path.normpath(os.path.join(_resolve(path.parent), path.name))
+    return _resolve(path.parent / os.readlink(path))  # link to something missing
+
+
 def add_geometry_file(
     manifest: PackageManifest,
     source: Path | str,
@@ -321,11 +335,12 @@ def add_geometry_file(
             raise ValueError("dest_relative must be a relative path")
 
     dest_path = manifest.root / dest_relative_path
-    package_root = os.path.realpath(manifest.root)
-    if not os.path.realpath(dest_path).startswith(os.path.join(package_root, "")):
+    package_root = os.path.realpath(manifest.root, strict=True)
+    real_dest = _resolve(dest_path)
+    if not real_dest.startswith(os.path.join(package_root, "")):
         raise ValueError("dest_relative must stay inside the package")
     # record "a/../b" as "b": one file, one manifest entry
-    dest_relative_path = Path(os.path.relpath(os.path.realpath(dest_path), package_root))
+    dest_relative_path = Path(os.path.relpath(real_dest, package_root))
     dest_path = manifest.root / dest_relative_path
 
     if dest_path.exists() and not overwrite:
-- 
2.43.0


From f5e9b7cd893181abdae983fba6d555d88f04fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 13/80] fix: DSL evaluation time limits take effect while the
 evaluation runs

---
 service/core/dsl_runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/service/core/dsl_runner.py b/service/core/dsl_runner.py
index 803f7d8..478c982 100644
--- a/service/core/dsl_runner.py
+++ b/service/core/dsl_runner.py
@@ -25,7 +25,8 @@ async def eval_dsl(
 ):
     """Evaluate DSL source with a hard timeout.
 
-    Runs compilation + execution in a worker thread.
+    Runs compilation + execution in a worker thread.  A thread cannot be
+    interrupted, so on timeout it is abandoned rather than waited for.
     """
 
     def _run_sync():
@@ -38,7 +39,7 @@ async def eval_dsl(
 
     try:
         with anyio.fail_after(timeout_s):
-            return await anyio.to_thread.run_sync(_run_sync)
+            return await anyio.to_thread.run_sync(_run_sync, abandon_on_cancel=True)
     except TimeoutError as exc:  # anyio raises built-in TimeoutError
         raise DslTimeoutError(f"DSL evaluation exceeded timeout ({timeout_s}s)") from exc
 
-- 
2.43.0


From 90f10ce196ad379ed50d5381c331650d7ea1b660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 14/80] fix: WebSocket evaluation survives malformed frames and
 always answers in JSON

---
 service/routes/dsl.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/service/routes/dsl.py b/service/routes/dsl.py
index 0c18dd2..096d013 100644
--- a/service/routes/dsl.py
+++ b/service/routes/dsl.py
@@ -260,12 +260,17 @@ async def ws_dsl_eval(websocket: WebSocket) -> None:
 
     try:
         while True:
-            raw = await websocket.receive_text()
+            frame = await websocket.receive()
+            if frame["type"] == "websocket.disconnect":
+                break
             try:
-                msg = json.loads(raw)
-            except json.JSONDecodeError:
+                msg = json.loads(frame.get("text") or "")
+            except (ValueError, RecursionError):
                 await websocket.send_json({"type": "error", "error_message": "Invalid JSON"})
                 continue
+            if not isinstance(msg, dict):
+                await websocket.send_json({"type": "error", "error_message": "Message must be a JSON object"})
+                continue
 
             msg_type = msg.get("type")
 
@@ -331,7 +336,19 @@ async def ws_dsl_eval(websocket: WebSocket) -> None:
 
                 response["elapsed_ms"] = (time.perf_counter() - t0) * 1000
                 try:
-                    await websocket.send_json(response)
+                    # ASCII escapes: a request_id may hold code points (lone
+                    # surrogates) that UTF-8 cannot carry
+                    text = json.dumps(response, allow_nan=False)
+                except ValueError as exc:
+                    response.update(
+                        success=False,
+                        geometry=None,
+                        assembly_snapshot=None,
+                        error_message=f"Result serialization failed: {exc}",
+                    )
+                    text = json.dumps(response)
+                try:
+                    await websocket.send_text(text)
                 except Exception:
                     pass  # connection may have closed
 
@@ -339,6 +356,8 @@ async def ws_dsl_eval(websocket: WebSocket) -> None:
             current_task = asyncio.ensure_future(_run_eval(request_id, source, command, parameters))
 
     except WebSocketDisconnect:
+        pass
+    finally:
         if current_task and not current_task.done():
             current_task.cancel()
 
-- 
2.43.0


From 8f699331c83f8cda7a7fbb658650c406fafad4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 15/80] fix: HTTP service answers bad input with client errors
 and ui_eval with plain values

---
 service/core/tessellator.py |  4 ++++
 service/main.py             | 34 +++++++++++++++++++++++++++++++++-
 service/routes/dsl.py       | 11 +++++++++--
 3 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/service/core/tessellator.py b/service/core/tessellator.py
index 18c262a..f4cc6be 100644
--- a/service/core/tessellator.py
+++ b/service/core/tessellator.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import math
 from typing import Any, Dict, List, Tuple
 
 from yapcad.geom3d import issolid, issurface
@@ -56,4 +57,7 @@ def solidish_to_mesh(entities: List[Any]) -> Dict[str, List]:
 
             vert_offset += len(verts)
 
+    if not all(math.isfinite(c) for c in vertices) or not all(math.isfinite(c) for c in normals):
+        raise ValueError("geometry has non-finite coordinates")
+
     return {"vertices": vertices, "normals": normals, "indices": indices}
diff --git a/service/main.py b/service/main.py
index 8d84816..1f5ac0e 100644
--- a/service/main.py
+++ b/service/main.py
@@ -1,13 +1,41 @@
 from __future__ import annotations
 
-from fastapi import FastAPI
+from fastapi import FastAPI, Request
+from fastapi.exceptions import RequestValidationError
 from fastapi.middleware.cors import CORSMiddleware
+from fastapi.responses import JSONResponse
+from pydantic_core import PydanticSerializationError
 
 from .routes.dsl import router as dsl_router, ws_router as dsl_ws_router
 from .routes.geometry import router as geometry_router
 from .routes.system import router as system_router
 
 
+def _printable(text: object) -> str:
+    return str(text).encode("utf-8", "backslashreplace").decode("utf-8")
+
+
+async def _invalid_request(request: Request, exc: RequestValidationError) -> JSONResponse:
+    """Describe a rejected request without echoing its input.
+
+    The input may hold values (NaN, lone surrogates) that a JSON response
+    cannot carry.
+    """
+    errors = [
+        {
+            "type": err.get("type"),
+            "loc": [part if isinstance(part, int) else _printable(part) for part in err.get("loc", ())],
+            "msg": _printable(err.get("msg")),
+        }
+        for err in exc.errors()
+    ]
+    return JSONResponse(status_code=422, content={"detail": errors})
+
+
+async def _unrepresentable_result(request: Request, exc: Exception) -> JSONResponse:
+    return JSONResponse(status_code=400, content={"detail": _printable(f"Result cannot be represented as JSON: {exc}")})
+
+
 def create_app() -> FastAPI:
     app = FastAPI(title="yapCAD Service", version="0.1.0")
 
@@ -20,6 +48,10 @@ def create_app() -> FastAPI:
         allow_headers=["*"],
     )
 
+    app.add_exception_handler(RequestValidationError, _invalid_request)
+    app.add_exception_handler(PydanticSerializationError, _unrepresentable_result)
+    app.add_exception_handler(UnicodeEncodeError, _unrepresentable_result)
+
     app.include_router(system_router)
     app.include_router(dsl_router)
     app.include_router(dsl_ws_router)
diff --git a/service/routes/dsl.py b/service/routes/dsl.py
index 096d013..e295baa 100644
--- a/service/routes/dsl.py
+++ b/service/routes/dsl.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import math
 import time
 from typing import Any, Dict
 
@@ -107,6 +108,8 @@ def dsl_commands(req: DslParseRequest):
             ptype = ta.get("name", "any") if isinstance(ta, dict) else "any"
             dv = p.get("default_value")
             default = dv.get("value") if isinstance(dv, dict) and "value" in dv else None
+            if isinstance(default, float) and not math.isfinite(default):
+                default = None  # JSON has no literal for it
             param_info: Dict[str, Any] = {"name": p["name"], "type": ptype, "default": default}
             ui_hint = p.get("ui_hint")
             if ui_hint:
@@ -153,13 +156,17 @@ async def dsl_ui_eval(req: DslUiEvalRequest) -> DslUiEvalResponse:
     if not result.success:
         return DslUiEvalResponse(success=False, error_message=result.error_message)
 
-    raw = result.emit_result
-    if raw is None:
+    if result.emit_result is None:
         return DslUiEvalResponse(success=False, error_message="Command did not emit a value")
 
+    # emit_result is an EmitResult wrapper; .data is the raw Python value
+    raw = result.emit_result.data
+
     # Coerce to list of scalars
     values = raw if isinstance(raw, list) else [raw]
     type_name = type(values[0]).__name__ if values else "unknown"
+    if type_name == "str":
+        type_name = "string"
     return DslUiEvalResponse(success=True, values=values, type=type_name)
 
 
-- 
2.43.0


From 80168a1af49ee8765fafaadcc601be48570f4f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 16/80] fix: vertex welding no longer shares its table between
 threads or recycled lists

---
 src/yapcad/geom3d_util.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index b703487..519dcbb 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -8,6 +8,7 @@ from yapcad.geom3d import *
 from yapcad.brep import attach_brep_to_solid, occ_available, BrepSolid
 
 import math
+import threading
 
 """
 ==================================================
@@ -175,8 +176,20 @@ icaIndices = [ [1,11,3],[3,11,5],[5,11,7],[7,11,9],[9,11,1],
                [2,1,3],[2,3,4],[4,3,5],[4,5,6],[6,5,7],[6,7,8],[8,7,9],[8,9,10],[10,9,1],[10,1,2],
                [0,2,4],[0,4,6],[0,6,8],[0,8,10],[0,10,2] ]
 
-vertexHash = {}
-_vertexHash_owner = None
+class _VertexTable(threading.local):
+    """Spatial hash of the vertex list most recently passed to addVertex.
+
+    Kept per thread, and holding the list itself rather than its ``id()``, so
+    that neither another thread nor a new list at a recycled address can be
+    served someone else's entries.
+    """
+    owner = None
+    table = None
+
+
+_vertex_table = _VertexTable()
+
+
 def addVertex(nv,nn,verts,normals):
     """
     Utility function that takes a vertex and associated normal and a
@@ -187,11 +200,10 @@ def addVertex(nv,nn,verts,normals):
 
     returns the index, and the (potentiall updated) lists
     """
-    global vertexHash, _vertexHash_owner
-    owner_id = id(verts)
-    if _vertexHash_owner != owner_id or len(verts) == 0:
-        vertexHash = {}
-        _vertexHash_owner = owner_id
+    if _vertex_table.owner is not verts or len(verts) == 0:
+        _vertex_table.owner = verts
+        _vertex_table.table = {}
+    vertexHash = _vertex_table.table
 
     found = False
     # Normalize tiny values to avoid "-0.00" != "0.00" hash key mismatch
-- 
2.43.0


From 78b58e37f708906a9a10834d45cdcd96d728e024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 17/80] fix: catalogue lookups hand out copies, so callers
 cannot change later lookups

---
 src/yapcad/fasteners/catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/fasteners/catalog.py b/src/yapcad/fasteners/catalog.py
index 76195f8..7bcfe62 100644
--- a/src/yapcad/fasteners/catalog.py
+++ b/src/yapcad/fasteners/catalog.py
@@ -17,6 +17,7 @@ Example:
 
 from __future__ import annotations
 
+import copy
 import os
 import sys
 from pathlib import Path
@@ -191,7 +192,8 @@ def load_catalog(
         )
 
     custom_str = str(custom_path) if custom_path else None
-    return _load_catalog_cached(thread_series, custom_str)
+    # a copy: callers own what they get, the cache keeps the original
+    return copy.deepcopy(_load_catalog_cached(thread_series, custom_str))
 
 
 def list_available_sizes(
-- 
2.43.0


From b048533ea30576207778fb71cdcb4b22c898e8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 18/80] fix: generated surfaces no longer share default centres
 and face tables with the library

---
 src/yapcad/geom3d_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 519dcbb..0df2a22 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -285,7 +285,7 @@ def sphereSurface(diameter,center=point(0,0,0),depth=2):
     ## subdivision works only when center is origin, so we add
     ## any center offset after we subdivide
     verts,normals = makeIcoPoints(point(0,0,0),rad)
-    faces = icaIndices
+    faces = [list(f) for f in icaIndices]
 
     for i in range(depth):
         ff = []
@@ -605,7 +605,7 @@ def circleSurface(center,radius,angr=None,zup=True,chord_error=None,max_chord=No
 
     samples = round(360.0/angr)
     angr = 360.0/samples
-    basep=[center]
+    basep=[list(center)]    # a copy: the default centre must not be shared with results
     
     for i in range(samples):
         theta = i*angr*pi2/360.0
-- 
2.43.0


From f8fd431ab91cd09a9bb8e630648ba6866f33bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:45 +0000
Subject: [PATCH 19/80] fix: kinematic chains never return stale transforms and
 import in a fixed order

---
 src/yapcad/kinematics/chain.py | 71 +++++++++++++++++++++-------------
 src/yapcad/kinematics/part.py  | 22 +++++++++--
 2 files changed, 62 insertions(+), 31 deletions(-)

diff --git a/src/yapcad/kinematics/chain.py b/src/yapcad/kinematics/chain.py
index c711740..8b508cf 100644
--- a/src/yapcad/kinematics/chain.py
+++ b/src/yapcad/kinematics/chain.py
@@ -8,6 +8,7 @@ from __future__ import annotations
 
 import json
 import logging
+import os
 from pathlib import Path
 from typing import Dict, List, Optional, Any
 
@@ -164,41 +165,46 @@ class KinematicChain:
         :param frame_name: Frame on the part (default "ORIGIN")
         :returns: World transform (from global origin to part frame)
 
-        This method uses caching for efficiency. Transform is recomputed
-        only when a joint value changes in the ancestor chain.
+        This method uses caching for efficiency. A cached transform is
+        reused only while the joint, the attachment frame and the parent's
+        transform it was computed from are unchanged. The result belongs
+        to the caller.
         """
         if part_name not in self.parts:
             raise ValueError(f"Part '{part_name}' not found")
 
         part = self.parts[part_name]
 
-        # Compute part world transform if not cached
-        if not part.is_cache_valid():
-            if part.parent is None or part.name == self.DATUM_NAME:
-                # Root node - identity
-                part.set_cached_world_transform(Transform.identity())
-            else:
-                # Recursive: get parent world transform at attachment frame
-                parent_world = self.get_world_transform(
-                    part.parent, part.parent_frame
-                )
-                # Apply joint transform
-                joint_tf = part.joint.get_transform()
-                world_tf = parent_world @ joint_tf
-                part.set_cached_world_transform(world_tf)
-
-        # Get part world transform and apply frame offset
-        part_world = part.get_cached_world_transform()
-        if part_world is None:
+        if part.parent is None or part.name == self.DATUM_NAME:
+            # Root node - identity
             part_world = Transform.identity()
+        else:
+            # Recursive: get parent world transform at attachment frame
+            parent_world = self.get_world_transform(
+                part.parent, part.parent_frame
+            )
+            joint = part.joint
+            inputs = (
+                parent_world.matrix.tobytes(),
+                joint.joint_type,
+                tuple(joint.axis),
+                joint.value,
+                joint.base_transform.matrix.tobytes(),
+            )
+            part_world = part.get_cached_world_transform(inputs)
+            if part_world is None:
+                # Apply joint transform
+                part_world = parent_world @ joint.get_transform()
+                part.set_cached_world_transform(part_world, inputs)
 
+        # Apply frame offset
         if frame_name == "ORIGIN":
-            return part_world
+            return Transform(part_world.matrix.copy())
 
         frame = part.get_frame(frame_name)
         if frame is None:
             logger.warning(f"Frame '{frame_name}' not found on '{part_name}'")
-            return part_world
+            return Transform(part_world.matrix.copy())
 
         return part_world @ frame.get_transform()
 
@@ -327,9 +333,20 @@ class KinematicChain:
         :param include_world_transforms: If True, include computed world transforms
         """
         data = self.to_dict(include_world_transforms)
-        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
-        with open(filepath, 'w') as f:
-            json.dump(data, f, indent=2)
+        path = Path(os.path.realpath(filepath))
+        path.parent.mkdir(parents=True, exist_ok=True)
+        # Write beside the target and swap it in, so that a failed export
+        # never leaves a truncated file
+        tmp = path.with_name(path.name + ".tmp")
+        try:
+            with open(tmp, 'w') as f:
+                json.dump(data, f, indent=2)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmp, path)
+        except BaseException:
+            tmp.unlink(missing_ok=True)
+            raise
 
     def to_dict(self, include_world_transforms: bool = True) -> dict:
         """Convert chain to dictionary.
@@ -401,7 +418,7 @@ class KinematicChain:
 
         # Simple topological sort
         sorted_names = []
-        remaining = set(dependencies.keys())
+        remaining = list(dependencies.keys())
 
         while remaining:
             # Find parts with no remaining dependencies
@@ -414,7 +431,7 @@ class KinematicChain:
                 sorted_names.extend(remaining)
                 break
             sorted_names.extend(ready)
-            remaining -= set(ready)
+            remaining = [name for name in remaining if name not in ready]
 
         return sorted_names
 
diff --git a/src/yapcad/kinematics/part.py b/src/yapcad/kinematics/part.py
index d761153..42ab88d 100644
--- a/src/yapcad/kinematics/part.py
+++ b/src/yapcad/kinematics/part.py
@@ -69,6 +69,9 @@ class KinematicPart:
     _world_transform: Optional[Transform] = field(
         default=None, repr=False, compare=False
     )
+    _transform_inputs: Optional[tuple] = field(
+        default=None, repr=False, compare=False
+    )
     _transform_dirty: bool = field(default=True, repr=False, compare=False)
 
     def __post_init__(self):
@@ -114,15 +117,26 @@ class KinematicPart:
         object.__setattr__(self, '_transform_dirty', True)
         object.__setattr__(self, '_world_transform', None)
 
-    def set_cached_world_transform(self, transform: Transform) -> None:
-        """Set cached world transform (called by KinematicChain)."""
+    def set_cached_world_transform(
+        self, transform: Transform, inputs: Optional[tuple] = None
+    ) -> None:
+        """Set cached world transform (called by KinematicChain).
+
+        :param transform: The world transform
+        :param inputs: What it was computed from
+        """
         object.__setattr__(self, '_world_transform', transform)
+        object.__setattr__(self, '_transform_inputs', inputs)
         object.__setattr__(self, '_transform_dirty', False)
 
-    def get_cached_world_transform(self) -> Optional[Transform]:
-        """Get cached world transform if valid."""
+    def get_cached_world_transform(
+        self, inputs: Optional[tuple] = None
+    ) -> Optional[Transform]:
+        """Get cached world transform if valid (for these inputs, if given)."""
         if self._transform_dirty:
             return None
+        if inputs is not None and inputs != self._transform_inputs:
+            return None
         return self._world_transform
 
     def is_cache_valid(self) -> bool:
-- 
2.43.0


From 2f251c4fdb2022b91d414a07a1000359bc706da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 20/80] fix: datum-bound coordinate frames resolve their datum

---
 src/yapcad/kinematics/frame.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/kinematics/frame.py b/src/yapcad/kinematics/frame.py
index 11bee8b..d13ca67 100644
--- a/src/yapcad/kinematics/frame.py
+++ b/src/yapcad/kinematics/frame.py
@@ -93,8 +93,9 @@ class CoordinateFrame:
         :returns: Transform if found, None otherwise
         """
         try:
-            from yapcad.assembly.datum_registry import DatumRegistry
-            from yapcad.assembly.face_mate import datum_to_transform_matrix
+            from yapcad.assembly.datum_registry import (
+                DatumRegistry, datum_to_transform_matrix
+            )
 
             datum = DatumRegistry.get_datum(self.datum_source, self.datum_name)
             if datum is not None:
-- 
2.43.0


From 7b8e6b9149954b987e1d0fc41e3ea31bee1e3c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 21/80] fix: datum registry retries sources it could not find
 or read

---
 src/yapcad/assembly/datum_registry.py | 63 ++++++++++++++++-----------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index 1707267..e0795ac 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -199,7 +199,11 @@ class DatumRegistry:
         """
         instance = cls._get_instance()
 
-        if source_id not in instance._sources:
+        # A datum is added to what the source already provides
+        if source_id not in instance._loaded_sources:
+            instance._load_source(source_id)
+
+        if source_id not in instance._loaded_sources:
             instance._sources[source_id] = DatumSource(
                 source_id=source_id,
                 source_type="programmatic",
@@ -283,22 +287,27 @@ class DatumRegistry:
         1. JSON surrogate file
         2. DSL file (via sidecar JSON)
         3. Part name lookup in already-loaded sources
+
+        Only a source that was found and read counts as loaded; anything
+        else is looked for again the next time it is asked for.
         """
         # Try to find the file
         file_path = self._find_source_file(source)
 
         if file_path:
             if file_path.endswith('.json'):
-                self._load_surrogate_json(source, file_path)
+                loaded = self._load_surrogate_json(source, file_path)
             elif file_path.endswith('.dsl'):
-                self._load_dsl_datums(source, file_path)
+                loaded = self._load_dsl_datums(source, file_path)
             else:
                 logger.warning(f"Unknown source file type: {file_path}")
+                loaded = False
         else:
             # Try as a part name in already-loaded sources
-            self._try_part_name_lookup(source)
+            loaded = self._try_part_name_lookup(source)
 
-        self._loaded_sources.add(source)
+        if loaded:
+            self._loaded_sources.add(source)
 
     def _find_source_file(self, source: str) -> Optional[str]:
         """Find the source file in search paths.
@@ -325,9 +334,11 @@ class DatumRegistry:
 
         return None
 
-    def _load_surrogate_json(self, source_id: str, json_path: str) -> None:
+    def _load_surrogate_json(self, source_id: str, json_path: str) -> bool:
         """Load datums from a COTS surrogate JSON file.
 
+        Returns True if the file could be read.
+
         JSON structure expected:
         {
             "part_name": "XH430-W350",
@@ -346,7 +357,10 @@ class DatumRegistry:
         try:
             with open(json_path, 'r') as f:
                 data = json.load(f)
-        except (json.JSONDecodeError, IOError) as e:
+            if not isinstance(data, dict):
+                raise ValueError("not a JSON object")
+            datum_items = (data.get('datums') or {}).items()
+        except (ValueError, AttributeError, RecursionError, OSError) as e:
             logger.error(f"Failed to load surrogate JSON '{json_path}': {e}")
             self._sources[source_id] = DatumSource(
                 source_id=source_id,
@@ -355,21 +369,22 @@ class DatumRegistry:
                 datums={},
                 metadata={"error": str(e)}
             )
-            return
+            return False
 
         datums = {}
-        for name, datum_data in data.get('datums', {}).items():
+        for name, datum_data in datum_items:
             try:
                 datum = self._datum_from_dict(name, datum_data)
                 datums[name] = datum
-            except (KeyError, ValueError) as e:
+            except (KeyError, ValueError, TypeError, AttributeError) as e:
                 logger.warning(f"Failed to parse datum '{name}' from "
                              f"'{json_path}': {e}")
 
         # Also register by part_name if present
         part_names = {source_id}
-        if 'part_name' in data:
-            part_names.add(data['part_name'])
+        part_name = data.get('part_name')
+        if isinstance(part_name, str):
+            part_names.add(part_name)
 
         source = DatumSource(
             source_id=source_id,
@@ -388,19 +403,21 @@ class DatumRegistry:
         self._sources[source_id] = source
 
         # Also register by part name for easy lookup
-        if 'part_name' in data and data['part_name'] != source_id:
-            self._sources[data['part_name']] = source
+        # (what was registered under that name explicitly stays)
+        if isinstance(part_name, str) and part_name not in self._loaded_sources:
+            self._sources[part_name] = source
+        return True
 
-    def _load_dsl_datums(self, source_id: str, dsl_path: str) -> None:
+    def _load_dsl_datums(self, source_id: str, dsl_path: str) -> bool:
         """Load datums from a DSL file via sidecar JSON.
 
         DSL files can export datum metadata to a sidecar JSON file
         with the same name but .datums.json extension.
         """
         # Check for sidecar JSON
-        sidecar_path = dsl_path.replace('.dsl', '.datums.json')
+        sidecar_path = dsl_path[:-len('.dsl')] + '.datums.json'
         if os.path.exists(sidecar_path):
-            self._load_surrogate_json(source_id, sidecar_path)
+            return self._load_surrogate_json(source_id, sidecar_path)
         else:
             # DSL file exists but no datum sidecar
             logger.info(f"DSL file '{dsl_path}' has no datum sidecar "
@@ -412,21 +429,17 @@ class DatumRegistry:
                 datums={},
                 metadata={"no_datums": True}
             )
+            return False
 
-    def _try_part_name_lookup(self, source: str) -> None:
+    def _try_part_name_lookup(self, source: str) -> bool:
         """Try to find datums by part name in already-loaded sources."""
         for src_id, src in self._sources.items():
             if source in src.part_names:
                 # Found it - create an alias
                 self._sources[source] = src
-                return
+                return True
 
-        # Not found - create empty source
-        self._sources[source] = DatumSource(
-            source_id=source,
-            source_type="not_found",
-            datums={}
-        )
+        return False
 
     def _datum_from_dict(self, name: str, data: Dict[str, Any]) -> Datum:
         """Create a Datum from a dictionary representation.
-- 
2.43.0


From 140fdf0902cd976a3b762a8da03de5faf2ee23ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 22/80] fix: face-to-face mates can be computed, from the
 present datums and parent pose

---
 src/yapcad/assembly/face_mate.py | 40 ++++++++++++++------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 10b5c71..fe624b7 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -164,9 +164,6 @@ class FaceToFaceMate:
             logger.error("NumPy required for transform computation")
             return None
 
-        if self._computed_transform is not None:
-            return self._computed_transform
-
         # Load datums from registry
         from .datum_registry import DatumRegistry
 
@@ -176,13 +173,9 @@ class FaceToFaceMate:
         parent_datum = DatumRegistry.get_datum(parent_source, self.parent_datum)
         child_datum = DatumRegistry.get_datum(child_source, self.child_datum)
 
-        # Cache for later use
-        self._parent_datum_obj = parent_datum
-        self._child_datum_obj = child_datum
-
         # Compute transform based on constraint type
-        if self.constraint in (MateType.COINCIDENT, MateType.ALIGNED):
-            flip_normal = (self.constraint == MateType.COINCIDENT)
+        if self.constraint.name in ("COINCIDENT", "ALIGNED"):
+            flip_normal = (self.constraint.name == "COINCIDENT")
             tf = compute_flush_transform(
                 parent_datum, child_datum,
                 offset=self.offset_distance,
@@ -202,12 +195,16 @@ class FaceToFaceMate:
         else:
             raise ValueError(f"Unsupported constraint type: {self.constraint}")
 
+        # Keep the child-to-parent transform and the datums it came from
+        # for validate()
+        self._computed_transform = tf
+        self._parent_datum_obj = parent_datum
+        self._child_datum_obj = child_datum
+
         # Apply parent world transform if provided
         if parent_world_transform is not None:
-            tf = parent_world_transform @ tf
-
-        self._computed_transform = tf
-        return tf
+            return parent_world_transform @ tf
+        return tf.copy()
 
     def validate(self,
                  tolerance_mm: float = 0.1,
@@ -227,15 +224,14 @@ class FaceToFaceMate:
                 error_message="NumPy required for validation"
             )
 
-        # Ensure transform is computed
-        if self._computed_transform is None:
-            try:
-                self.compute_transform()
-            except (KeyError, ValueError) as e:
-                return MateValidationResult(
-                    satisfied=False,
-                    error_message=f"Failed to compute transform: {e}"
-                )
+        # Ensure transform is computed from the present mate and datums
+        try:
+            self.compute_transform()
+        except (KeyError, ValueError) as e:
+            return MateValidationResult(
+                satisfied=False,
+                error_message=f"Failed to compute transform: {e}"
+            )
 
         if self._parent_datum_obj is None or self._child_datum_obj is None:
             return MateValidationResult(
-- 
2.43.0


From ae6bbac0dee5a2d7765f6e26dd6a003673fa33cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 23/80] fix: mate solver no longer returns results of earlier
 inputs

---
 src/yapcad/assembly/solver.py | 42 ++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index f5e4d59..965b413 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -54,7 +54,7 @@ from __future__ import annotations
 
 import math
 import logging
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, replace
 from typing import Dict, List, Optional, Any, Tuple, Union
 
 from .datum import Datum, DatumType
@@ -181,6 +181,24 @@ class ValidationResult:
         return f"[INVALID] {'; '.join(self.error_messages)}"
 
 
+def _datum_geometry(datum: Datum) -> tuple:
+    """The part of a datum that mates are solved from, as a comparable value."""
+    return (datum.datum_type,) + tuple(
+        None if v is None else tuple(v)
+        for v in (datum.origin, datum.normal, datum.direction,
+                  datum.x_axis, datum.y_axis)
+    )
+
+
+def _copy_result(result: MateMateSolveResult) -> MateMateSolveResult:
+    """Copy a result, so that callers may modify theirs."""
+    return replace(
+        result,
+        transform=result.transform.copy(),
+        details=dict(result.details),
+    )
+
+
 # =============================================================================
 # MateConstraintSolver
 # =============================================================================
@@ -238,7 +256,7 @@ class MateConstraintSolver:
         self.tolerance = tolerance
         self.angle_tolerance = angle_tolerance
         self._use_cache = use_cache
-        self._cache: Dict[str, MateMateSolveResult] = {}
+        self._cache: Dict[str, Tuple[tuple, MateMateSolveResult]] = {}
 
     def solve_mate(
         self,
@@ -256,10 +274,7 @@ class MateConstraintSolver:
         The returned transform positions the child part origin in the parent
         part's coordinate frame such that the mate constraint is satisfied.
         """
-        # Check cache
         cache_key = f"{mate.name}:{mate_axis}"
-        if self._use_cache and cache_key in self._cache:
-            return self._cache[cache_key]
 
         try:
             # Get datums from registry
@@ -277,6 +292,21 @@ class MateConstraintSolver:
                     error_message=f"Datum not found: {mate.part_b}.{mate.datum_b}"
                 )
 
+            # A cached result is valid only for the inputs it was solved from
+            inputs = (
+                mate.mate_type,
+                mate.offset,
+                mate.angle,
+                _datum_geometry(datum_a),
+                _datum_geometry(datum_b),
+                None if parent_world_transform is None
+                else np.asarray(parent_world_transform, dtype=float).tobytes(),
+            )
+            if self._use_cache and cache_key in self._cache:
+                cached_inputs, cached = self._cache[cache_key]
+                if cached_inputs == inputs:
+                    return _copy_result(cached)
+
             # Dispatch to constraint-specific solver
             transform = self._solve_constraint(mate.mate_type, datum_a, datum_b, mate)
 
@@ -300,7 +330,7 @@ class MateConstraintSolver:
 
             # Cache result
             if self._use_cache:
-                self._cache[cache_key] = result
+                self._cache[cache_key] = (inputs, _copy_result(result))
 
             return result
 
-- 
2.43.0


From 2636f72c66af2aadd1d1ee3b52e97aa628caa7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:35 +0000
Subject: [PATCH 24/80] fix: DatumRegistry.register_part accepts part
 definitions

---
 src/yapcad/assembly/datum_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index e0795ac..bce59c3 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -223,7 +223,7 @@ class DatumRegistry:
         """
         instance = cls._get_instance()
 
-        datums = {d.name: d for d in part.datums}
+        datums = {d.name: d for d in part.datums.values()}
         cls.register_source(
             source_id=part.name,
             datums=datums,
-- 
2.43.0


From 60ab752fdc04a6d144a32d160725695c65d15589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 25/80] fix: fastener catalogues refuse malformed files cleanly
 and follow relative paths

---
 src/yapcad/fasteners/catalog.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/fasteners/catalog.py b/src/yapcad/fasteners/catalog.py
index 7bcfe62..3fc4eb0 100644
--- a/src/yapcad/fasteners/catalog.py
+++ b/src/yapcad/fasteners/catalog.py
@@ -133,7 +133,10 @@ def _load_catalog_impl(thread_series: str, custom_path: Optional[Path]) -> Dict[
 def _load_yaml(path: Path) -> Dict[str, Any]:
     """Load and validate a YAML catalog file."""
     with open(path, 'r', encoding='utf-8') as f:
-        data = yaml.safe_load(f)
+        try:
+            data = yaml.safe_load(f)
+        except yaml.YAMLError as e:
+            raise ValueError(f"Invalid catalog format in {path}: {e}") from e
 
     if not isinstance(data, dict):
         raise ValueError(f"Invalid catalog format in {path}: expected dict at root")
@@ -149,6 +152,8 @@ def _load_yaml(path: Path) -> Dict[str, Any]:
     # Basic structure validation
     if "sizes" not in data:
         raise ValueError(f"Catalog {path} missing required 'sizes' section")
+    if not isinstance(data["sizes"], dict):
+        raise ValueError(f"Invalid catalog format in {path}: 'sizes' must be a mapping")
 
     # Record source path for debugging
     data["_source_path"] = str(path)
@@ -191,7 +196,8 @@ def load_catalog(
             f"Available: {list(THREAD_SERIES.keys())}"
         )
 
-    custom_str = str(custom_path) if custom_path else None
+    # absolute: a relative path names another file after a change of directory
+    custom_str = os.path.abspath(custom_path) if custom_path else None
     # a copy: callers own what they get, the cache keeps the original
     return copy.deepcopy(_load_catalog_cached(thread_series, custom_str))
 
-- 
2.43.0


From 389fe2b72ac5367bba8484c7ef7363c4d7e91384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 26/80] fix: figures, Booleans and trees no longer answer from
 stale or half-built state

---
 src/yapcad/combine.py  | 50 +++++++++++++++++++++++-------------------
 src/yapcad/geometry.py | 37 +++++++++++++++++++------------
 src/yapcad/octtree.py  |  8 +++++--
 src/yapcad/poly.py     |  9 ++++----
 4 files changed, 61 insertions(+), 43 deletions(-)

diff --git a/src/yapcad/combine.py b/src/yapcad/combine.py
index 3054d28..67402a1 100644
--- a/src/yapcad/combine.py
+++ b/src/yapcad/combine.py
@@ -91,33 +91,34 @@ class Boolean(Geometry):
 
             return scale3(p,1/l)
 
+    def _applyToOperands(self,change):
+        """apply ``change`` to every operand, or to none if one refuses it"""
+        saved = deepcopy(self.elem)
+        try:
+            for p in self.elem:
+                change(p)
+        except Exception:
+            self._setElem(saved)
+            raise
+        finally:
+            self._setUpdate(True)
+
     def translate(self,delta):
-        self._setUpdate(True)
-        for p in self.elem:
-            p.translate(delta)
+        self._applyToOperands(lambda p: p.translate(delta))
 
     def scale(self,sx,sy=False,sz=False,cent=point(0,0)):
-        self._setUpdate(True)
-        for p in self.elem:
-            p.scale(sx,sy,sz,cent)
+        self._applyToOperands(lambda p: p.scale(sx,sy,sz,cent))
 
     def rotate(self,angle,cent=point(0,0,0),axis=point(0,0,1)):
-        self._setUpdate(True)
-        for p in self.elem:
-            p.rotate(angle,cent,axis)
+        self._applyToOperands(lambda p: p.rotate(angle,cent,axis))
 
     def mirror(self,plane):
-        self._setUpdate(True)
-        for p in self.elem:
-            p.mirror(plane)
+        self._applyToOperands(lambda p: p.mirror(plane))
 
     def transform(self,m):
-        self._setUpdate(True)
-        for p in self.elem:
-            p.transform(m)
-            
-    @property
-    def geom(self):
+        self._applyToOperands(lambda p: p.transform(m))
+
+    def _updateInternals(self):
         if self.update:
             if len(self.elem) < 2:
                 raise ValueError('Boolean requires at least two operands')
@@ -127,10 +128,13 @@ class Boolean(Geometry):
                 result = self._combine_geom(result, operand)
 
             self.__outline = cullZeroLength(result)
-            self._setUpdate(False)
-            self._setBbox(bbox(self.__outline))
-            self._setLength(length(self.__outline))
+            self._setBbox(bbox(self.__outline) if self.__outline else None)
+            self._setLength(length(self.__outline) if self.__outline else 0.0)
             self._setCenter(self._calcCenter())
+            self._setUpdate(False)
+
+    @property
+    def geom(self):
+        if self.update:
+            self._updateInternals()
         return deepcopy(self.__outline)
-        
-        
diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 38dacd5..4f76404 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -296,7 +296,7 @@ class Geometry:
         """return center of figure"""
         if self.update:
             self._updateInternals()
-        return self.__center
+        return deepcopy(self.__center)
 
     def _setCenter(self,c):
         self.__center=c
@@ -306,7 +306,7 @@ class Geometry:
         """return 3D bounding box of figure"""
         if self.update:
             self._updateInternals()
-        return self.__bbox
+        return deepcopy(self.__bbox)
 
     def _setBbox(self,bbx):
         self.__bbox=bbx
@@ -490,7 +490,6 @@ class Geometry:
     def _updateInternals(self):
         """update internals: set basic attributes based on geom"""
         if self.update:
-            self._setUpdate(False)
             if self.__elem == []:
                 self.__length = 0.0
                 self.__center = None
@@ -516,6 +515,7 @@ class Geometry:
                 # No length for solids; use bbox/center from surfaces
                 self.__length = 0.0
                 try:
+                    self.__bbox = None
                     if has_brep_data(self.__elem) and _GEOMETRY_HAVE_OCC:
                         brep = brep_from_solid(self.__elem)
                         if brep:
@@ -539,10 +539,12 @@ class Geometry:
                     except Exception:
                         self.__bbox = None
                         self.__center = None
-                    return
-                self.__length = length(self.__elem)
-                self.__center = center(self.__elem)
-                self.__bbox = bbox(self.__elem)
+                else:
+                    self.__length = length(self.__elem)
+                    self.__center = center(self.__elem)
+                    self.__bbox = bbox(self.__elem)
+            # only now: a figure whose update failed is still out of date
+            self._setUpdate(False)
 
         return
 
@@ -553,8 +555,11 @@ class Geometry:
         return self.__update
 
     def _setUpdate(self,bln):
-        """method to set status of __update, accessible from derived classes"""
+        """method to set status of __update, accessible from derived classes.
+        Flagging an update also drops the cached surface."""
         self.__update = bln
+        if bln:
+            self._clearSurfaceCache()
 
     @update.setter
     def update(self,bln):
@@ -571,6 +576,7 @@ class Geometry:
     @elem.setter
     def elem(self,e):
         self._setElem(e)
+        self._setUpdate(True)
 
     def _clearSurfaceCache(self):
         """Reset cached tessellation so it can be regenerated."""
@@ -703,15 +709,16 @@ class Geometry:
         if (self.__surface and
             close(self.__surface_ang,minang) and
             close(self.__surface_len,minlen)):
-            return self.__surface
-        self.__surface_ang = minang
-        self.__surface_len = minlen
-        
+            return deepcopy(self.__surface)
+        self._clearSurfaceCache()
+
         if is_brep(self.__elem) and isinstance(self.__elem, BrepSolid):
             if not _GEOMETRY_HAVE_OCC:
                 require_occ()
             self.__surface = self.__elem.tessellate()
-            return self.__surface
+            self.__surface_ang = minang
+            self.__surface_len = minlen
+            return deepcopy(self.__surface)
 
         geo = self.geom
         if len(geo) == 0:
@@ -723,8 +730,10 @@ class Geometry:
             ply, holes = geomlist2poly_with_holes(geo, minang, minlen)
 
         self.__surface,bnd = poly2surface(ply, holepolys=holes, checkclosed=False)
+        self.__surface_ang = minang
+        self.__surface_len = minlen
 
-        return self.__surface
+        return deepcopy(self.__surface)
 
 ## Utility functions
 
diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index 1b7d2d9..38be15c 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -427,11 +427,13 @@ class NTree():
             self.__maxdepth = 7
 
         self.__geom=[]
+        self.__bbox = None
+        self.__elem_idx_bbox = []
         if geom:
             ugeom = untag(geom)
             if isgeomlist(ugeom):
                 self.__bbox= bbox(ugeom)
-                self.__geom= geom
+                self.__geom= list(geom)
             else:
                 raise ValueError('geom must be valid geometry list, or None')
 
@@ -473,6 +475,7 @@ class NTree():
             return
 
         if not center:
+            self.__bbox = bbox(untag(self.__geom))
             self.__center = scale3(add(self.__bbox[0],
                                        self.__bbox[1]),0.5)
         else:
@@ -490,7 +493,6 @@ class NTree():
         if not self.__update or self.__geom == []:
             # nothing to do
             return
-        self.__update = False
 
         # striptags for bbox
         ugeom = untag(self.__geom)
@@ -504,6 +506,7 @@ class NTree():
             bxidxlist.append([i,bxlist[i]])
             
         self.__elem_idx_bbox = bxidxlist
+        self.__depth = 0
         
         if not self.__center:
             self.updateCenter()
@@ -551,6 +554,7 @@ class NTree():
                 
         self.__tree = recurse(self.__bbox, self.__center,
                               bxidxlist)
+        self.__update = False
         # print("bxidxlist: ",vstr(bxidxlist))
         # print("self.__tree",self.__tree)
 
diff --git a/src/yapcad/poly.py b/src/yapcad/poly.py
index 82a198e..7929259 100644
--- a/src/yapcad/poly.py
+++ b/src/yapcad/poly.py
@@ -60,11 +60,11 @@ class Polygon(Geometry):
         elif isgeomlist(a):
             for i in a:
                 if ispoint(i) or isarc(i):
-                    self.elem.append(i)
+                    self.elem.append(deepcopy(i))
                 elif isline(i):
                     pass
                 elif ispoly(i):
-                    self._setElem(self.elem + i)
+                    self._setElem(self.elem + deepcopy(i))
                 else:
                     raise ValueError("bad argument to Polygon constructor")
 
@@ -111,10 +111,11 @@ class Polygon(Geometry):
     
     def _updateInternals(self):
         if self.update:
-            self._setUpdate(False)
             self._makeoutline()
             self._setCenter(self._calcCenter())
             self._setBbox(bbox(self.__outline))
+            # only now: a polygon whose update failed is still out of date
+            self._setUpdate(False)
 
     def addPoint(self,element):
         if ispoint(element):
@@ -131,7 +132,7 @@ class Polygon(Geometry):
         if i < len(elem):
             elem[i]=point(p)
         elif i == len(elem):
-            elem.append(p)
+            elem.append(point(p))
         else:
             raise ValueError('index out of range in PolylinesetPoint(): '.format(i))
         self._setElem(elem)
-- 
2.43.0


From 31134780d6c846b86afd4b15f2526d9ae0c65ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 27/80] fix: a truncated STL file is refused instead of being
 read as a smaller model

---
 src/yapcad/io/stl.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index d512b0e..ae820e5 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -127,10 +127,10 @@ def _parse_binary_stl(data: bytes) -> List[Triangle]:
     tri_count = struct.unpack('<I', data[80:84])[0]
     triangles = []
     offset = 84
+    if len(data) < offset + 50 * tri_count:
+        raise ValueError(f"Invalid binary STL: {tri_count} triangles expected, file is truncated")
 
     for _ in range(tri_count):
-        if offset + 50 > len(data):
-            break
         values = _STRUCT_TRIANGLE.unpack(data[offset:offset + 50])
         normal = (values[0], values[1], values[2])
         v0 = (values[3], values[4], values[5])
@@ -165,6 +165,14 @@ def _parse_ascii_stl(text: str) -> List[Triangle]:
         v2 = (float(groups[9]), float(groups[10]), float(groups[11]))
         triangles.append(Triangle(normal=normal, v0=v0, v1=v1, v2=v2))
 
+    # Anything but complete facets closed by 'endsolid' is a damaged file,
+    # which must not pass for a smaller model
+    facets = re.findall(r'^\s*facet\b', text, re.IGNORECASE | re.MULTILINE)
+    if len(facets) != len(triangles):
+        raise ValueError(f"Invalid ASCII STL: {len(facets)} facets, {len(triangles)} of them complete")
+    if not re.search(r'^\s*endsolid\b', text, re.IGNORECASE | re.MULTILINE):
+        raise ValueError("Invalid ASCII STL: no 'endsolid', file is truncated or not STL")
+
     return triangles
 
 
@@ -259,6 +267,11 @@ def read_stl(path_or_file, *, deduplicate: bool = True) -> list:
         yapCAD solid containing a single surface with the imported mesh.
         The solid structure is: ['solid', [surface], boundary, holes]
 
+    Raises
+    ------
+    ValueError
+        If the file is truncated or is not an STL file.
+
     Examples
     --------
     >>> from yapcad.io.stl import read_stl, write_stl
-- 
2.43.0


From 8aacd4a45dac22a17f9ff22308133efa8e5c3811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 28/80] fix: exports replace files in one step, write sidecars
 that exist and load, and report sidecar failures

---
 src/yapcad/ezdxf_drawable.py | 11 ++++++--
 src/yapcad/ezdxf_exporter.py |  4 +--
 src/yapcad/io/meta_yaml.py   | 33 ++++++++++++++++------
 src/yapcad/io/replace.py     | 53 ++++++++++++++++++++++++++++++++++++
 src/yapcad/io/step.py        | 24 ++++++----------
 src/yapcad/io/stl.py         | 39 ++++++++++----------------
 6 files changed, 111 insertions(+), 53 deletions(-)
 create mode 100644 src/yapcad/io/replace.py

diff --git a/src/yapcad/ezdxf_drawable.py b/src/yapcad/ezdxf_drawable.py
index c63d6e7..105331f 100644
--- a/src/yapcad/ezdxf_drawable.py
+++ b/src/yapcad/ezdxf_drawable.py
@@ -26,6 +26,7 @@
 
 from yapcad.geom import *
 import yapcad.drawable as drawable
+from yapcad.io.replace import replacing
 import ezdxf
 from ezdxf.enums import TextEntityAlignment
 
@@ -221,6 +222,12 @@ class ezdxfDraw(drawable.Drawable):
                 align=alignment
             )
 
-    def display(self):
-        self.__doc.saveas("{}.dxf".format(self.filename))
+    def display(self, path=None):
+        """Write the drawing to ``path``, or to ``filename`` with ``.dxf`` added."""
+        if path is None:
+            path = "{}.dxf".format(self.filename)
+        doc = self.__doc
+        doc.filename = str(path)
+        with replacing(path, 'w', encoding=doc.output_encoding, errors='dxfreplace') as stream:
+            doc.write(stream)
 
diff --git a/src/yapcad/ezdxf_exporter.py b/src/yapcad/ezdxf_exporter.py
index 6b50168..64d7342 100644
--- a/src/yapcad/ezdxf_exporter.py
+++ b/src/yapcad/ezdxf_exporter.py
@@ -98,7 +98,7 @@ def write_dxf(geometry, output_path: str, layer: str = 'PATHS') -> bool:
     # Draw the geometry
     try:
         drawable.draw(geometry)
-        drawable.display()
+        drawable.display(path if path.suffix.lower() == '.dxf' else None)
         return True
     except Exception as e:
         print(f"DXF export error: {e}")
@@ -139,7 +139,7 @@ def write_dxf_multi(geometries: List[Any], output_path: str,
         for geom, layer in zip(geometries, layer_list):
             drawable.layer = layer
             drawable.draw(geom)
-        drawable.display()
+        drawable.display(path if path.suffix.lower() == '.dxf' else None)
         return True
     except Exception as e:
         print(f"DXF export error: {e}")
diff --git a/src/yapcad/io/meta_yaml.py b/src/yapcad/io/meta_yaml.py
index 597b943..1d2f15b 100644
--- a/src/yapcad/io/meta_yaml.py
+++ b/src/yapcad/io/meta_yaml.py
@@ -25,6 +25,8 @@ import os
 from pathlib import Path
 from typing import Any, Dict, Optional
 
+from yapcad.io.replace import replacing
+
 try:
     import yaml as _yaml
     _YAML_AVAILABLE = True
@@ -52,7 +54,7 @@ def dump_metadata_yaml(
     ----------
     part:
         A yapCAD solid, surface, or other geometry object that may carry a
-        metadata dict (retrieved via :func:`yapcad.metadata.get_metadata`).
+        metadata dict (see :mod:`yapcad.metadata`).
     geometry_path:
         Path to the already-written STEP/STL file.  Used to derive the
         default sidecar path and to compute ``_provenance.source_sha256``
@@ -115,8 +117,8 @@ def dump_metadata_yaml(
     ordered["_provenance"] = output.pop("_provenance")
     ordered.update(output)
 
-    with open(out_path, "w", encoding="utf-8") as f:
-        _yaml.dump(ordered, f, default_flow_style=False, allow_unicode=True, sort_keys=False)
+    with replacing(out_path, "w", encoding="utf-8") as f:
+        _yaml.safe_dump(_plain(ordered), f, default_flow_style=False, allow_unicode=True, sort_keys=False)
 
     return str(out_path)
 
@@ -181,12 +183,13 @@ def sidecar_path_for(geometry_path: str | os.PathLike) -> Path:
 
 def _extract_metadata(part: Any) -> Optional[Dict[str, Any]]:
     """Return the metadata dict from *part*, or ``None`` if absent."""
-    try:
-        from yapcad.metadata import get_metadata  # type: ignore[import]
-        meta = get_metadata(part)
-        return meta if meta else None
-    except (ImportError, Exception):
-        pass
+    from yapcad.geom3d import issolid, issurface
+    from yapcad.metadata import _SOLID_META_INDEX, _SURFACE_META_INDEX
+    if isinstance(part, list):
+        # read the slot itself: the metadata helpers add one where there is none
+        index = _SOLID_META_INDEX if issolid(part) else _SURFACE_META_INDEX if issurface(part) else None
+        meta = part[index] if index is not None and len(part) > index else None
+        return meta if isinstance(meta, dict) and meta else None
 
     # Fallback: check common attribute names used in yapCAD internals.
     for attr in ("_metadata", "metadata", "meta"):
@@ -197,6 +200,18 @@ def _extract_metadata(part: Any) -> Optional[Dict[str, Any]]:
     return None
 
 
+def _plain(value: Any) -> Any:
+    """Copy *value* with tuples and numpy values as the plain types that
+    :func:`load_metadata_yaml` can read back."""
+    if isinstance(value, dict):
+        return {k: _plain(v) for k, v in value.items()}
+    if isinstance(value, (list, tuple)):
+        return [_plain(v) for v in value]
+    if type(value).__module__ == "numpy" and hasattr(value, "tolist"):
+        return value.tolist()
+    return value
+
+
 def _build_provenance(
     geo_path: Path,
     source_dsl: Optional[str],
diff --git a/src/yapcad/io/replace.py b/src/yapcad/io/replace.py
new file mode 100644
index 0000000..a4cdf5a
--- /dev/null
+++ b/src/yapcad/io/replace.py
@@ -0,0 +1,53 @@
+"""Write files so that a reader never sees half of one."""
+
+from __future__ import annotations
+
+import contextlib
+import os
+import stat
+import uuid
+from typing import IO, Iterator
+
+
+@contextlib.contextmanager
+def replacing(path, mode: str = 'wb', **kwargs) -> Iterator[IO]:
+    """Open a stream whose content replaces ``path`` when the block ends.
+
+    The content goes to a temporary file in the same directory that is flushed
+    to disk and renamed over ``path``, so an export that fails or is
+    interrupted leaves the previous file (or none) as it was. Devices and
+    pipes are written directly.
+
+    :param path: file to replace; a symbolic link is followed
+    :param mode: ``'wb'`` or ``'w'``
+    :param kwargs: passed to :func:`open`
+    """
+    try:
+        target = os.path.realpath(path, strict=True)
+        mode_bits = os.stat(target).st_mode
+    except FileNotFoundError:
+        target = os.path.realpath(path)
+        mode_bits = None
+    if mode_bits is not None and not stat.S_ISREG(mode_bits):
+        with open(target, mode, **kwargs) as stream:
+            yield stream
+        return
+    if mode_bits is not None and not os.access(target, os.W_OK):
+        raise PermissionError(f"file is not writable: {os.fspath(path)}")
+
+    tmp = os.path.join(os.path.dirname(target), f".yapcad-{uuid.uuid4().hex}.tmp")
+    try:
+        with open(tmp, mode.replace('w', 'x'), **kwargs) as stream:
+            yield stream
+            stream.flush()
+            os.fsync(stream.fileno())
+        if mode_bits is not None:
+            os.chmod(tmp, stat.S_IMODE(mode_bits))
+        os.replace(tmp, target)
+    except BaseException:
+        with contextlib.suppress(FileNotFoundError):
+            os.unlink(tmp)
+        raise
+
+
+__all__ = ['replacing']
diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index 4037d70..eaf7028 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -5,11 +5,13 @@ from __future__ import annotations
 from collections import defaultdict
 from dataclasses import dataclass
 from typing import Dict, List, Optional, Sequence, TextIO, Tuple, Union
+import contextlib
 import os
 import tempfile
 from typing import Optional
 
 from yapcad.geometry_utils import triangles_from_mesh
+from yapcad.io.replace import replacing
 from yapcad.mesh import mesh_view
 
 Vec3 = Tuple[float, float, float]
@@ -420,21 +422,16 @@ def write_step(obj: Sequence,
     )
     writer.add(f"SHAPE_DEFINITION_REPRESENTATION(#{shape}, #{brep_shape})")
 
-    close_stream = False
-    if hasattr(path_or_file, 'write'):
-        stream = path_or_file
-    else:
-        stream = open(path_or_file, 'w', encoding='utf-8')
-        close_stream = True
+    with contextlib.ExitStack() as stack:
+        if hasattr(path_or_file, 'write'):
+            stream = path_or_file
+        else:
+            stream = stack.enter_context(replacing(path_or_file, 'w', encoding='utf-8'))
 
-    try:
         _write_header(stream, name, schema)
         stream.write("DATA;\n")
         writer.write(stream)
         stream.write("ENDSEC;\nEND-ISO-10303-21;\n")
-    finally:
-        if close_stream:
-            stream.close()
 
 
 def _write_header(stream: TextIO, name: str, schema: str) -> None:
@@ -527,11 +524,8 @@ def write_step_with_meta(
     write_step(obj, path, name=name)
     if not emit_sidecar:
         return None
-    try:
-        from yapcad.io.meta_yaml import dump_metadata_yaml
-        return dump_metadata_yaml(obj, path, source_dsl=source_dsl, source_command=source_command)
-    except Exception:
-        return None
+    from yapcad.io.meta_yaml import dump_metadata_yaml
+    return dump_metadata_yaml(obj, path, source_dsl=source_dsl, source_command=source_command)
 
 
 __all__ = ['write_step', 'write_step_analytic', 'write_step_with_meta']
diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index ae820e5..0a7a4f7 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import contextlib
 import io
 import os
 import re
@@ -11,6 +12,7 @@ from typing import Iterable, List, Optional, Sequence, TextIO, Tuple, Union
 from yapcad.geom import point, vect
 from yapcad.geom3d import surface, solid
 from yapcad.geometry_utils import Triangle, triangles_from_mesh, triangle_normal
+from yapcad.io.replace import replacing
 from yapcad.mesh import mesh_view
 
 _HEADER_SIZE = 80
@@ -33,14 +35,12 @@ def write_stl(obj: Sequence, path_or_file, *, binary: bool = True, name: str = '
 
 
 def _write_binary(triangles: Iterable[Triangle], path_or_file, name: str) -> None:
-    close_when_done = False
-    if hasattr(path_or_file, 'write'):
-        stream = path_or_file
-    else:
-        stream = open(path_or_file, 'wb')
-        close_when_done = True
+    with contextlib.ExitStack() as stack:
+        if hasattr(path_or_file, 'write'):
+            stream = path_or_file
+        else:
+            stream = stack.enter_context(replacing(path_or_file, 'wb'))
 
-    try:
         header = (name[:_HEADER_SIZE]).encode('ascii', errors='replace')
         header = header.ljust(_HEADER_SIZE, b' ')
         stream.write(header)
@@ -55,20 +55,15 @@ def _write_binary(triangles: Iterable[Triangle], path_or_file, name: str) -> Non
                 0,
             )
             stream.write(data)
-    finally:
-        if close_when_done:
-            stream.close()
 
 
 def _write_ascii(triangles: Iterable[Triangle], path_or_file, name: str) -> None:
-    close_when_done = False
-    if hasattr(path_or_file, 'write'):
-        stream = path_or_file
-    else:
-        stream = open(path_or_file, 'w', encoding='ascii')
-        close_when_done = True
+    with contextlib.ExitStack() as stack:
+        if hasattr(path_or_file, 'write'):
+            stream = path_or_file
+        else:
+            stream = stack.enter_context(replacing(path_or_file, 'w', encoding='ascii'))
 
-    try:
         print(f"solid {name}", file=stream)
         for tri in triangles:
             print(f"  facet normal {tri.normal[0]:.6e} {tri.normal[1]:.6e} {tri.normal[2]:.6e}", file=stream)
@@ -79,9 +74,6 @@ def _write_ascii(triangles: Iterable[Triangle], path_or_file, name: str) -> None
             print("    endloop", file=stream)
             print("  endfacet", file=stream)
         print(f"endsolid {name}", file=stream)
-    finally:
-        if close_when_done:
-            stream.close()
 
 
 # ---------------------------------------------------------------------------
@@ -367,11 +359,8 @@ def write_stl_with_meta(
     write_stl(obj, path, binary=binary, name=name)
     if not emit_sidecar:
         return None
-    try:
-        from yapcad.io.meta_yaml import dump_metadata_yaml
-        return dump_metadata_yaml(obj, path, source_dsl=source_dsl, source_command=source_command)
-    except Exception:
-        return None
+    from yapcad.io.meta_yaml import dump_metadata_yaml
+    return dump_metadata_yaml(obj, path, source_dsl=source_dsl, source_command=source_command)
 
 
 __all__ = ['write_stl', 'read_stl', 'import_stl', 'write_stl_with_meta']
-- 
2.43.0


From 54b9b758772e70dfaa4f64a82db31befd44fd834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 29/80] fix: geometry documents keep sketches, free surfaces
 and copies beside solids

---
 src/yapcad/io/geometry_json.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 73c0a4a..92723bf 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -372,7 +372,12 @@ def geometry_to_json(
                     set_layer(meta, layer)
                 meta.update({k: v for k, v in metadata_override.items() if k != "layer"})
             surface_entry = _serialize_surface(entity, metadata_override)
-            surface_cache.setdefault(surface_entry["id"], surface_entry)
+            if surface_entry["id"] in surface_cache:
+                # a copy that kept its original's id, or a face of a solid given on its own
+                new_id = uuid.uuid4().hex
+                surface_entry["metadata"] = dict(surface_entry["metadata"], entityId=new_id, id=new_id)
+                surface_entry["id"] = new_id
+            surface_cache[surface_entry["id"]] = surface_entry
         elif isgeomlist(entity):
             sketch_entry = _serialize_sketch(entity, metadata_override)
             serialized_entities.append(sketch_entry)
@@ -408,7 +413,11 @@ def _rehydrate_surface(entry: Dict[str, Any]) -> list:
 
 
 def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
-    """Deserialize geometry JSON into yapCAD list structures."""
+    """Deserialize geometry JSON into yapCAD list structures.
+
+    Returns the document's solids, then its sketches, then the surfaces that
+    are not part of any solid.
+    """
     if doc.get("schema") != SCHEMA_ID:
         raise ValueError(f"unsupported geometry schema: {doc.get('schema')}")
 
@@ -421,6 +430,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
 
     surfaces: Dict[str, list] = {}
     solids: List[list] = []
+    shell_ids = set()
 
     # First pass: instantiate surfaces explicitly listed
     for entry in doc.get("entities", []):
@@ -433,6 +443,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
             continue
         shell_surfaces: List[list] = []
         for sid in entry.get("shell", []):
+            shell_ids.add(sid)
             surface = surfaces.get(sid)
             if surface is None:
                 surf_entry = entries_by_id.get(sid)
@@ -446,6 +457,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
         for void_ids in entry.get("voids", []):
             void_surfaces: List[list] = []
             for sid in void_ids:
+                shell_ids.add(sid)
                 surface = surfaces.get(sid)
                 if surface is None:
                     surf_entry = entries_by_id.get(sid)
@@ -463,13 +475,11 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
         brep_from_solid(solid)
         solids.append(solid)
 
-    if solids:
-        return solids
     sketches = [
         entry for entry in doc.get("entities", []) if entry.get("type") == "sketch"
     ]
+    geomlists: List[list] = []
     if sketches:
-        geomlists: List[list] = []
         for sketch in sketches:
             primitives = sketch.get("primitives") or []
             elements: List[list] = []
@@ -570,9 +580,10 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                 polylines.extend(segments)
             if polylines:
                 geomlists.append(polylines)
-        if geomlists:
-            return geomlists
-    return list(surfaces.values())
+
+    # surfaces that belong to a solid are not entities of their own
+    free_surfaces = [surf for sid, surf in surfaces.items() if sid not in shell_ids]
+    return solids + geomlists + free_surfaces
 
 
 __all__ = [
-- 
2.43.0


From b8f17e5392a0a29a1a6f0caf754c98254e6e400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:22 +0000
Subject: [PATCH 30/80] fix: DSL run-time errors and failed requirements are
 reported as failed results with their reason

---
 src/yapcad/dsl/runtime/interpreter.py | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 3deb662..0713998 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -159,7 +159,10 @@ class Interpreter:
             )
 
         # Wrap parameters as Values
-        wrapped_params = self._wrap_parameters(command, parameters)
+        try:
+            wrapped_params = self._wrap_parameters(command, parameters)
+        except Exception as e:
+            return ExecutionResult(success=False, error_message=str(e) or type(e).__name__)
 
         # Create execution context
         ctx = create_context(
@@ -172,21 +175,21 @@ class Interpreter:
         # Execute the command body
         try:
             self._execute_command(command, ctx)
-        except RuntimeError as e:
+
+            # Apply @meta(...) hint to the emitted solid (Phase 1c bridge).
+            # The parser already merges all @meta decorators into
+            # ``command.meta_hint`` (a flat dict). meta_apply.apply_meta_hint
+            # dispatches each key to the right ``yapcad.metadata`` helper,
+            # which is what downstream consumers (add_part datum lifting,
+            # mechatron_export) read.
+            self._apply_command_meta_hint(command, ctx)
+        except Exception as e:
             return ExecutionResult(
                 success=False,
-                error_message=str(e),
+                error_message=str(e) or type(e).__name__,
                 require_failures=ctx.require_failures,
             )
 
-        # Apply @meta(...) hint to the emitted solid (Phase 1c bridge).
-        # The parser already merges all @meta decorators into
-        # ``command.meta_hint`` (a flat dict). meta_apply.apply_meta_hint
-        # dispatches each key to the right ``yapcad.metadata`` helper,
-        # which is what downstream consumers (add_part datum lifting,
-        # mechatron_export) read.
-        self._apply_command_meta_hint(command, ctx)
-
         # Build provenance
         provenance = create_provenance(
             module_name=module.name,
@@ -202,6 +205,9 @@ class Interpreter:
                 emit_result=ctx.emit_result,
                 require_failures=ctx.require_failures,
                 provenance=provenance,
+                error_message="; ".join(
+                    f"requirement not met: {f.message or f.expression_text}" for f in ctx.require_failures
+                ),
             )
 
         # Check for emit
@@ -332,7 +338,7 @@ class Interpreter:
         """Execute a require statement."""
         condition = self._evaluate(stmt.condition, ctx)
         if not condition.is_truthy():
-            message = stmt.message if stmt.message else "Constraint violated"
+            message = str(self._evaluate(stmt.message, ctx).data) if stmt.message else "Constraint violated"
             ctx.add_require_failure(message)
 
     def _execute_emit(self, stmt: EmitStatement, ctx: ExecutionContext) -> None:
-- 
2.43.0


From 299f615be41cced47a466f713cbeb3354a064a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:22 +0000
Subject: [PATCH 31/80] fix: the DSL command line exits nonzero when the
 requested output was not written

---
 src/yapcad/dsl/__main__.py | 85 +++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 39 deletions(-)

diff --git a/src/yapcad/dsl/__main__.py b/src/yapcad/dsl/__main__.py
index 49ca3d7..9cb1365 100644
--- a/src/yapcad/dsl/__main__.py
+++ b/src/yapcad/dsl/__main__.py
@@ -105,9 +105,8 @@ def cmd_check(args):
         print(f"Error: File not found: {source_path}", file=sys.stderr)
         return 1
 
-    source = source_path.read_text()
-
     try:
+        source = source_path.read_text(encoding='utf-8')
         tokens = tokenize(source)
         module = parse(tokens, source=source)  # Pass source for native block extraction
         result = check(module)
@@ -138,9 +137,8 @@ def cmd_list(args):
         print(f"Error: File not found: {source_path}", file=sys.stderr)
         return 1
 
-    source = source_path.read_text()
-
     try:
+        source = source_path.read_text(encoding='utf-8')
         tokens = tokenize(source)
         module = parse(tokens, source=source)  # Pass source for native block extraction
 
@@ -171,7 +169,15 @@ def cmd_run(args):
         print(f"Error: File not found: {source_path}", file=sys.stderr)
         return 1
 
-    source = source_path.read_text()
+    try:
+        source = source_path.read_text(encoding='utf-8')
+    except (OSError, ValueError) as e:
+        print(f"Error: cannot read {source_path}: {e}", file=sys.stderr)
+        return 1
+
+    if args.output and Path(args.output).suffix.lower() not in ('.dxf', '.step', '.stp', '.stl'):
+        print(f"Error: Unknown output format: {Path(args.output).suffix or args.output}", file=sys.stderr)
+        return 1
 
     # Parse parameters
     parameters: Dict[str, Any] = {}
@@ -259,48 +265,49 @@ def cmd_run(args):
                     print(f"Error: DXF export failed", file=sys.stderr)
                     return 1
             else:
-                print(f"Warning: Cannot export geometry to DXF", file=sys.stderr)
-                return 0
+                print(f"Error: Cannot export geometry to DXF", file=sys.stderr)
+                return 1
 
         # 3D-only formats (STEP, STL) require solid geometry
         elif suffix in ('.step', '.stp', '.stl'):
             if not is_solid:
-                print(f"Warning: {suffix.upper()} export requires solid geometry", file=sys.stderr)
-                return 0
+                print(f"Error: {suffix.upper()} export requires solid geometry", file=sys.stderr)
+                return 1
 
-            # Prepare solid for export
-            if issolid(geometry):
-                solid = geometry
-            else:
-                # For multiple solids, union them together
-                if len(geometry) == 1:
-                    solid = geometry[0]
+            try:
+                # Prepare solid for export
+                if issolid(geometry):
+                    solid = geometry
                 else:
-                    from yapcad.geom3d import solid_boolean
-                    solid = geometry[0]
-                    for i in range(1, len(geometry)):
-                        solid = solid_boolean(solid, geometry[i], 'union')
-
-            if suffix == '.step' or suffix == '.stp':
-                step_format = os.environ.get('YAPCAD_STEP_FORMAT', 'faceted').lower()
-                if step_format == 'analytic':
-                    from yapcad.io.step import write_step_analytic
-                    analytic_ok = write_step_analytic(solid, str(output_path))
-                    if analytic_ok:
-                        print(f"Exported to: {output_path} (analytic BREP)")
+                    # For multiple solids, union them together
+                    if len(geometry) == 1:
+                        solid = geometry[0]
                     else:
-                        print(f"Exported to: {output_path} (faceted fallback)")
-                else:
-                    from yapcad.io import write_step
-                    write_step(solid, str(output_path))
+                        from yapcad.geom3d import solid_boolean
+                        solid = geometry[0]
+                        for i in range(1, len(geometry)):
+                            solid = solid_boolean(solid, geometry[i], 'union')
+
+                if suffix == '.step' or suffix == '.stp':
+                    step_format = os.environ.get('YAPCAD_STEP_FORMAT', 'faceted').lower()
+                    if step_format == 'analytic':
+                        from yapcad.io.step import write_step_analytic
+                        analytic_ok = write_step_analytic(solid, str(output_path))
+                        if analytic_ok:
+                            print(f"Exported to: {output_path} (analytic BREP)")
+                        else:
+                            print(f"Exported to: {output_path} (faceted fallback)")
+                    else:
+                        from yapcad.io import write_step
+                        write_step(solid, str(output_path))
+                        print(f"Exported to: {output_path}")
+                elif suffix == '.stl':
+                    from yapcad.io import write_stl
+                    write_stl(solid, str(output_path))
                     print(f"Exported to: {output_path}")
-            elif suffix == '.stl':
-                from yapcad.io import write_stl
-                write_stl(solid, str(output_path))
-                print(f"Exported to: {output_path}")
-
-        else:
-            print(f"Warning: Unknown output format: {suffix}", file=sys.stderr)
+            except Exception as e:
+                print(f"Error: export to {output_path} failed: {e}", file=sys.stderr)
+                return 1
 
     return 0
 
-- 
2.43.0


From 7eaa5bf73cedc8b03d28f61032306942ccb29614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:55 +0000
Subject: [PATCH 32/80] fix: ycpkg_export checks every target before writing,
 replaces files in one step and drops no sketch element

---
 tools/ycpkg_export.py | 62 ++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/tools/ycpkg_export.py b/tools/ycpkg_export.py
index ca4934b..e9e66c9 100644
--- a/tools/ycpkg_export.py
+++ b/tools/ycpkg_export.py
@@ -15,6 +15,7 @@ from yapcad.geom import (
     isline,
     isarc,
     iscircle,
+    isellipse,
     ispoint,
     iscatmullrom,
     isnurbs,
@@ -25,6 +26,7 @@ from yapcad.geom_util import geomlist2poly_components, geomlist2poly_with_holes
 from yapcad.io import write_step, write_stl
 from yapcad.io.step import write_step_analytic
 from yapcad.io.geometry_json import geometry_from_json, SCHEMA_ID
+from yapcad.io.replace import replacing
 from yapcad.package import PackageManifest, load_geometry
 
 
@@ -122,6 +124,21 @@ def _export_sketches_dxf(sketches: Iterable[Sequence], out_path: Path) -> Path:
                 dxfattribs={"layer": layer},
             )
             return 1
+        if isellipse(element):
+            meta = element[2]
+            rot = math.radians(float(meta["rotation"]))
+            major = float(meta["semi_major"])
+            start = math.radians(float(meta["start"]))
+            end = math.radians(float(meta["end"]))
+            msp.add_ellipse(
+                _as_xy(element[1]),
+                major_axis=(major * math.cos(rot), major * math.sin(rot), 0.0),
+                ratio=float(meta["semi_minor"]) / major,
+                start_param=start,
+                end_param=end if end > start else end + math.tau,
+                dxfattribs={"layer": layer},
+            )
+            return 1
         if iscatmullrom(element) or isnurbs(element):
             segs = 64
             coords = [_as_xy(sample(element, i / segs)) for i in range(segs + 1)]
@@ -159,11 +176,16 @@ def _export_sketches_dxf(sketches: Iterable[Sequence], out_path: Path) -> Path:
             doc.layers.add(name=layer_name)
         written = 0
         for element in geom:
-            written += _handle_element(element, layer_name)
+            count = _handle_element(element, layer_name)
+            if not count:
+                raise ValueError(f"sketch element cannot be exported to DXF: {element!r}")
+            written += count
         if written == 0:
             raise ValueError("failed to derive DXF entities from sketch geometry")
 
-    doc.saveas(out_path)
+    doc.filename = str(out_path)
+    with replacing(out_path, "w", encoding=doc.output_encoding, errors="dxfreplace") as stream:
+        doc.write(stream)
     return out_path
 
 
@@ -230,39 +252,37 @@ def main(argv: list[str] | None = None) -> int:
     out_dir = args.output or (manifest.root / "exports")
     out_dir.mkdir(parents=True, exist_ok=True)
 
-    written: List[Path] = []
+    want_step = bool(requested & {"step", "step-analytic"})
+    targets: List[Path] = []
+    if want_step:
+        targets += [out_dir / f"solid_{idx:02d}.step" for idx in range(1, len(solids) + 1)]
+        targets += [out_dir / f"surface_{idx:02d}.step" for idx in range(1, len(surfaces) + 1)]
+    if "stl" in requested:
+        targets += [out_dir / f"solid_{idx:02d}.stl" for idx in range(1, len(solids) + 1)]
+    dxf_path = out_dir / "sketches.dxf"
+    if sketches and "dxf" in requested:
+        targets.append(dxf_path)
 
-    def _check_target(path: Path) -> None:
-        if path.exists() and not args.overwrite:
-            raise FileExistsError(f"export target already exists: {path}")
+    # look at every target before writing any
+    if not args.overwrite:
+        for target in targets:
+            if target.exists():
+                raise FileExistsError(f"export target already exists: {target}")
 
+    written: List[Path] = []
     if solids:
         if "step-analytic" in requested:
-            targets = [out_dir / f"solid_{idx:02d}.step" for idx in range(1, len(solids) + 1)]
-            for target in targets:
-                _check_target(target)
             paths, analytic_count = _export_step_analytic(solids, out_dir)
             written.extend(paths)
             if analytic_count > 0:
                 print(f"Exported {analytic_count}/{len(solids)} solid(s) with analytic BREP", file=sys.stderr)
         elif "step" in requested:
-            targets = [out_dir / f"solid_{idx:02d}.step" for idx in range(1, len(solids) + 1)]
-            for target in targets:
-                _check_target(target)
             written.extend(_export_step(solids, out_dir))
         if "stl" in requested:
-            targets = [out_dir / f"solid_{idx:02d}.stl" for idx in range(1, len(solids) + 1)]
-            for target in targets:
-                _check_target(target)
             written.extend(_export_stl(solids, out_dir))
-    if surfaces and ("step" in requested or "step-analytic" in requested):
-        targets = [out_dir / f"surface_{idx:02d}.step" for idx in range(1, len(surfaces) + 1)]
-        for target in targets:
-            _check_target(target)
+    if surfaces and want_step:
         written.extend(_export_surfaces_step(surfaces, out_dir))
     if sketches and "dxf" in requested:
-        dxf_path = out_dir / "sketches.dxf"
-        _check_target(dxf_path)
         written.append(_export_sketches_dxf(sketches, dxf_path))
 
     if not written:
-- 
2.43.0


From ca38ffe40fe52b734d6b6b50e0f4410bd93a3f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:12 +0000
Subject: [PATCH 33/80] fix: command parameters given from outside must be
 declared, present and of their declared scalar type

---
 src/yapcad/dsl/__main__.py            | 18 ++++++++++++++++++
 src/yapcad/dsl/runtime/interpreter.py | 26 +++++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/__main__.py b/src/yapcad/dsl/__main__.py
index 9cb1365..bcd6a2a 100644
--- a/src/yapcad/dsl/__main__.py
+++ b/src/yapcad/dsl/__main__.py
@@ -96,6 +96,21 @@ def parse_param(param_str: str) -> tuple:
     return (name, value_str)
 
 
+def string_parameters(source: str, command: str) -> set:
+    """Names of the command's parameters declared as strings."""
+    from . import tokenize, parse
+
+    try:
+        module = parse(tokenize(source), source=source)
+    except Exception:
+        return set()  # reported when the program is compiled
+    return {
+        p.name
+        for c in module.commands if c.name == command
+        for p in c.parameters if getattr(p.type_annotation, 'name', None) == 'string'
+    }
+
+
 def cmd_check(args):
     """Check a DSL file for syntax and type errors."""
     from . import tokenize, parse, check
@@ -180,10 +195,13 @@ def cmd_run(args):
         return 1
 
     # Parse parameters
+    texts = string_parameters(source, args.command)
     parameters: Dict[str, Any] = {}
     for param_str in args.param or []:
         try:
             name, value = parse_param(param_str)
+            if name in texts and not isinstance(value, str):
+                value = param_str.split('=', 1)[1].strip()
             parameters[name] = value
         except ValueError as e:
             print(f"Error: {e}", file=sys.stderr)
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 0713998..8dcdb03 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -4,6 +4,7 @@ Tree-walking interpreter for DSL execution.
 Evaluates AST nodes to produce geometry and other values.
 """
 
+import numbers
 import os
 from dataclasses import dataclass, field
 from typing import Any, Dict, List, Optional, Callable, Union
@@ -37,6 +38,7 @@ from ..ast import (
     ListLiteral, ListComprehension, RangeExpr, DictLiteral,
     ConditionalExpr, IfExpr, MatchExpr, MatchArm, LambdaExpr, PythonExpr,
     Pattern, LiteralPattern, IdentifierPattern, WildcardPattern,
+    OptionalType,
 )
 from ..types import (
     Type, ListType, DictType, resolve_type_name,
@@ -69,6 +71,22 @@ class ExecutionResult:
         return {}
 
 
+def _as_parameter(name: str, raw: Any, expected: Optional[Type]) -> Any:
+    """Check a raw parameter value against a scalar parameter type."""
+    number = isinstance(raw, numbers.Real) and not isinstance(raw, bool)
+    if expected == INT and number and raw == raw and float(raw).is_integer():
+        return int(raw)
+    fits = {
+        INT: isinstance(raw, numbers.Integral) and number,
+        FLOAT: number,
+        BOOL: isinstance(raw, bool),
+        STRING: isinstance(raw, str),
+    }.get(expected, True)
+    if not fits:
+        raise ValueError(f"parameter '{name}' must be {expected.name}, got {raw!r}")
+    return raw
+
+
 class Interpreter:
     """
     Tree-walking interpreter for DSL execution.
@@ -232,6 +250,10 @@ class Interpreter:
         from .context import ExecutionContext
         temp_ctx = ExecutionContext()
 
+        unknown = [name for name in parameters if name not in {p.name for p in command.parameters}]
+        if unknown:
+            raise ValueError(f"command '{command.name}' has no parameter {', '.join(map(repr, unknown))}")
+
         for param in command.parameters:
             if param.name in parameters:
                 raw_value = parameters[param.name]
@@ -250,11 +272,13 @@ class Interpreter:
                         param_type = STRING
                     else:
                         param_type = FLOAT  # Default fallback
-                wrapped[param.name] = wrap_value(raw_value, param_type)
+                wrapped[param.name] = wrap_value(_as_parameter(param.name, raw_value, param_type), param_type)
             elif param.default_value is not None:
                 # Evaluate default value expression using temporary context
                 default_val = self._evaluate(param.default_value, temp_ctx)
                 wrapped[param.name] = default_val
+            elif not isinstance(param.type_annotation, OptionalType):
+                raise ValueError(f"missing required parameter '{param.name}'")
         return wrapped
 
     def _execute_command(self, command: Command, ctx: ExecutionContext) -> None:
-- 
2.43.0


From 365308f18bbb7625800e79cc781ad9e74c032190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:02 +0000
Subject: [PATCH 34/80] fix: the viewer moves a rotated part along the scene's
 axes, to the position asked for

---
 src/yapcad/viewer/vtk_viewer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/viewer/vtk_viewer.py b/src/yapcad/viewer/vtk_viewer.py
index c10041e..701c9ea 100644
--- a/src/yapcad/viewer/vtk_viewer.py
+++ b/src/yapcad/viewer/vtk_viewer.py
@@ -998,8 +998,12 @@ class VTKViewer:
             self.actor_transforms[name] = vtk.vtkTransform()
             self.actors[name].SetUserTransform(self.actor_transforms[name])
 
+        # The offset is along the scene's axes, so it is applied after whatever
+        # rotation the part already has.
         transform = self.actor_transforms[name]
+        transform.PostMultiply()
         transform.Translate(dx, dy, dz)
+        transform.PreMultiply()
         self.render_window.Render()
 
     def move_part_to(self, name: str, x: float, y: float, z: float):
-- 
2.43.0


From 84542c45ace43556815ef4a6f82ced5a0433cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:02 +0000
Subject: [PATCH 35/80] fix: the viewer checks a whole load before changing the
 scene, replaces parts of the same name and reports unreadable meshes

---
 src/yapcad/viewer/vtk_viewer.py | 126 +++++++++++++++++++++++++-------
 1 file changed, 99 insertions(+), 27 deletions(-)

diff --git a/src/yapcad/viewer/vtk_viewer.py b/src/yapcad/viewer/vtk_viewer.py
index 701c9ea..6928e37 100644
--- a/src/yapcad/viewer/vtk_viewer.py
+++ b/src/yapcad/viewer/vtk_viewer.py
@@ -72,6 +72,24 @@ from .events import (
 )
 
 
+def _as_rows(transform):
+    """Check a 4x4 matrix given from outside; returns its rows (or None)."""
+    if transform is None:
+        return None
+    rows = [[float(v) for v in row] for row in transform]
+    if len(rows) != 4 or any(len(row) != 4 for row in rows):
+        raise ValueError("transform must be a 4x4 matrix")
+    return rows
+
+
+def _as_triple(values, what: str) -> Tuple[float, float, float]:
+    """Check three numbers given from outside."""
+    triple = tuple(float(v) for v in values)
+    if len(triple) != 3:
+        raise ValueError(f"{what} must be three numbers")
+    return triple
+
+
 # Type aliases
 Matrix4x4 = List[List[float]]
 RGB = Tuple[float, float, float]
@@ -206,6 +224,16 @@ class VTKViewer:
             with open(self.config.positions_path) as f:
                 self.positions = json.load(f)
 
+    @staticmethod
+    def _check_positions(positions: Any):
+        """Raise ValueError or TypeError unless positions can be applied as a whole."""
+        if not isinstance(positions, dict):
+            raise ValueError("positions must map part names to objects")
+        for part_name, part_data in positions.items():
+            if not isinstance(part_data, dict):
+                raise ValueError(f"position of {part_name!r} must be an object")
+            _as_rows(part_data.get("transform_matrix"))
+
     def _get_next_color(self) -> RGB:
         """
         Get the next color from the palette for automatic assignment.
@@ -290,15 +318,20 @@ class VTKViewer:
         Returns
         -------
         vtkPolyData or None
-            Loaded mesh data or None if file doesn't exist.
+            Loaded mesh data or None if the file doesn't exist or holds no mesh.
         """
         path = Path(stl_path)
-        if not path.exists():
+        try:
+            if not path.is_file():
+                return None
+        except OSError:
             return None
         reader = vtk.vtkSTLReader()
         reader.SetFileName(str(path))
         reader.Update()
-        return reader.GetOutput()
+        # The reader reports an unreadable file by an empty mesh, not by raising.
+        polydata = reader.GetOutput()
+        return polydata if polydata.GetNumberOfPoints() > 0 else None
 
     def _emit_event(self, event):
         """
@@ -362,6 +395,10 @@ class VTKViewer:
 
             viewer.add_part("housing", "/path/to/housing.stl")
         """
+        transform = _as_rows(transform)
+        if color is not None:
+            color = _as_triple(color, "color")
+
         polydata = self._load_stl(stl_path)
         if polydata is None:
             self._emit_event(ErrorEvent(
@@ -377,6 +414,9 @@ class VTKViewer:
         actor = vtk.vtkActor()
         actor.SetMapper(mapper)
 
+        # A part of the same name is replaced, not left behind in the scene
+        self._drop_actor(name)
+
         # Apply color
         if color is None:
             color = self._get_next_color()
@@ -415,6 +455,16 @@ class VTKViewer:
 
         return True
 
+    def _drop_actor(self, name: str) -> bool:
+        """Take a part out of the scene; False if there is none of that name."""
+        actor = self.actors.pop(name, None)
+        self.actor_transforms.pop(name, None)
+        if actor is None:
+            return False
+        for renderer in self.renderers.values():
+            renderer.RemoveActor(actor)
+        return True
+
     def remove_part(self, name: str) -> bool:
         """
         Remove a part from the viewer.
@@ -429,16 +479,9 @@ class VTKViewer:
         bool
             True if part was found and removed.
         """
-        if name not in self.actors:
+        if not self._drop_actor(name):
             return False
 
-        actor = self.actors.pop(name)
-        for renderer in self.renderers.values():
-            renderer.RemoveActor(actor)
-
-        if name in self.actor_transforms:
-            del self.actor_transforms[name]
-
         self._emit_event(PartRemovedEvent(part_name=name))
         return True
 
@@ -489,14 +532,16 @@ class VTKViewer:
             ]
             viewer.load_parts(parts)
         """
-        if clear:
-            self.clear_parts()
-
-        loaded = 0
+        # Check every specification before touching the scene
+        parts = []
         for spec in part_specs:
+            if not isinstance(spec, (list, tuple)) or len(spec) < 2:
+                raise ValueError(f"part must be [stl_file, part_name, color_name]: {spec!r}")
             stl_file = spec[0]
             part_name = spec[1]
             color_name = spec[2] if len(spec) > 2 else None
+            if not isinstance(part_name, str):
+                raise ValueError(f"part name must be a string: {part_name!r}")
 
             stl_path = self.config.stl_path / stl_file
             color = self.config.get_color(color_name) if color_name else None
@@ -507,9 +552,16 @@ class VTKViewer:
                 transform = self.positions[part_name].get("transform_matrix")
                 # Override color from positions if specified
                 if "color" in self.positions[part_name] and color is None:
-                    color = tuple(self.positions[part_name]["color"])
+                    color = _as_triple(self.positions[part_name]["color"], "color")
+
+            parts.append((part_name, stl_path, _as_rows(transform), color))
+
+        if clear:
+            self.clear_parts()
 
-            if self.add_part(part_name, stl_path, transform, color):
+        loaded = 0
+        for part in parts:
+            if self.add_part(*part):
                 loaded += 1
 
         self._reset_cameras()
@@ -556,12 +608,12 @@ class VTKViewer:
             raise FileNotFoundError(f"Positions file not found: {path}")
 
         with open(path) as f:
-            self.positions = json.load(f)
-
-        self.clear_parts()
-        loaded = 0
+            positions = json.load(f)
+        self._check_positions(positions)
 
-        for part_name, part_data in self.positions.items():
+        # Check every part before touching the scene
+        parts = []
+        for part_name, part_data in positions.items():
             # Get STL path
             if "stl_file" in part_data:
                 stl_path = self.config.stl_path / part_data["stl_file"]
@@ -581,9 +633,14 @@ class VTKViewer:
                     continue
 
             transform = part_data.get("transform_matrix")
-            color = tuple(part_data["color"]) if "color" in part_data else None
+            color = _as_triple(part_data["color"], "color") if "color" in part_data else None
+            parts.append((part_name, stl_path, transform, color))
 
-            if self.add_part(part_name, stl_path, transform, color):
+        self.positions = positions
+        self.clear_parts()
+        loaded = 0
+        for part in parts:
+            if self.add_part(*part):
                 loaded += 1
 
         self._reset_cameras()
@@ -595,17 +652,32 @@ class VTKViewer:
 
         This updates transforms without reloading STL files, which is faster
         for iterating on kinematic positions.
+
+        Raises
+        ------
+        OSError, ValueError
+            If the configured positions file cannot be read or is malformed;
+            the scene is then left as it was.
         """
-        self._load_positions_file()
+        path = self.config.positions_path
+        positions = self.positions
+        if path:
+            with open(path) as f:
+                positions = json.load(f)
+        self._check_positions(positions)
+        self.positions = positions
 
         for part_name, part_data in self.positions.items():
-            if part_name not in self.actor_transforms:
+            if part_name not in self.actors:
                 continue
 
-            transform = part_data.get("transform_matrix")
+            transform = _as_rows(part_data.get("transform_matrix"))
             if transform is None:
                 continue
 
+            if part_name not in self.actor_transforms:
+                self.actor_transforms[part_name] = vtk.vtkTransform()
+                self.actors[part_name].SetUserTransform(self.actor_transforms[part_name])
             vtk_transform = self.actor_transforms[part_name]
             vtk_matrix = vtk.vtkMatrix4x4()
             for i in range(4):
-- 
2.43.0


From 06d0e6aa78dc6f51c2da3ff746d9cc473d715750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:40 +0000
Subject: [PATCH 36/80] fix: parts added to the viewer get the opacity in
 force, and /xray reports it

---
 src/yapcad/viewer/api_server.py |  2 +-
 src/yapcad/viewer/config.py     |  1 +
 src/yapcad/viewer/vtk_viewer.py | 13 +++++++------
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/viewer/api_server.py b/src/yapcad/viewer/api_server.py
index 41e1319..5a8e345 100644
--- a/src/yapcad/viewer/api_server.py
+++ b/src/yapcad/viewer/api_server.py
@@ -436,7 +436,7 @@ class ViewerAPIServer:
             return jsonify({
                 "enabled": self.viewer.xray_mode,
                 "opacity": (
-                    self.viewer.config.xray_opacity
+                    self.viewer.xray_opacity
                     if self.viewer.xray_mode
                     else self.viewer.config.default_opacity
                 )
diff --git a/src/yapcad/viewer/config.py b/src/yapcad/viewer/config.py
index 7153d4d..52d9088 100644
--- a/src/yapcad/viewer/config.py
+++ b/src/yapcad/viewer/config.py
@@ -246,6 +246,7 @@ class ViewerConfig:
         ViewerConfig
             New configuration instance.
         """
+        data = dict(data)  # the caller keeps theirs
         # Convert lists back to tuples where needed
         if "window_size" in data:
             data["window_size"] = tuple(data["window_size"])
diff --git a/src/yapcad/viewer/vtk_viewer.py b/src/yapcad/viewer/vtk_viewer.py
index 6928e37..4b6c866 100644
--- a/src/yapcad/viewer/vtk_viewer.py
+++ b/src/yapcad/viewer/vtk_viewer.py
@@ -154,6 +154,7 @@ class VTKViewer:
         self.actors: Dict[str, vtk.vtkActor] = {}
         self.actor_transforms: Dict[str, vtk.vtkTransform] = {}
         self.xray_mode = False
+        self.xray_opacity = config.xray_opacity  # in force while x-ray is on
         self._color_index = 0
         self._event_callbacks: Dict[str, List[EventCallback]] = {}
 
@@ -435,8 +436,9 @@ class VTKViewer:
             self.actor_transforms[name] = vtk_transform
 
         # Apply current x-ray mode
-        if self.xray_mode:
-            actor.GetProperty().SetOpacity(self.config.xray_opacity)
+        actor.GetProperty().SetOpacity(
+            self.xray_opacity if self.xray_mode else self.config.default_opacity
+        )
 
         # Add to all renderers
         for renderer in self.renderers.values():
@@ -745,11 +747,10 @@ class VTKViewer:
 
             viewer.set_xray(False)
         """
+        xray_opacity = float(self.config.xray_opacity if opacity is None else opacity)
         self.xray_mode = enabled
-        if opacity is None:
-            opacity = self.config.xray_opacity if enabled else self.config.default_opacity
-        else:
-            opacity = opacity if enabled else self.config.default_opacity
+        self.xray_opacity = xray_opacity
+        opacity = xray_opacity if enabled else self.config.default_opacity
 
         for actor in self.actors.values():
             actor.GetProperty().SetOpacity(opacity)
-- 
2.43.0


From 765490f2ee16b5a1195802c4419c222d0dfc8177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:28 +0000
Subject: [PATCH 37/80] fix: viewer screenshots that cannot be written are
 errors; command-file lines are run once, and unknown ones reported

---
 src/yapcad/viewer/vtk_viewer.py | 86 +++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/src/yapcad/viewer/vtk_viewer.py b/src/yapcad/viewer/vtk_viewer.py
index 4b6c866..2ae62da 100644
--- a/src/yapcad/viewer/vtk_viewer.py
+++ b/src/yapcad/viewer/vtk_viewer.py
@@ -53,6 +53,7 @@ Requires VTK >= 9.0::
 
 import json
 import math
+import os
 from pathlib import Path
 from typing import Any, Callable, Dict, List, Optional, Tuple, Union
 
@@ -176,7 +177,6 @@ class VTKViewer:
         self.interactor.AddObserver("KeyPressEvent", self._on_key)
 
         # Set up command file polling if configured
-        self._last_cmd_mtime = 0
         if config.command_path:
             self.interactor.AddObserver("TimerEvent", self._on_timer)
 
@@ -995,6 +995,12 @@ class VTKViewer:
         str
             Full path to saved screenshot.
 
+        Raises
+        ------
+        OSError
+            If the picture could not be written; an earlier file of that
+            name is then left as it was.
+
         Examples
         --------
         Save with default name::
@@ -1019,6 +1025,7 @@ class VTKViewer:
 
         directory.mkdir(parents=True, exist_ok=True)
         filepath = directory / filename
+        partial = filepath.with_name(filepath.name + ".part")
 
         self.render_window.Render()
 
@@ -1027,10 +1034,22 @@ class VTKViewer:
         w2i.Update()
 
         writer = vtk.vtkPNGWriter()
-        writer.SetFileName(str(filepath))
+        writer.SetFileName(str(partial))
         writer.SetInputConnection(w2i.GetOutputPort())
         writer.Write()
 
+        # The writer reports a failure by an error code, not by raising
+        try:
+            if writer.GetErrorCode() != 0:
+                raise OSError(f"Failed to write screenshot: {filepath}")
+            os.replace(partial, filepath)
+        except OSError:
+            try:
+                partial.unlink(missing_ok=True)
+            except OSError:
+                pass
+            raise
+
         size = self.render_window.GetSize()
         self._emit_event(ScreenshotSavedEvent(
             filename=filename,
@@ -1226,13 +1245,13 @@ class VTKViewer:
         try:
             cmd_file = self.config.command_path
             if cmd_file.exists():
-                mtime = cmd_file.stat().st_mtime
-                if mtime > self._last_cmd_mtime:
-                    self._last_cmd_mtime = mtime
-                    cmd = cmd_file.read_text().strip()
-                    if cmd:
+                commands = cmd_file.read_text(errors="replace").strip()
+                if commands:
+                    # Take the commands before running them: what is written
+                    # to the empty file meanwhile is left for the next poll.
+                    cmd_file.write_text("")
+                    for cmd in commands.splitlines():
                         self._process_file_command(cmd)
-                        cmd_file.write_text("")
         except Exception as e:
             print(f"Command file error: {e}")
 
@@ -1262,36 +1281,33 @@ class VTKViewer:
             elif action == "screenshot":
                 filename = parts[1] if len(parts) > 1 else None
                 self.screenshot(filename)
-            elif action == "focus":
-                if len(parts) > 1:
-                    self.focus_part(parts[1].upper())
+            elif action == "focus" and len(parts) > 1:
+                self.focus_part(parts[1].upper())
             elif action == "highlight":
                 names = [p.upper() for p in parts[1:]]
                 self.highlight_parts(names)
-            elif action == "camera":
-                if len(parts) >= 4:
-                    x, y, z = float(parts[1]), float(parts[2]), float(parts[3])
-                    fx, fy, fz = (
-                        (float(parts[4]), float(parts[5]), float(parts[6]))
-                        if len(parts) >= 7 else (0, 0, 100)
-                    )
-                    self.set_camera((x, y, z), (fx, fy, fz))
-            elif action == "orbit":
-                if len(parts) >= 4:
-                    azimuth = float(parts[1])
-                    elevation = float(parts[2])
-                    distance = float(parts[3])
-                    self.orbit_camera(azimuth, elevation, distance)
-            elif action == "move":
-                if len(parts) >= 5:
-                    name = parts[1].upper()
-                    dx, dy, dz = float(parts[2]), float(parts[3]), float(parts[4])
-                    self.move_part(name, dx, dy, dz)
-            elif action == "moveto":
-                if len(parts) >= 5:
-                    name = parts[1].upper()
-                    x, y, z = float(parts[2]), float(parts[3]), float(parts[4])
-                    self.move_part_to(name, x, y, z)
+            elif action == "camera" and len(parts) >= 4:
+                x, y, z = float(parts[1]), float(parts[2]), float(parts[3])
+                fx, fy, fz = (
+                    (float(parts[4]), float(parts[5]), float(parts[6]))
+                    if len(parts) >= 7 else (0, 0, 100)
+                )
+                self.set_camera((x, y, z), (fx, fy, fz))
+            elif action == "orbit" and len(parts) >= 4:
+                azimuth = float(parts[1])
+                elevation = float(parts[2])
+                distance = float(parts[3])
+                self.orbit_camera(azimuth, elevation, distance)
+            elif action == "move" and len(parts) >= 5:
+                name = parts[1].upper()
+                dx, dy, dz = float(parts[2]), float(parts[3]), float(parts[4])
+                self.move_part(name, dx, dy, dz)
+            elif action == "moveto" and len(parts) >= 5:
+                name = parts[1].upper()
+                x, y, z = float(parts[2]), float(parts[3]), float(parts[4])
+                self.move_part_to(name, x, y, z)
+            else:
+                raise ValueError(f"Unknown or incomplete command: {cmd}")
         except Exception as e:
             print(f"Command error: {e}")
             self._emit_event(ErrorEvent(
-- 
2.43.0


From d6335f7e6d0465ecba669329f411fddf92bf3343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:04 +0000
Subject: [PATCH 38/80] fix: the viewer applies each request as a whole, under
 one lock, and answers bad requests with their error

---
 src/yapcad/viewer/api_server.py | 163 ++++++++++++++++++--------------
 src/yapcad/viewer/vtk_viewer.py |  65 ++++++++++++-
 2 files changed, 153 insertions(+), 75 deletions(-)

diff --git a/src/yapcad/viewer/api_server.py b/src/yapcad/viewer/api_server.py
index 5a8e345..022ca11 100644
--- a/src/yapcad/viewer/api_server.py
+++ b/src/yapcad/viewer/api_server.py
@@ -85,6 +85,7 @@ Requires Flask and related packages::
     pip install flask flask-socketio flask-cors
 """
 
+import functools
 import io
 import os
 import subprocess
@@ -92,12 +93,12 @@ import threading
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Set
 
-from flask import Flask, jsonify, request, send_file
+from flask import Flask, abort, jsonify, request, send_file
 from flask_cors import CORS
 from flask_socketio import SocketIO, emit
 
 from .config import ViewerConfig
-from .vtk_viewer import VTKViewer
+from .vtk_viewer import PartNotFoundError, VTKViewer
 from .events import (
     EventType,
     CommandMessage,
@@ -107,6 +108,16 @@ from .events import (
 )
 
 
+def _json_object() -> Dict[str, Any]:
+    """The JSON object in the request's body; an empty body counts as {}."""
+    if not request.get_data():
+        return {}
+    data = request.get_json(force=True, silent=True)
+    if not isinstance(data, dict):
+        abort(400, "The request body must be a JSON object")
+    return data
+
+
 class ViewerAPIServer:
     """
     REST API and WebSocket server for the VTK viewer.
@@ -197,11 +208,29 @@ class ViewerAPIServer:
     def _register_routes(self):
         """Register all REST API routes."""
 
+        def whole(handler):
+            """Answer a request as one step, and a bad request by its error."""
+            @functools.wraps(handler)
+            def wrapper():
+                try:
+                    with self.viewer.lock:
+                        return handler()
+                except PartNotFoundError as e:
+                    return jsonify({"error": str(e), "success": False}), 404
+                except KeyError as e:
+                    return jsonify({"error": f"Missing or unknown field: {e}", "success": False}), 400
+                except (TypeError, ValueError) as e:
+                    return jsonify({"error": str(e), "success": False}), 400
+                except OSError as e:
+                    return jsonify({"error": str(e), "success": False}), 500
+            return wrapper
+
         # =====================================================================
         # Status and Information
         # =====================================================================
 
         @self.app.route("/status", methods=["GET"])
+        @whole
         def get_status():
             """
             Get viewer status.
@@ -241,6 +270,7 @@ class ViewerAPIServer:
             return jsonify(status.to_dict())
 
         @self.app.route("/parts", methods=["GET"])
+        @whole
         def get_parts():
             """
             List loaded parts.
@@ -278,6 +308,7 @@ class ViewerAPIServer:
             return jsonify({"parts": parts, "count": len(parts)})
 
         @self.app.route("/config", methods=["GET"])
+        @whole
         def get_config():
             """
             Get viewer configuration.
@@ -296,6 +327,7 @@ class ViewerAPIServer:
         # =====================================================================
 
         @self.app.route("/load", methods=["POST"])
+        @whole
         def load_parts():
             """
             Load parts into the viewer.
@@ -335,7 +367,7 @@ class ViewerAPIServer:
                           type: integer
                           description: Number of parts loaded
             """
-            data = request.get_json() or {}
+            data = _json_object()
             clear = data.get("clear", True)
 
             try:
@@ -352,6 +384,7 @@ class ViewerAPIServer:
                 return jsonify({"error": str(e), "success": False}), 400
 
         @self.app.route("/reload", methods=["POST"])
+        @whole
         def reload_positions():
             """
             Reload positions from JSON file.
@@ -372,6 +405,7 @@ class ViewerAPIServer:
                 return jsonify({"error": str(e), "success": False}), 400
 
         @self.app.route("/clear", methods=["POST"])
+        @whole
         def clear_parts():
             """
             Clear all loaded parts.
@@ -391,6 +425,7 @@ class ViewerAPIServer:
         # =====================================================================
 
         @self.app.route("/xray", methods=["POST"])
+        @whole
         def set_xray():
             """
             Toggle or set x-ray mode.
@@ -423,9 +458,11 @@ class ViewerAPIServer:
                         opacity:
                           type: number
             """
-            data = request.get_json() or {}
+            data = _json_object()
 
             if "enabled" in data:
+                if not isinstance(data["enabled"], bool):
+                    raise ValueError("'enabled' must be true or false")
                 self.viewer.set_xray(
                     data["enabled"],
                     opacity=data.get("opacity")
@@ -443,6 +480,7 @@ class ViewerAPIServer:
             })
 
         @self.app.route("/highlight", methods=["POST"])
+        @whole
         def highlight_parts():
             """
             Highlight specific parts.
@@ -470,7 +508,7 @@ class ViewerAPIServer:
               200:
                 description: Parts highlighted
             """
-            data = request.get_json() or {}
+            data = _json_object()
             parts = data.get("parts", [])
             dim_opacity = data.get("dim_opacity", 0.15)
 
@@ -482,6 +520,7 @@ class ViewerAPIServer:
         # =====================================================================
 
         @self.app.route("/camera/reset", methods=["POST"])
+        @whole
         def reset_camera():
             """
             Reset camera to default position.
@@ -497,6 +536,7 @@ class ViewerAPIServer:
             return jsonify({"success": True})
 
         @self.app.route("/camera/set", methods=["POST"])
+        @whole
         def set_camera():
             """
             Set camera position and focal point.
@@ -538,22 +578,18 @@ class ViewerAPIServer:
               200:
                 description: Camera position set
             """
-            data = request.get_json() or {}
+            data = _json_object()
 
-            try:
-                self.viewer.set_camera(
-                    position=tuple(data["position"]),
-                    focal_point=tuple(data["focal_point"]),
-                    viewport=data.get("viewport", "ISO"),
-                    view_up=tuple(data.get("view_up", [0, 0, 1]))
-                )
-                return jsonify({"success": True})
-            except KeyError as e:
-                return jsonify({"error": f"Missing required field: {e}"}), 400
-            except Exception as e:
-                return jsonify({"error": str(e)}), 400
+            self.viewer.set_camera(
+                position=tuple(data["position"]),
+                focal_point=tuple(data["focal_point"]),
+                viewport=data.get("viewport", "ISO"),
+                view_up=tuple(data.get("view_up", [0, 0, 1]))
+            )
+            return jsonify({"success": True})
 
         @self.app.route("/camera/orbit", methods=["POST"])
+        @whole
         def orbit_camera():
             """
             Orbit camera using spherical coordinates.
@@ -589,22 +625,18 @@ class ViewerAPIServer:
               200:
                 description: Camera orbited successfully
             """
-            data = request.get_json() or {}
+            data = _json_object()
 
-            try:
-                self.viewer.orbit_camera(
-                    azimuth=data["azimuth"],
-                    elevation=data["elevation"],
-                    distance=data["distance"],
-                    viewport=data.get("viewport", "ISO")
-                )
-                return jsonify({"success": True})
-            except KeyError as e:
-                return jsonify({"error": f"Missing required field: {e}"}), 400
-            except Exception as e:
-                return jsonify({"error": str(e)}), 400
+            self.viewer.orbit_camera(
+                azimuth=data["azimuth"],
+                elevation=data["elevation"],
+                distance=data["distance"],
+                viewport=data.get("viewport", "ISO")
+            )
+            return jsonify({"success": True})
 
         @self.app.route("/camera/focus", methods=["POST"])
+        @whole
         def focus_camera():
             """
             Focus camera on a specific part.
@@ -630,17 +662,13 @@ class ViewerAPIServer:
               404:
                 description: Part not found
             """
-            data = request.get_json() or {}
+            data = _json_object()
 
-            try:
-                self.viewer.focus_part(data["part"])
-                return jsonify({"success": True, "focused_on": data["part"]})
-            except KeyError:
-                return jsonify({"error": f"Part not found: {data.get('part')}"}), 404
-            except Exception as e:
-                return jsonify({"error": str(e)}), 400
+            self.viewer.focus_part(data["part"])
+            return jsonify({"success": True, "focused_on": data["part"]})
 
         @self.app.route("/camera", methods=["GET"])
+        @whole
         def get_camera():
             """
             Get current camera state.
@@ -660,17 +688,15 @@ class ViewerAPIServer:
                 description: Camera state
             """
             viewport = request.args.get("viewport", "ISO")
-            try:
-                state = self.viewer.get_camera_state(viewport)
-                return jsonify(state)
-            except KeyError:
-                return jsonify({"error": f"Unknown viewport: {viewport}"}), 400
+            state = self.viewer.get_camera_state(viewport)
+            return jsonify(state)
 
         # =====================================================================
         # Screenshot
         # =====================================================================
 
         @self.app.route("/screenshot", methods=["GET"])
+        @whole
         def get_screenshot():
             """
             Capture and return screenshot as PNG.
@@ -698,6 +724,7 @@ class ViewerAPIServer:
                 )
 
         @self.app.route("/screenshot", methods=["POST"])
+        @whole
         def save_screenshot():
             """
             Capture and save screenshot.
@@ -729,7 +756,7 @@ class ViewerAPIServer:
                           type: string
                           description: Full path to saved file
             """
-            data = request.get_json() or {}
+            data = _json_object()
             filename = data.get("filename")
             directory = data.get("directory")
 
@@ -814,7 +841,7 @@ class ViewerAPIServer:
             if WHITEBOARD_ROOT is None:
                 return jsonify({"error": _WHITEBOARD_DISABLED_MSG}), 501
 
-            data = request.get_json() or {}
+            data = _json_object()
             rel_path = data.get("path", "").strip()
             content  = data.get("content")
             message  = data.get("message", "").strip()
@@ -933,6 +960,7 @@ class ViewerAPIServer:
         # =====================================================================
 
         @self.app.route("/move", methods=["POST"])
+        @whole
         def move_part():
             """
             Move a part by relative offset.
@@ -970,22 +998,18 @@ class ViewerAPIServer:
               404:
                 description: Part not found
             """
-            data = request.get_json() or {}
+            data = _json_object()
 
-            try:
-                self.viewer.move_part(
-                    data["part"],
-                    data["dx"],
-                    data["dy"],
-                    data["dz"]
-                )
-                return jsonify({"success": True})
-            except KeyError as e:
-                if "part" in str(e):
-                    return jsonify({"error": f"Part not found: {data.get('part')}"}), 404
-                return jsonify({"error": f"Missing required field: {e}"}), 400
+            self.viewer.move_part(
+                data["part"],
+                data["dx"],
+                data["dy"],
+                data["dz"]
+            )
+            return jsonify({"success": True})
 
         @self.app.route("/moveto", methods=["POST"])
+        @whole
         def move_part_to():
             """
             Move a part to absolute position.
@@ -1023,20 +1047,15 @@ class ViewerAPIServer:
               404:
                 description: Part not found
             """
-            data = request.get_json() or {}
+            data = _json_object()
 
-            try:
-                self.viewer.move_part_to(
-                    data["part"],
-                    data["x"],
-                    data["y"],
-                    data["z"]
-                )
-                return jsonify({"success": True})
-            except KeyError as e:
-                if "part" in str(e):
-                    return jsonify({"error": f"Part not found: {data.get('part')}"}), 404
-                return jsonify({"error": f"Missing required field: {e}"}), 400
+            self.viewer.move_part_to(
+                data["part"],
+                data["x"],
+                data["y"],
+                data["z"]
+            )
+            return jsonify({"success": True})
 
     def _register_socket_events(self):
         """Register WebSocket event handlers."""
diff --git a/src/yapcad/viewer/vtk_viewer.py b/src/yapcad/viewer/vtk_viewer.py
index 2ae62da..8307d49 100644
--- a/src/yapcad/viewer/vtk_viewer.py
+++ b/src/yapcad/viewer/vtk_viewer.py
@@ -51,9 +51,11 @@ Requires VTK >= 9.0::
     pip install vtk
 """
 
+import functools
 import json
 import math
 import os
+import threading
 from pathlib import Path
 from typing import Any, Callable, Dict, List, Optional, Tuple, Union
 
@@ -91,6 +93,29 @@ def _as_triple(values, what: str) -> Tuple[float, float, float]:
     return triple
 
 
+def _locked(method):
+    """Run a viewer method under the viewer's lock.
+
+    The API server answers requests from several threads, and the command file
+    is polled from the interactor's: each command is applied as a whole.
+    """
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        with self.lock:
+            return method(self, *args, **kwargs)
+    return wrapper
+
+
+class PartNotFoundError(KeyError):
+    """Raised when a command names a part that is not loaded."""
+
+    def __init__(self, name):
+        super().__init__(f"Part not found: {name}")
+
+    def __str__(self):
+        return self.args[0]
+
+
 # Type aliases
 Matrix4x4 = List[List[float]]
 RGB = Tuple[float, float, float]
@@ -151,6 +176,7 @@ class VTKViewer:
             Viewer configuration.
         """
         self.config = config
+        self.lock = threading.RLock()  # hold it for several calls that belong together
         self.positions: Dict[str, Any] = {}
         self.actors: Dict[str, vtk.vtkActor] = {}
         self.actor_transforms: Dict[str, vtk.vtkTransform] = {}
@@ -354,6 +380,7 @@ class VTKViewer:
     # Public API - Part Management
     # =========================================================================
 
+    @_locked
     def add_part(
         self,
         name: str,
@@ -467,6 +494,7 @@ class VTKViewer:
             renderer.RemoveActor(actor)
         return True
 
+    @_locked
     def remove_part(self, name: str) -> bool:
         """
         Remove a part from the viewer.
@@ -487,6 +515,7 @@ class VTKViewer:
         self._emit_event(PartRemovedEvent(part_name=name))
         return True
 
+    @_locked
     def clear_parts(self):
         """Remove all parts from the viewer."""
         count = len(self.actors)
@@ -501,6 +530,7 @@ class VTKViewer:
 
         self._emit_event(PartsClearedEvent(previous_count=count))
 
+    @_locked
     def load_parts(
         self,
         part_specs: List[Tuple[str, str, Optional[str]]],
@@ -569,6 +599,7 @@ class VTKViewer:
         self._reset_cameras()
         return loaded
 
+    @_locked
     def load_from_json(self, positions_file: Optional[Union[str, Path]] = None) -> int:
         """
         Load all parts defined in a positions JSON file.
@@ -648,6 +679,7 @@ class VTKViewer:
         self._reset_cameras()
         return loaded
 
+    @_locked
     def reload_positions(self):
         """
         Reload positions from the JSON file and update transforms.
@@ -689,6 +721,7 @@ class VTKViewer:
 
         self.render_window.Render()
 
+    @_locked
     def get_part_names(self) -> List[str]:
         """
         Get list of loaded part names.
@@ -700,6 +733,7 @@ class VTKViewer:
         """
         return list(self.actors.keys())
 
+    @_locked
     def get_part_bounds(self, name: str) -> Optional[Tuple[float, ...]]:
         """
         Get bounding box of a specific part.
@@ -722,6 +756,7 @@ class VTKViewer:
     # Public API - Rendering Controls
     # =========================================================================
 
+    @_locked
     def set_xray(self, enabled: bool, opacity: Optional[float] = None):
         """
         Enable or disable x-ray mode.
@@ -758,10 +793,12 @@ class VTKViewer:
         self.render_window.Render()
         self._emit_event(XrayChangedEvent(enabled=enabled, opacity=opacity))
 
+    @_locked
     def toggle_xray(self):
         """Toggle x-ray mode on/off."""
         self.set_xray(not self.xray_mode)
 
+    @_locked
     def highlight_parts(self, names: List[str], dim_opacity: float = 0.15):
         """
         Highlight specific parts by dimming others.
@@ -783,6 +820,11 @@ class VTKViewer:
 
             viewer.highlight_parts([])  # Or pass all part names
         """
+        if isinstance(names, str):
+            raise TypeError("names must be a list of part names")
+        names = list(names)
+        dim_opacity = float(dim_opacity)
+
         for name, actor in self.actors.items():
             if not names or name in names:
                 actor.GetProperty().SetOpacity(1.0)
@@ -794,6 +836,7 @@ class VTKViewer:
         self.render_window.Render()
         self._emit_event(SelectionChangedEvent(highlighted_parts=names))
 
+    @_locked
     def focus_part(self, name: str):
         """
         Focus all cameras on a specific part.
@@ -809,7 +852,7 @@ class VTKViewer:
             If part name is not found.
         """
         if name not in self.actors:
-            raise KeyError(f"Part not found: {name}")
+            raise PartNotFoundError(name)
 
         actor = self.actors[name]
         bounds = actor.GetBounds()
@@ -843,11 +886,13 @@ class VTKViewer:
     # Public API - Camera Controls
     # =========================================================================
 
+    @_locked
     def reset_camera(self):
         """Reset all cameras to view the entire scene."""
         self._reset_cameras()
         self.render_window.Render()
 
+    @_locked
     def set_camera(
         self,
         position: Tuple[float, float, float],
@@ -881,6 +926,10 @@ class VTKViewer:
         if viewport not in self.renderers:
             raise KeyError(f"Unknown viewport: {viewport}")
 
+        position = _as_triple(position, "position")
+        focal_point = _as_triple(focal_point, "focal_point")
+        view_up = _as_triple(view_up, "view_up")
+
         camera = self.renderers[viewport].GetActiveCamera()
         camera.SetPosition(*position)
         camera.SetFocalPoint(*focal_point)
@@ -895,6 +944,7 @@ class VTKViewer:
             view_up=view_up
         ))
 
+    @_locked
     def orbit_camera(
         self,
         azimuth: float,
@@ -947,6 +997,7 @@ class VTKViewer:
             view_up=(0, 0, 1)
         ))
 
+    @_locked
     def get_camera_state(self, viewport: str = "ISO") -> Dict[str, Any]:
         """
         Get current camera state.
@@ -975,6 +1026,7 @@ class VTKViewer:
     # Public API - Screenshot
     # =========================================================================
 
+    @_locked
     def screenshot(
         self,
         filename: Optional[str] = None,
@@ -1063,6 +1115,7 @@ class VTKViewer:
     # Public API - Part Movement
     # =========================================================================
 
+    @_locked
     def move_part(self, name: str, dx: float, dy: float, dz: float):
         """
         Move a part by relative offset.
@@ -1084,7 +1137,9 @@ class VTKViewer:
             If part name is not found.
         """
         if name not in self.actors:
-            raise KeyError(f"Part not found: {name}")
+            raise PartNotFoundError(name)
+
+        dx, dy, dz = float(dx), float(dy), float(dz)
 
         if name not in self.actor_transforms:
             self.actor_transforms[name] = vtk.vtkTransform()
@@ -1098,6 +1153,7 @@ class VTKViewer:
         transform.PreMultiply()
         self.render_window.Render()
 
+    @_locked
     def move_part_to(self, name: str, x: float, y: float, z: float):
         """
         Move a part to absolute position (centers part at position).
@@ -1119,7 +1175,7 @@ class VTKViewer:
             If part name is not found.
         """
         if name not in self.actors:
-            raise KeyError(f"Part not found: {name}")
+            raise PartNotFoundError(name)
 
         actor = self.actors[name]
         bounds = actor.GetBounds()
@@ -1158,6 +1214,7 @@ class VTKViewer:
             self._event_callbacks[event_type] = []
         self._event_callbacks[event_type].append(callback)
 
+    @_locked
     def get_status(self) -> StatusEvent:
         """
         Get current viewer status.
@@ -1180,6 +1237,7 @@ class VTKViewer:
     # Public API - Main Loop
     # =========================================================================
 
+    @_locked
     def render(self):
         """Trigger a render update."""
         self.render_window.Render()
@@ -1255,6 +1313,7 @@ class VTKViewer:
         except Exception as e:
             print(f"Command file error: {e}")
 
+    @_locked
     def _process_file_command(self, cmd: str):
         """
         Process a command from the file-based interface.
-- 
2.43.0


From e7678a92c6947372babe5256c40d0a6f151ebd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:04 +0000
Subject: [PATCH 39/80] fix: viewer socket commands that are unknown or
 malformed are answered with a failure; GET /screenshot leaves no file behind

---
 src/yapcad/viewer/api_server.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/viewer/api_server.py b/src/yapcad/viewer/api_server.py
index 022ca11..955e1e5 100644
--- a/src/yapcad/viewer/api_server.py
+++ b/src/yapcad/viewer/api_server.py
@@ -715,13 +715,14 @@ class ViewerAPIServer:
             """
             # Capture to temp file and return
             import tempfile
-            with tempfile.NamedTemporaryFile(suffix=".png", delete=False) as f:
-                filepath = self.viewer.screenshot(f.name)
-                return send_file(
-                    filepath,
-                    mimetype="image/png",
-                    as_attachment=False
-                )
+            with tempfile.TemporaryDirectory() as tmp:
+                filepath = self.viewer.screenshot("screenshot.png", tmp)
+                picture = io.BytesIO(Path(filepath).read_bytes())
+            return send_file(
+                picture,
+                mimetype="image/png",
+                as_attachment=False
+            )
 
         @self.app.route("/screenshot", methods=["POST"])
         @whole
@@ -1092,7 +1093,7 @@ class ViewerAPIServer:
             if sid not in self._subscriptions:
                 self._subscriptions[sid] = set()
             self._subscriptions[sid].update(events)
-            emit("subscribed", {"events": list(self._subscriptions[sid])})
+            emit("subscribed", {"events": sorted(self._subscriptions[sid])})
 
         @self.socketio.on(EventType.UNSUBSCRIBE.value)
         def handle_unsubscribe(data):
@@ -1125,12 +1126,13 @@ class ViewerAPIServer:
             """
             try:
                 cmd = CommandMessage.from_dict(data)
-                self._execute_command(cmd)
+                with self.viewer.lock:
+                    self._execute_command(cmd)
                 emit("command_result", {"success": True, "command": cmd.command})
             except Exception as e:
                 emit("command_result", {
                     "success": False,
-                    "command": data.get("command"),
+                    "command": data.get("command") if isinstance(data, dict) else None,
                     "error": str(e)
                 })
 
@@ -1144,6 +1146,8 @@ class ViewerAPIServer:
             Command to execute.
         """
         params = cmd.params
+        if not isinstance(params, dict):
+            raise ValueError("'params' must be an object")
 
         if cmd.command == CommandType.LOAD.value:
             if "positions_file" in params:
@@ -1161,6 +1165,8 @@ class ViewerAPIServer:
 
         elif cmd.command == CommandType.XRAY.value:
             if "enabled" in params:
+                if not isinstance(params["enabled"], bool):
+                    raise ValueError("'enabled' must be true or false")
                 self.viewer.set_xray(params["enabled"], params.get("opacity"))
             else:
                 self.viewer.toggle_xray()
@@ -1215,6 +1221,9 @@ class ViewerAPIServer:
                 params["z"]
             )
 
+        else:
+            raise ValueError(f"Unknown command: {cmd.command!r}")
+
     def _connect_viewer_events(self):
         """Connect viewer events to WebSocket broadcasts."""
 
-- 
2.43.0


From 44083b0fc40ccbd70132703d68c943f68fdd4e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:57 +0000
Subject: [PATCH 40/80] fix: the whiteboard stays inside its root, replaces
 files in one step and commits only the saved file

---
 src/yapcad/viewer/api_server.py | 126 +++++++++++++++++++++++++-------
 1 file changed, 98 insertions(+), 28 deletions(-)

diff --git a/src/yapcad/viewer/api_server.py b/src/yapcad/viewer/api_server.py
index 955e1e5..1f51a93 100644
--- a/src/yapcad/viewer/api_server.py
+++ b/src/yapcad/viewer/api_server.py
@@ -88,8 +88,10 @@ Requires Flask and related packages::
 import functools
 import io
 import os
+import shutil
 import subprocess
 import threading
+import uuid
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Set
 
@@ -118,6 +120,53 @@ def _json_object() -> Dict[str, Any]:
     return data
 
 
+def _resolved(path: Path) -> Path:
+    """path with every link followed; unlike Path.resolve() a link that cannot be read is an error."""
+    try:
+        return path.resolve(strict=True)
+    except FileNotFoundError:
+        if path.is_symlink():
+            return _resolved(path.parent / os.readlink(path))
+        return _resolved(path.parent) / path.name
+
+
+def _whiteboard_target(root: Path, rel_path: str) -> Path:
+    """
+    The file a whiteboard path names.
+
+    Raises ValueError unless it lies, with every link followed, inside the
+    whiteboard and outside its repository's own data.
+    """
+    if b"\0" in rel_path.encode("utf-8"):
+        raise ValueError("Path must not contain NUL")
+    base = _resolved(root)
+    target = _resolved(base / rel_path)
+    if not target.is_relative_to(base) or target == base:
+        raise ValueError("Path escapes Whiteboard root")
+    if any(part.lower() == ".git" for part in target.relative_to(base).parts):
+        raise ValueError("Path lies in the Whiteboard's .git directory")
+    return target
+
+
+def _replace_file(target: Path, data: bytes):
+    """Write a file so that it holds either what it held before or all of data."""
+    partial = target.with_name(f".saving-{uuid.uuid4().hex}")
+    try:
+        with open(partial, "xb") as f:
+            f.write(data)
+            f.flush()
+            os.fsync(f.fileno())
+        if target.exists():
+            shutil.copymode(target, partial)
+        os.replace(partial, target)
+    except OSError:
+        try:
+            partial.unlink(missing_ok=True)
+        except OSError:
+            pass
+        raise
+
+
 class ViewerAPIServer:
     """
     REST API and WebSocket server for the VTK viewer.
@@ -182,6 +231,7 @@ class ViewerAPIServer:
         self._subscriptions: Dict[str, Set[str]] = {}  # sid -> set of event types
         self._viewer_thread: Optional[threading.Thread] = None
         self._running = False
+        self._whiteboard_lock = threading.Lock()
 
         # Create Flask app
         self.app = Flask(__name__)
@@ -843,9 +893,13 @@ class ViewerAPIServer:
                 return jsonify({"error": _WHITEBOARD_DISABLED_MSG}), 501
 
             data = _json_object()
-            rel_path = data.get("path", "").strip()
+            rel_path = data.get("path", "")
             content  = data.get("content")
-            message  = data.get("message", "").strip()
+            message  = data.get("message", "")
+            if not isinstance(rel_path, str) or not isinstance(message, str):
+                return jsonify({"error": "'path' and 'message' must be strings"}), 400
+            rel_path = rel_path.strip()
+            message = message.strip()
 
             # ── Validate inputs ──────────────────────────────────────────────
             if not rel_path:
@@ -855,45 +909,58 @@ class ViewerAPIServer:
             if ".." in rel_path:
                 return jsonify({"error": "Path traversal ('..') not allowed"}), 400
 
-            target = WHITEBOARD_ROOT / rel_path
-            if not str(target).startswith(str(WHITEBOARD_ROOT)):
-                return jsonify({"error": "Path escapes Whiteboard root"}), 400
+            if not isinstance(content, str):
+                return jsonify({"error": "'content' must be a string"}), 400
 
             if not message:
                 message = f"Update {rel_path} from yapCAD viewer"
 
+            try:
+                target = _whiteboard_target(WHITEBOARD_ROOT, rel_path)
+                payload = content.encode("utf-8")
+                if b"\0" in message.encode("utf-8"):
+                    raise ValueError("'message' must not contain NUL")
+            except (OSError, RuntimeError, ValueError) as exc:
+                return jsonify({"error": str(exc)}), 400
+
+            with self._whiteboard_lock:
+                return _save_and_commit(WHITEBOARD_ROOT, target, payload, message)
+
+        def _save_and_commit(WHITEBOARD_ROOT, target, payload, message):
             # ── Write file ───────────────────────────────────────────────────
             try:
                 target.parent.mkdir(parents=True, exist_ok=True)
-                target.write_text(content, encoding="utf-8")
+                _replace_file(target, payload)
             except OSError as exc:
                 return jsonify({"error": f"File write failed: {exc}"}), 500
 
             # ── Git add + commit ─────────────────────────────────────────────
             try:
-                subprocess.run(
-                    ["git", "add", str(target)],
-                    cwd=str(WHITEBOARD_ROOT),
-                    check=True, capture_output=True, text=True
-                )
-                result = subprocess.run(
-                    ["git", "commit", "-m", message],
-                    cwd=str(WHITEBOARD_ROOT),
-                    capture_output=True, text=True
-                )
+                def git(*args, check=True):
+                    return subprocess.run(
+                        ["git", "--literal-pathspecs", *args],
+                        cwd=str(WHITEBOARD_ROOT),
+                        check=check, capture_output=True, text=True
+                    )
+
+                git("add", "--", str(target))
+                # Only this file: what else is staged stays staged
+                result = git("commit", "-m", message, "--", str(target), check=False)
                 committed = result.returncode == 0
-                # Extract short SHA from output ("[main abc1234] ...") if committed
-                sha = ""
-                if committed and result.stdout:
-                    import re
-                    m = re.search(r"\[\S+ ([0-9a-f]+)\]", result.stdout)
-                    sha = m.group(1) if m else ""
+                if not committed and git("status", "--porcelain", "--", str(target)).stdout.strip():
+                    # Not just "nothing to commit"
+                    return jsonify({
+                        "error": f"git commit failed: {(result.stderr or result.stdout).strip()}"
+                    }), 500
+                sha = git("rev-parse", "--short", "HEAD", check=False).stdout.strip() if committed else ""
             except subprocess.CalledProcessError as exc:
                 return jsonify({
-                    "error": f"git add failed: {exc.stderr.strip()}"
+                    "error": f"git {exc.cmd[2]} failed: {exc.stderr.strip()}"
                 }), 500
             except FileNotFoundError:
                 return jsonify({"error": "git not found on PATH"}), 500
+            except OSError as exc:
+                return jsonify({"error": f"git failed: {exc}"}), 500
 
             return jsonify({
                 "success": True,
@@ -945,13 +1012,16 @@ class ViewerAPIServer:
             if ".." in rel_path:
                 return jsonify({"error": "Path traversal not allowed"}), 400
 
-            target = WHITEBOARD_ROOT / rel_path
-            if not target.exists():
-                return jsonify({"error": f"File not found: {rel_path}"}), 404
+            try:
+                target = _whiteboard_target(WHITEBOARD_ROOT, rel_path)
+            except (OSError, RuntimeError, ValueError) as exc:
+                return jsonify({"error": str(exc)}), 400
 
             try:
-                content = target.read_text(encoding="utf-8")
-            except OSError as exc:
+                if not target.exists():
+                    return jsonify({"error": f"File not found: {rel_path}"}), 404
+                content = target.read_bytes().decode("utf-8")
+            except (OSError, UnicodeDecodeError) as exc:
                 return jsonify({"error": str(exc)}), 500
 
             return jsonify({"content": content, "path": rel_path})
-- 
2.43.0


From c90e86360b9586620146f7526a968738e312bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 41/80] fix: package verification reads the manifest once,
 reports unreadable signature files and leaves no temporary files

verify_package took the content hash and the signature list from two
separate reads, so a package updated in between was judged by a mixture
of two versions; a signature file that cannot be read or is not text
raised out of verify_package; a failing write of a temporary file left
it behind.
---
 src/yapcad/package/signing.py | 98 ++++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 37 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index ae01ce0..895dae9 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -120,9 +120,16 @@ def _compute_canonical_manifest_hash(manifest_path: Path) -> str:
     4. Serializing to JSON
     5. Computing SHA-256
     """
+    return _canonical_hash(_read_manifest(manifest_path))
+
+
+def _read_manifest(manifest_path: Path) -> Dict[str, Any]:
     with open(manifest_path, 'r', encoding='utf-8') as f:
-        data = yaml.safe_load(f)
-    
+        return yaml.safe_load(f)
+
+
+def _canonical_hash(data: Dict[str, Any]) -> str:
+    """Canonical hash of loaded manifest data, see above."""
     # Remove signatures section (we're signing the content, not the signatures)
     if 'signatures' in data:
         data = {k: v for k, v in data.items() if k != 'signatures'}
@@ -146,6 +153,26 @@ def _create_signable_content(manifest_hash: str) -> bytes:
     return content.encode('utf-8')
 
 
+def _temp_file(content: bytes, suffix: str = "") -> str:
+    """Write content to a new temporary file; nothing is left behind when that fails."""
+    f = tempfile.NamedTemporaryFile(mode='wb', delete=False, suffix=suffix)
+    try:
+        with f:
+            f.write(content)
+    except BaseException:
+        _remove_files(f.name)
+        raise
+    return f.name
+
+
+def _remove_files(*paths: Optional[str]) -> None:
+    for path in filter(None, paths):
+        try:
+            Path(path).unlink(missing_ok=True)
+        except OSError:
+            pass  # a leftover temporary file must not hide the outcome
+
+
 def _sign_with_gpg(content: bytes, key_id: Optional[str] = None) -> tuple[str, str, str]:
     """Sign content with GPG.
     
@@ -201,9 +228,7 @@ def _sign_with_ssh(content: bytes, key_path: Path, namespace: str = "ycpkg") ->
         raise SigningError(f"SSH key not found: {key_path}")
     
     # Write content to temp file (ssh-keygen needs file input)
-    with tempfile.NamedTemporaryFile(mode='wb', delete=False) as f:
-        f.write(content)
-        content_file = f.name
+    content_file = _temp_file(content)
     
     try:
         # Sign
@@ -236,8 +261,7 @@ def _sign_with_ssh(content: bytes, key_path: Path, namespace: str = "ycpkg") ->
         raise SigningError("ssh-keygen not found. OpenSSH 8.0+ required for SSH signing.")
     finally:
         # Cleanup
-        Path(content_file).unlink(missing_ok=True)
-        Path(content_file + ".sig").unlink(missing_ok=True)
+        _remove_files(content_file, content_file + ".sig")
     
     return signature, signer_id, fingerprint
 
@@ -247,15 +271,11 @@ def _verify_gpg_signature(content: bytes, signature: str, keyring: Optional[Path
     
     Returns: (status, signer_id, error_message)
     """
-    with tempfile.NamedTemporaryFile(mode='wb', delete=False, suffix='.content') as f:
-        f.write(content)
-        content_file = f.name
-    
-    with tempfile.NamedTemporaryFile(mode='w', delete=False, suffix='.sig') as f:
-        f.write(signature)
-        sig_file = f.name
-    
+    content_file = sig_file = None
     try:
+        content_file = _temp_file(content, '.content')
+        sig_file = _temp_file(signature.encode('utf-8'), '.sig')
+
         cmd = ["gpg"]
         if keyring:
             # gpg only accepts options ahead of the command's file arguments
@@ -263,7 +283,7 @@ def _verify_gpg_signature(content: bytes, signature: str, keyring: Optional[Path
         cmd.extend(["--verify", sig_file, content_file])
         
         result = subprocess.run(cmd, capture_output=True)
-        stderr = result.stderr.decode('utf-8')
+        stderr = result.stderr.decode('utf-8', 'replace')
         
         if result.returncode == 0:
             # Extract signer from output
@@ -284,8 +304,7 @@ def _verify_gpg_signature(content: bytes, signature: str, keyring: Optional[Path
     except FileNotFoundError:
         return VerificationStatus.ERROR, "unknown", "GPG not found"
     finally:
-        Path(content_file).unlink(missing_ok=True)
-        Path(sig_file).unlink(missing_ok=True)
+        _remove_files(content_file, sig_file)
 
 
 def _verify_ssh_signature(
@@ -298,15 +317,11 @@ def _verify_ssh_signature(
     
     Returns: (status, signer_id, error_message)
     """
-    with tempfile.NamedTemporaryFile(mode='wb', delete=False, suffix='.content') as f:
-        f.write(content)
-        content_file = f.name
-    
-    with tempfile.NamedTemporaryFile(mode='w', delete=False, suffix='.sig') as f:
-        f.write(signature)
-        sig_file = f.name
-    
+    content_file = sig_file = None
     try:
+        content_file = _temp_file(content, '.content')
+        sig_file = _temp_file(signature.encode('utf-8'), '.sig')
+
         # Is this a signature of this content at all, by whichever key?
         check = subprocess.run(
             ["ssh-keygen", "-Y", "check-novalidate", "-n", namespace, "-s", sig_file],
@@ -344,8 +359,7 @@ def _verify_ssh_signature(
     except FileNotFoundError:
         return VerificationStatus.ERROR, "unknown", "ssh-keygen not found"
     finally:
-        Path(content_file).unlink(missing_ok=True)
-        Path(sig_file).unlink(missing_ok=True)
+        _remove_files(content_file, sig_file)
 
 
 def _signature_file(sig_dir: Path, name: str, kept: List[Dict[str, Any]]) -> Path:
@@ -390,11 +404,10 @@ def sign_package(
         method = SignatureMethod(method.lower())
     
     # Compute manifest hash
-    manifest_hash = _compute_canonical_manifest_hash(manifest_path)
+    manifest = _read_manifest(manifest_path)
+    manifest_hash = _canonical_hash(manifest)
     content = _create_signable_content(manifest_hash)
     
-    with open(manifest_path, 'r', encoding='utf-8') as f:
-        manifest = yaml.safe_load(f)
     kept = list(manifest.get("signatures") or []) if add else []
     
     # Create signatures directory
@@ -476,14 +489,13 @@ def verify_package(
             errors=["Package manifest not found"]
         )
     
+    # Load the manifest once: hash and signature list belong to the same version
+    manifest = _read_manifest(manifest_path)
+    
     # Compute expected manifest hash
-    manifest_hash = _compute_canonical_manifest_hash(manifest_path)
+    manifest_hash = _canonical_hash(manifest)
     content = _create_signable_content(manifest_hash)
     
-    # Load manifest
-    with open(manifest_path, 'r', encoding='utf-8') as f:
-        manifest = yaml.safe_load(f)
-    
     result = VerificationResult(
         package_path=str(pkg_path),
         manifest_hash=f"sha256:{manifest_hash}",
@@ -517,7 +529,19 @@ def verify_package(
             result.signatures.append(sig_info)
             continue
         
-        signature = sig_file_path.read_text()
+        try:
+            signature = sig_file_path.read_text(encoding='utf-8')
+        except (OSError, UnicodeDecodeError) as exc:
+            result.signatures.append(SignatureInfo(
+                signer=sig_entry.get("signer", "unknown"),
+                method=method,
+                key_id=sig_entry.get("key_id", "unknown"),
+                timestamp=sig_entry.get("timestamp", ""),
+                signature_file=sig_entry.get("signature_file", ""),
+                status=VerificationStatus.ERROR,
+                error_message=f"Cannot read signature file: {exc}"
+            ))
+            continue
         
         if method == SignatureMethod.GPG:
             status, signer, error = _verify_gpg_signature(
-- 
2.43.0


From 81d8366bfb8a039598b70479fd6d828773a389df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:13 +0000
Subject: [PATCH 42/80] fix: replaced files survive a power loss once success
 is reported

The new content was flushed but not the rename that puts it in place, so
a manifest update, chain export or file export that had returned could
be undone by a power loss. Open the directory first (so that failing to
costs nothing) and flush it after the rename.
---
 src/yapcad/io/replace.py       | 17 +++++++++++++++--
 src/yapcad/kinematics/chain.py |  4 +++-
 src/yapcad/package/core.py     |  3 ++-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/io/replace.py b/src/yapcad/io/replace.py
index a4cdf5a..1069842 100644
--- a/src/yapcad/io/replace.py
+++ b/src/yapcad/io/replace.py
@@ -9,6 +9,19 @@ import uuid
 from typing import IO, Iterator
 
 
+def replace_durably(source, target) -> None:
+    """``os.replace`` that has reached the disk, and so survives a power loss, when it returns."""
+    if os.name == 'nt':  # directories cannot be opened there
+        os.replace(source, target)
+        return
+    directory = os.open(os.path.dirname(os.path.abspath(target)), os.O_RDONLY)
+    try:
+        os.replace(source, target)
+        os.fsync(directory)
+    finally:
+        os.close(directory)
+
+
 @contextlib.contextmanager
 def replacing(path, mode: str = 'wb', **kwargs) -> Iterator[IO]:
     """Open a stream whose content replaces ``path`` when the block ends.
@@ -43,11 +56,11 @@ def replacing(path, mode: str = 'wb', **kwargs) -> Iterator[IO]:
             os.fsync(stream.fileno())
         if mode_bits is not None:
             os.chmod(tmp, stat.S_IMODE(mode_bits))
-        os.replace(tmp, target)
+        replace_durably(tmp, target)
     except BaseException:
         with contextlib.suppress(FileNotFoundError):
             os.unlink(tmp)
         raise
 
 
-__all__ = ['replacing']
+__all__ = ['replacing', 'replace_durably']
diff --git a/src/yapcad/kinematics/chain.py b/src/yapcad/kinematics/chain.py
index 8b508cf..87c79db 100644
--- a/src/yapcad/kinematics/chain.py
+++ b/src/yapcad/kinematics/chain.py
@@ -12,6 +12,8 @@ import os
 from pathlib import Path
 from typing import Dict, List, Optional, Any
 
+from yapcad.io.replace import replace_durably
+
 from .transform import Transform
 from .joint import Joint, JointType
 from .frame import CoordinateFrame
@@ -343,7 +345,7 @@ class KinematicChain:
                 json.dump(data, f, indent=2)
                 f.flush()
                 os.fsync(f.fileno())
-            os.replace(tmp, path)
+            replace_durably(tmp, path)
         except BaseException:
             tmp.unlink(missing_ok=True)
             raise
diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index c07be79..3d04815 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -15,6 +15,7 @@ from typing import Any, Dict, Iterable, List, Optional, Sequence
 from yapcad import __version__ as _yapcad_version
 from yapcad.geom3d import issolid, issurface
 from yapcad.io.geometry_json import SCHEMA_ID as GEOMETRY_SCHEMA, geometry_from_json, geometry_to_json
+from yapcad.io.replace import replace_durably
 from yapcad.metadata import (
     get_solid_metadata,
     get_surface_metadata,
@@ -48,7 +49,7 @@ def _replace_file(path: Path, payload: bytes) -> None:
             os.fsync(fp.fileno())
         if target.exists():
             shutil.copymode(target, tmp)
-        os.replace(tmp, target)
+        replace_durably(tmp, target)
     except BaseException:
         tmp.unlink(missing_ok=True)
         raise
-- 
2.43.0


From ea4a295966ac580fbeae1cebe0609a954e85a90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:34 +0000
Subject: [PATCH 43/80] fix: the FEniCS backend never counts an unknown
 comparison or NaN as passed

A comparison it does not know and a result that is not a number (an
unconstrained part, a diverged solve) satisfied every criterion.
---
 src/yapcad/package/analysis/fenics.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/package/analysis/fenics.py b/src/yapcad/package/analysis/fenics.py
index 3b1759a..ace99af 100644
--- a/src/yapcad/package/analysis/fenics.py
+++ b/src/yapcad/package/analysis/fenics.py
@@ -740,6 +740,7 @@ class FenicsxAdapter(AnalysisAdapter):
         if not acceptance:
             return "passed" if metrics else "pending"
 
+        status = "passed"
         for key, rule in acceptance.items():
             metric_value = metrics.get(key)
 
@@ -750,14 +751,12 @@ class FenicsxAdapter(AnalysisAdapter):
                 metric_value = metrics.get(key.replace(".", "_"))
 
             if metric_value is None:
-                return "pending"
+                status = "pending"
+                continue
 
             limit = rule.get("limit")
             if limit is None:
                 limit = rule.get("limit_mm")
-                if limit is not None:
-                    # Convert to base units if needed
-                    pass
 
             if limit is None:
                 continue
@@ -765,16 +764,19 @@ class FenicsxAdapter(AnalysisAdapter):
             limit = float(limit)
             comparison = rule.get("comparison", "<=")
 
-            if comparison == "<=" and metric_value > limit:
+            # an unknown comparison decides nothing, and NaN satisfies none
+            if comparison not in ("<=", "<", ">=", ">"):
+                status = "pending"
+            elif comparison == "<=" and not (metric_value <= limit):
                 return "failed"
-            elif comparison == "<" and metric_value >= limit:
+            elif comparison == "<" and not (metric_value < limit):
                 return "failed"
-            elif comparison == ">=" and metric_value < limit:
+            elif comparison == ">=" and not (metric_value >= limit):
                 return "failed"
-            elif comparison == ">" and metric_value <= limit:
+            elif comparison == ">" and not (metric_value > limit):
                 return "failed"
 
-        return "passed"
+        return status
 
 
 # Register the backend
-- 
2.43.0


From d5212d6c963cd25e8fb5016ea4b182db531218b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:27 +0000
Subject: [PATCH 44/80] fix: signatures distinguish manifest keys and values
 that JSON writes alike, and sign dates, binary data and sets

---
 src/yapcad/package/signing.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 895dae9..8e4c802 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -135,13 +135,37 @@ def _canonical_hash(data: Dict[str, Any]) -> str:
         data = {k: v for k, v in data.items() if k != 'signatures'}
     
     # Canonicalize: sort keys, compact JSON
-    canonical = json.dumps(data, sort_keys=True, separators=(',', ':'))
+    canonical = json.dumps(_json_value(data), sort_keys=True, separators=(',', ':'))
     
     # Compute hash
     hash_bytes = hashlib.sha256(canonical.encode('utf-8')).digest()
     return hash_bytes.hex()
 
 
+def _json_value(value: Any) -> Any:
+    """JSON form of manifest data, a different one for each different value.
+
+    JSON has only string keys and no dates, binary data or sets; where a
+    manifest has one of these it becomes text beginning with NUL and its type.
+    """
+    if isinstance(value, dict):
+        return {_json_key(k): _json_value(v) for k, v in value.items()}
+    if isinstance(value, (list, tuple)):
+        return [_json_value(v) for v in value]
+    if isinstance(value, (set, frozenset)):
+        return "\0set:" + json.dumps(sorted(_json_key(v) for v in value))
+    if value is None or isinstance(value, (bool, int, float)):
+        return value
+    return _json_key(value)
+
+
+def _json_key(value: Any) -> str:
+    """Text for a mapping key (or other scalar); ordinary strings stand for themselves."""
+    if isinstance(value, str) and not value.startswith("\0"):
+        return value
+    return f"\0{type(value).__name__}:{value!r}"
+
+
 def _create_signable_content(manifest_hash: str) -> bytes:
     """Create the content to be signed.
     
-- 
2.43.0


From 6f78e2b628e2b5c35da906133c6c9d85d8173b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 45/80] fix: the last point of a NURBS with interior knots is
 the end of the curve

---
 src/yapcad/spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/spline.py b/src/yapcad/spline.py
index 47c419f..1cec424 100644
--- a/src/yapcad/spline.py
+++ b/src/yapcad/spline.py
@@ -679,7 +679,7 @@ def _nurbs_point(ctrl: Sequence[list], weights: Sequence[float], knots: Sequence
 
 def _nip(i: int, p: int, u: float, knots: Sequence[float]) -> float:
     if p == 0:
-        if knots[i] <= u < knots[i + 1] or (u == knots[-1] and knots[i] < knots[i + 1]):
+        if knots[i] <= u < knots[i + 1] or (knots[i] < u == knots[i + 1] == knots[-1]):
             return 1.0
         return 0.0
 
-- 
2.43.0


From 8eb3ce97e0a9cf106b3647bbbadb3d9153db1b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 46/80] fix: an ASCII STL name with line ends stays on its line

---
 src/yapcad/io/stl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index 0a7a4f7..8901faa 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -64,6 +64,7 @@ def _write_ascii(triangles: Iterable[Triangle], path_or_file, name: str) -> None
         else:
             stream = stack.enter_context(replacing(path_or_file, 'w', encoding='ascii'))
 
+        name = ' '.join(name.splitlines())  # the name ends with its line
         print(f"solid {name}", file=stream)
         for tri in triangles:
             print(f"  facet normal {tri.normal[0]:.6e} {tri.normal[1]:.6e} {tri.normal[2]:.6e}", file=stream)
-- 
2.43.0


From 4a2e61c92b6838890346ab0d2a7d727ae63ce006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 47/80] fix: STEP export of a solid is closed when its faces
 meet up to round-off

---
 src/yapcad/io/step.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index eaf7028..ea55d97 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 from collections import defaultdict
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from typing import Dict, List, Optional, Sequence, TextIO, Tuple, Union
 import contextlib
 import os
@@ -232,6 +232,11 @@ def write_step(obj: Sequence,
     triangles = list(triangles_from_mesh(mesh_view(obj)))
     if not triangles:
         raise ValueError('object produced no triangles for STEP export')
+    # corners are the same where the file says so: round-off between faces
+    # would open a closed solid
+    triangles = [replace(tri, v0=_written(tri.v0), v1=_written(tri.v1), v2=_written(tri.v2))
+                 for tri in triangles]
+    triangles = [tri for tri in triangles if len({tri.v0, tri.v1, tri.v2}) == 3]
     writer = _EntityWriter()
 
     vertex_map: Dict[Vec3, _Vertex] = {}
@@ -434,6 +439,10 @@ def write_step(obj: Sequence,
         stream.write("ENDSEC;\nEND-ISO-10303-21;\n")
 
 
+def _written(coords: Vec3) -> Vec3:
+    return tuple(round(c, 6) + 0.0 for c in coords)
+
+
 def _write_header(stream: TextIO, name: str, schema: str) -> None:
     stream.write("ISO-10303-21;\n")
     stream.write("HEADER;\n")
-- 
2.43.0


From af5494efeb899a5d282f5bef911b4da7442b1a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:58 +0000
Subject: [PATCH 48/80] fix: STEP names with quotes, backslashes or other
 characters give readable files

---
 src/yapcad/io/step.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index ea55d97..201e5bc 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -237,6 +237,7 @@ def write_step(obj: Sequence,
     triangles = [replace(tri, v0=_written(tri.v0), v1=_written(tri.v1), v2=_written(tri.v2))
                  for tri in triangles]
     triangles = [tri for tri in triangles if len({tri.v0, tri.v1, tri.v2}) == 3]
+    name = _string(name)
     writer = _EntityWriter()
 
     vertex_map: Dict[Vec3, _Vertex] = {}
@@ -443,6 +444,20 @@ def _written(coords: Vec3) -> Vec3:
     return tuple(round(c, 6) + 0.0 for c in coords)
 
 
+def _string(text: str) -> str:
+    """Contents of a STEP string literal: quotes and backslashes are doubled,
+    characters outside its alphabet are written by code."""
+    out = []
+    for char in text:
+        if ' ' <= char <= '~':
+            out.append(char * 2 if char in "'\\" else char)
+        elif ord(char) < 0x10000:
+            out.append(f"\\X2\\{ord(char):04X}\\X0\\")
+        else:
+            out.append(f"\\X4\\{ord(char):08X}\\X0\\")
+    return ''.join(out)
+
+
 def _write_header(stream: TextIO, name: str, schema: str) -> None:
     stream.write("ISO-10303-21;\n")
     stream.write("HEADER;\n")
-- 
2.43.0


From d1b94c4c8fcd296fd508573d7e59b208f4a7da0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:45 +0000
Subject: [PATCH 49/80] fix: a datum is transformed by a numpy transform, not
 left where it was

---
 src/yapcad/assembly/datum.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/datum.py b/src/yapcad/assembly/datum.py
index 7a509db..4901681 100644
--- a/src/yapcad/assembly/datum.py
+++ b/src/yapcad/assembly/datum.py
@@ -299,8 +299,9 @@ class Datum:
         (assuming uniform scaling).
 
         Args:
-            matrix: 4x4 transformation matrix, either as yapCAD Matrix object
-                   or as a list of 4 rows (each row is a 4-element list)
+            matrix: 4x4 transformation matrix, either as yapCAD Matrix object,
+                   as a list of 4 rows (each row is a 4-element list), or as
+                   a 4x4 numpy array
 
         Returns:
             A new Datum with transformed geometry
@@ -320,6 +321,8 @@ class Datum:
         """
         # Convert to Matrix if needed
         if not isinstance(matrix, Matrix):
+            if hasattr(matrix, 'tolist'):  # numpy array
+                matrix = matrix.tolist()
             matrix = Matrix(matrix)
 
         # Helper to transform a point (w=1)
-- 
2.43.0


From 217525018b0cb7d56b5faaf788628d205acea745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:45 +0000
Subject: [PATCH 50/80] fix: Assembly.validate_and_raise and report name the
 failed constraint's message

---
 src/yapcad/assembly/assembly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/assembly/assembly.py b/src/yapcad/assembly/assembly.py
index b8cf829..5065f7c 100644
--- a/src/yapcad/assembly/assembly.py
+++ b/src/yapcad/assembly/assembly.py
@@ -159,7 +159,7 @@ class AssemblyValidationResult:
         ...     print(f"Found {len(result.failed_constraints)} failures")
         ...     for name in result.failed_constraints:
         ...         cr = result.constraint_results[name]
-        ...         print(f"  {name}: {cr.message}")
+        ...         print(f"  {name}: {cr.error_message}")
     """
 
     is_valid: bool
@@ -623,7 +623,7 @@ class Assembly:
             lines = [f"Assembly '{self.name}' validation failed:"]
             for name in result.failed_constraints:
                 cr = result.constraint_results[name]
-                lines.append(f"  - {name}: {cr.message}")
+                lines.append(f"  - {name}: {cr.error_message}")
 
             raise AssemblyError(
                 "\n".join(lines),
@@ -877,7 +877,7 @@ class Assembly:
                 lines.append(f"  STATUS: INVALID ({len(result.failed_constraints)} failures)")
                 for name in result.failed_constraints:
                     cr = result.constraint_results[name]
-                    lines.append(f"    FAILED: {name} - {cr.message}")
+                    lines.append(f"    FAILED: {name} - {cr.error_message}")
 
             if result.warnings:
                 lines.append(f"  WARNINGS: {len(result.warnings)}")
-- 
2.43.0


From dec5ee43e0fd817d8625dc4cc09851f180ac1464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:45 +0000
Subject: [PATCH 51/80] fix: Assembly.get_degrees_of_freedom works for every
 mate type

---
 src/yapcad/assembly/assembly.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/yapcad/assembly/assembly.py b/src/yapcad/assembly/assembly.py
index 5065f7c..07ca65d 100644
--- a/src/yapcad/assembly/assembly.py
+++ b/src/yapcad/assembly/assembly.py
@@ -657,22 +657,11 @@ class Assembly:
         # This is a simplified approximation
         # A full implementation would build the constraint Jacobian
         for mate in self.mates:
-            # Estimate DOF removed by each mate type
-            if mate.mate_type == MateType.COINCIDENT:
-                # Removes 3 DOF (position locked)
-                dof[mate.part2] = max(0, dof[mate.part2] - 3)
-            elif mate.mate_type == MateType.CONCENTRIC:
-                # Removes 2 DOF (can slide and rotate along axis)
-                dof[mate.part2] = max(0, dof[mate.part2] - 2)
-            elif mate.mate_type == MateType.FLUSH:
-                # Removes 3 DOF (orientation locked, can slide in plane)
-                dof[mate.part2] = max(0, dof[mate.part2] - 3)
-            elif mate.mate_type == MateType.PARALLEL:
-                # Removes 2 DOF (2 rotation axes locked)
-                dof[mate.part2] = max(0, dof[mate.part2] - 2)
-            elif mate.mate_type == MateType.PERPENDICULAR:
-                # Removes 1 DOF (1 rotation axis locked)
-                dof[mate.part2] = max(0, dof[mate.part2] - 1)
+            # Estimate DOF removed by each mate type from what it leaves
+            # free (coupled mates remove none)
+            remaining = mate.degrees_of_freedom()
+            if remaining >= 0:
+                dof[mate.part2] = max(0, dof[mate.part2] - (6 - remaining))
 
         return dof
 
-- 
2.43.0


From 3119c8778501a4b857c72bfe412b90a305b9f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:45 +0000
Subject: [PATCH 52/80] fix: importing kinematic chain transforms takes the
 chain's own export, all or nothing

---
 src/yapcad/assembly/assembly.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/assembly/assembly.py b/src/yapcad/assembly/assembly.py
index 07ca65d..cd3b346 100644
--- a/src/yapcad/assembly/assembly.py
+++ b/src/yapcad/assembly/assembly.py
@@ -700,18 +700,29 @@ class Assembly:
             )
 
         # Expected format: {"parts": {"part_name": {"transform": [...]}}}
-        if "parts" not in data:
+        # or what KinematicChain.export_json writes:
+        # {"parts": {"part_name": {"world_transform": {"matrix": [...]}}}}
+        if not isinstance(data, dict) or not isinstance(data.get("parts"), dict):
             raise AssemblyError(
                 "Invalid kinematic chain JSON: missing 'parts' key",
                 assembly_name=self.name
             )
 
+        # Nothing is imported unless everything can be
+        imported = {}
         for part_name, part_data in data["parts"].items():
             if part_name not in self.parts:
                 # Skip parts not in this assembly
                 continue
 
-            if "transform" not in part_data:
+            transform_data = None
+            if isinstance(part_data, dict):
+                transform_data = part_data.get("transform")
+                if transform_data is None:
+                    transform_data = part_data.get("world_transform")
+            if isinstance(transform_data, dict):
+                transform_data = transform_data.get("matrix")
+            if transform_data is None:
                 raise AssemblyError(
                     f"Part '{part_name}' missing 'transform' in JSON",
                     assembly_name=self.name,
@@ -719,15 +730,15 @@ class Assembly:
                 )
 
             # Transform should be 4x4 matrix (16 elements or 4x4 array)
-            transform_data = part_data["transform"]
             if isinstance(transform_data, list):
-                if len(transform_data) == 16:
+                try:
+                    transform = np.array(transform_data, dtype=float)
+                except (TypeError, ValueError):
+                    transform = None
+                if transform is not None and transform.shape == (16,):
                     # Flat list - reshape to 4x4
-                    transform = np.array(transform_data).reshape(4, 4)
-                elif len(transform_data) == 4 and all(len(row) == 4 for row in transform_data):
-                    # Already 4x4
-                    transform = np.array(transform_data)
-                else:
+                    transform = transform.reshape(4, 4)
+                if transform is None or transform.shape != (4, 4):
                     raise AssemblyError(
                         f"Invalid transform format for part '{part_name}'",
                         assembly_name=self.name,
@@ -740,8 +751,9 @@ class Assembly:
                     part_name=part_name
                 )
 
-            self.transforms[part_name] = transform
+            imported[part_name] = transform
 
+        self.transforms.update(imported)
         self._solved = True  # Mark as solved since transforms are imported
 
     def export_to_urdf(self, output_path: Union[str, Path]) -> None:
-- 
2.43.0


From e3b0850cce6c21c91c12499e25b08994376d38f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:45 +0000
Subject: [PATCH 53/80] fix: exported parts carry the name their interfaces and
 load cases refer to

---
 src/yapcad/assembly/mechatron_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/mechatron_export.py b/src/yapcad/assembly/mechatron_export.py
index 90088fb..1d19489 100644
--- a/src/yapcad/assembly/mechatron_export.py
+++ b/src/yapcad/assembly/mechatron_export.py
@@ -502,7 +502,7 @@ def to_mechatron_snapshot(assembly) -> Dict[str, Any]:
     for part_name in _ordered_part_names(assembly):
         part_def = assembly.parts[part_name]
         part_dict: Dict[str, Any] = {
-            "id": str(part_def.name),
+            "id": str(part_name),
             "name": str(part_def.name),
             "material": _material_to_mechatron(getattr(part_def, "material", None)),
             "process": getattr(part_def, "process", None) or "FDM",
-- 
2.43.0


From 2948c965db72ece210d68112030446451531c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:19 +0000
Subject: [PATCH 54/80] fix: an assembly intent lists parameters and issues in
 the same order in every process

---
 src/yapcad/assembly/intent.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/assembly/intent.py b/src/yapcad/assembly/intent.py
index 1e98965..aa7571d 100644
--- a/src/yapcad/assembly/intent.py
+++ b/src/yapcad/assembly/intent.py
@@ -1000,7 +1000,7 @@ class AssemblyIntent:
         for req in self.functional_requirements:
             params.extend(req.get_derived_parameters())
 
-        return list(set(params))  # Remove duplicates
+        return list(dict.fromkeys(params))  # Remove duplicates
 
     def solve(self) -> SolveResult:
         """Solve the assembly intent to derive parameters.
@@ -1081,12 +1081,12 @@ class AssemblyIntent:
                     )
 
         # Check connections reference valid parts
-        parts_mentioned = set()
+        parts_mentioned = {}  # in the order they are mentioned
         for req in self.functional_requirements:
-            parts_mentioned.add(req.part)
+            parts_mentioned[req.part] = True
         for conn in self.connections:
-            parts_mentioned.add(conn.get_parent_part())
-            parts_mentioned.add(conn.get_child_part())
+            parts_mentioned[conn.get_parent_part()] = True
+            parts_mentioned[conn.get_child_part()] = True
 
         # Check for orphan parts (not connected to anything)
         connected_parts = set()
-- 
2.43.0


From 452aa74bdc14e9ed03e4355d09a94216fe475871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:30 +0000
Subject: [PATCH 55/80] fix: a collision detector keeps the empty interface
 registry it is given

---
 src/yapcad/collision/detector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index d6e709a..484415f 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -164,7 +164,11 @@ class CollisionDetector:
             penetration_threshold: Minimum penetration to count as collision (mm)
         """
         self.geometry_provider = geometry_provider
-        self.interface_registry = interface_registry or InterfaceRegistry()
+        # An empty registry is still the caller's registry
+        self.interface_registry = (
+            interface_registry if interface_registry is not None
+            else InterfaceRegistry()
+        )
         self.verbose = verbose
         self.min_collision_volume = min_collision_volume
         self.mesh_sample_points = mesh_sample_points
-- 
2.43.0


From c524751a2af0c9e372bfabd019e40010c3cca5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:30 +0000
Subject: [PATCH 56/80] fix: a mesh collision check gives the same verdict each
 time

---
 src/yapcad/collision/detector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index 484415f..eb58e81 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -522,12 +522,12 @@ class CollisionDetector:
             n_samples = self.mesh_sample_points
 
             # Sample from mesh B, check in mesh A
-            samples_b = mesh_b.sample(n_samples)
+            samples_b = self._sample_surface(mesh_b, n_samples)
             contains_a = mesh_a.contains(samples_b)
             points_b_in_a = np.sum(contains_a)
 
             # Sample from mesh A, check in mesh B
-            samples_a = mesh_a.sample(n_samples)
+            samples_a = self._sample_surface(mesh_a, n_samples)
             contains_b = mesh_b.contains(samples_a)
             points_a_in_b = np.sum(contains_b)
 
@@ -590,6 +590,10 @@ class CollisionDetector:
                 f"Mesh collision check failed: {e}"
             )
 
+    def _sample_surface(self, mesh: Any, count: int) -> Any:
+        """Sample surface points, the same ones each time for the same mesh."""
+        return trimesh.sample.sample_surface(mesh, count, seed=0)[0]
+
     def _load_mesh(self, geom: Any, transform: Any) -> Optional[Any]:
         """Load geometry as trimesh with transform applied."""
         if not HAVE_TRIMESH:
-- 
2.43.0


From 8fab8e6811a815e948dba224120639b4c10ea65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:30 +0000
Subject: [PATCH 57/80] fix: penetration depth is that of the deepest sampled
 point, not the shallowest

---
 src/yapcad/collision/detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index eb58e81..13e7e64 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -544,13 +544,13 @@ class CollisionDetector:
                         prox_a = trimesh.proximity.ProximityQuery(mesh_a)
                         dists = prox_a.signed_distance(samples_b[contains_a])
                         if len(dists) > 0:
-                            penetration_depth = max(penetration_depth, abs(np.min(dists)))
+                            penetration_depth = max(penetration_depth, float(np.max(np.abs(dists))))
 
                     if points_a_in_b > 0:
                         prox_b = trimesh.proximity.ProximityQuery(mesh_b)
                         dists = prox_b.signed_distance(samples_a[contains_b])
                         if len(dists) > 0:
-                            penetration_depth = max(penetration_depth, abs(np.min(dists)))
+                            penetration_depth = max(penetration_depth, float(np.max(np.abs(dists))))
                 except Exception:
                     pass
 
-- 
2.43.0


From 4284e5851e444f8ea8927e2bb7e232ecc8c44f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:30 +0000
Subject: [PATCH 58/80] fix: compatible interface names come in the same order
 in every process

---
 src/yapcad/collision/registry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/collision/registry.py b/src/yapcad/collision/registry.py
index 46d2073..20e90ba 100644
--- a/src/yapcad/collision/registry.py
+++ b/src/yapcad/collision/registry.py
@@ -292,7 +292,8 @@ class InterfaceRegistry:
             return []
 
         # Collect interface names from compatible results
-        names = set()
+        # (in registration order, each once)
+        names: Dict[str, None] = {}
         interfaces_a = self.get_interfaces_for_part(part_a)
         interfaces_b = self.get_interfaces_for_part(part_b)
 
@@ -301,8 +302,8 @@ class InterfaceRegistry:
                 if iface_a.overlaps_with(iface_b):
                     result = iface_a.check_compatibility(iface_b)
                     if result.is_compatible:
-                        names.add(iface_a.name)
-                        names.add(iface_b.name)
+                        names[iface_a.name] = None
+                        names[iface_b.name] = None
 
         return list(names)
 
-- 
2.43.0


From 4da414a71507003addef34d2a15185d47e3f9ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:30 +0000
Subject: [PATCH 59/80] fix: registering several interfaces registers all or
 none

---
 src/yapcad/collision/registry.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/yapcad/collision/registry.py b/src/yapcad/collision/registry.py
index 20e90ba..480d3a2 100644
--- a/src/yapcad/collision/registry.py
+++ b/src/yapcad/collision/registry.py
@@ -96,7 +96,18 @@ class InterfaceRegistry:
 
         Args:
             interfaces: List of InterfaceVolume objects to register
+
+        Raises:
+            ValueError: If a name is already registered or given twice; none
+                of the interfaces is registered then
         """
+        interfaces = list(interfaces)
+        names = set()
+        for interface in interfaces:
+            if interface.name in self._interfaces or interface.name in names:
+                raise ValueError(f"Interface '{interface.name}' already registered")
+            names.add(interface.name)
+
         for interface in interfaces:
             self.register(interface)
 
-- 
2.43.0


From a855e9cc5852d104a8a00d73a75d173e705090fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:57 +0000
Subject: [PATCH 60/80] fix: mesh collision of kinematic constraints counts
 every face, not a random subset

---
 src/yapcad/assembly/kinematic_integration.py | 83 ++++++--------------
 1 file changed, 24 insertions(+), 59 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 1be2163..97ea6a9 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -425,8 +425,9 @@ def _points_inside_mesh_simple(points: np.ndarray,
                                 mesh: 'trimesh.Trimesh') -> np.ndarray:
     """Check if points are inside a mesh using face normal voting.
 
-    For each point, cast a ray in the +X direction and count face intersections.
-    If odd number of intersections, point is inside.
+    For each point, cast a ray and count face intersections (Moller-Trumbore).
+    If odd number of intersections, point is inside. Every face counts: the
+    parity over a subset of the faces says nothing about the point.
 
     This is a simplified version that doesn't require rtree.
 
@@ -437,77 +438,41 @@ def _points_inside_mesh_simple(points: np.ndarray,
     Returns:
         Boolean array of size N, True if point is inside
     """
+    epsilon = 1e-10
     n_points = len(points)
     inside = np.zeros(n_points, dtype=bool)
 
     # Get mesh triangles
-    triangles = mesh.triangles  # Shape (n_faces, 3, 3)
+    triangles = np.asarray(mesh.triangles, dtype=np.float64)  # (n_faces, 3, 3)
+
+    # An oblique ray: one along an axis meets the edges shared by the faces
+    # of a box and would count both of them
+    ray_dir = np.array([0.8017837, 0.5101532, 0.3113179])
 
-    # For efficiency, only test a subset if there are many faces
-    max_faces = 1000
-    if len(triangles) > max_faces:
-        indices = np.random.choice(len(triangles), max_faces, replace=False)
-        triangles = triangles[indices]
+    v0 = triangles[:, 0]
+    edge1 = triangles[:, 1] - v0
+    edge2 = triangles[:, 2] - v0
 
-    # Ray direction
-    ray_dir = np.array([1.0, 0.0, 0.0])
+    pvec = np.cross(ray_dir, edge2)
+    det = np.einsum('ij,ij->i', edge1, pvec)
+    crossing = np.abs(det) >= epsilon  # others are parallel to the ray
+    v0, edge1, edge2 = v0[crossing], edge1[crossing], edge2[crossing]
+    pvec, inv_det = pvec[crossing], 1.0 / det[crossing]
 
     for i, point in enumerate(points):
-        # Count intersections with triangles
-        intersections = 0
-        for tri in triangles:
-            if _ray_triangle_intersect(point, ray_dir, tri):
-                intersections += 1
+        tvec = point - v0
+        u = np.einsum('ij,ij->i', tvec, pvec) * inv_det
+        qvec = np.cross(tvec, edge1)
+        v = (qvec @ ray_dir) * inv_det
+        t = np.einsum('ij,ij->i', edge2, qvec) * inv_det
+        hits = (u >= 0.0) & (v >= 0.0) & (u + v <= 1.0) & (t > epsilon)
 
         # Odd number means inside
-        inside[i] = (intersections % 2) == 1
+        inside[i] = (np.count_nonzero(hits) % 2) == 1
 
     return inside
 
 
-def _ray_triangle_intersect(origin: np.ndarray,
-                             direction: np.ndarray,
-                             triangle: np.ndarray) -> bool:
-    """Moller-Trumbore ray-triangle intersection test.
-
-    Args:
-        origin: Ray origin (3,)
-        direction: Ray direction (3,)
-        triangle: Triangle vertices (3, 3)
-
-    Returns:
-        True if ray intersects triangle in positive direction
-    """
-    epsilon = 1e-10
-
-    v0, v1, v2 = triangle
-    edge1 = v1 - v0
-    edge2 = v2 - v0
-
-    pvec = np.cross(direction, edge2)
-    det = np.dot(edge1, pvec)
-
-    if abs(det) < epsilon:
-        return False  # Ray parallel to triangle
-
-    inv_det = 1.0 / det
-    tvec = origin - v0
-    u = np.dot(tvec, pvec) * inv_det
-
-    if u < 0.0 or u > 1.0:
-        return False
-
-    qvec = np.cross(tvec, edge1)
-    v = np.dot(direction, qvec) * inv_det
-
-    if v < 0.0 or u + v > 1.0:
-        return False
-
-    t = np.dot(edge2, qvec) * inv_det
-
-    return t > epsilon  # Intersection in positive direction
-
-
 def _estimate_penetration(collision_points: np.ndarray,
                            mesh: 'trimesh.Trimesh') -> float:
     """Estimate penetration depth for collision points.
-- 
2.43.0


From e269b93168e0937c52214c06b94f486781dfb851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:09 +0000
Subject: [PATCH 61/80] fix: a mesh collision result can be written as JSON

---
 src/yapcad/collision/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index 13e7e64..bc845bd 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -561,7 +561,7 @@ class CollisionDetector:
                     contact_points.extend([tuple(p) for p in samples_a[contains_b][:10]])
 
             # Determine if collision
-            collides = (
+            collides = bool(
                 total_inside > 10 or
                 (penetration_depth > self.penetration_threshold and total_inside > 0)
             )
-- 
2.43.0


From 75229a60bfbbd2a683d50fcbab958916fb26afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:10 +0000
Subject: [PATCH 62/80] fix: collision checks take a scene's geometry where the
 scene places it

---
 src/yapcad/assembly/kinematic_integration.py | 6 +++---
 src/yapcad/collision/detector.py             | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 97ea6a9..4f10338 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -175,8 +175,8 @@ def check_mesh_collision(
                 collides=False,
                 error_message=f"Mesh A ({stl_path_a}) contains no geometry"
             )
-        # Concatenate all geometries in the scene
-        mesh_a = trimesh.util.concatenate(list(mesh_a.geometry.values()))
+        # Concatenate all geometries, each where the scene places it
+        mesh_a = trimesh.util.concatenate(mesh_a.dump())
 
     if isinstance(mesh_b, trimesh.Scene):
         if len(mesh_b.geometry) == 0:
@@ -184,7 +184,7 @@ def check_mesh_collision(
                 collides=False,
                 error_message=f"Mesh B ({stl_path_b}) contains no geometry"
             )
-        mesh_b = trimesh.util.concatenate(list(mesh_b.geometry.values()))
+        mesh_b = trimesh.util.concatenate(mesh_b.dump())
 
     # Extract transform matrices
     tf_a = _extract_transform_matrix(transform_a)
diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index bc845bd..c4e8b46 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -610,9 +610,9 @@ class CollisionDetector:
         elif isinstance(geom, trimesh.Trimesh):
             mesh = geom.copy()
         elif hasattr(geom, 'geometry'):
-            # Scene object
+            # Scene object: each geometry where the scene places it
             try:
-                mesh = trimesh.util.concatenate(list(geom.geometry.values()))
+                mesh = trimesh.util.concatenate(geom.dump())
             except Exception:
                 return None
 
-- 
2.43.0


From 7a8f2e5ea6ec46307d484a61667995cdf847c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:11 +0000
Subject: [PATCH 63/80] fix: MIN_DISTANCE to a reference point does not fail
 when bounds are given

---
 src/yapcad/assembly/kinematic_integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 4f10338..6f67280 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1364,7 +1364,7 @@ class KinematicConstraint:
 
         # If bounding boxes are provided, calculate minimum separation
         # (bounding box method takes precedence over face positions for collision detection)
-        if self.bounds_a is not None and self.bounds_b is not None:
+        if tf_b is not None and self.bounds_a is not None and self.bounds_b is not None:
             # Transform bounding boxes to world coordinates
             actual_distance = self._calculate_bbox_separation(
                 tf_a, self.bounds_a, tf_b, self.bounds_b
-- 
2.43.0


From b0555ce8cc07034933f74c6d7dee0e73bdc67eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:14 +0000
Subject: [PATCH 64/80] fix: MIN_DISTANCE measures the distance between
 bounding boxes apart along several axes

---
 src/yapcad/assembly/kinematic_integration.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 6f67280..2a63e77 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1627,13 +1627,11 @@ class KinematicConstraint:
         dist_y = max(aabb_a[0][1] - aabb_b[1][1], aabb_b[0][1] - aabb_a[1][1])
         dist_z = max(aabb_a[0][2] - aabb_b[1][2], aabb_b[0][2] - aabb_a[1][2])
 
-        # If any distance is positive, boxes are separated
-        # Return the maximum distance (most separated axis)
-        # If all negative, return the minimum (most penetration)
+        # If any distance is positive, boxes are separated: the gaps along the
+        # axes add up to the distance between the boxes
+        # If all negative, return the least penetration
         if dist_x > 0 or dist_y > 0 or dist_z > 0:
-            # Separated - return minimum positive distance
-            positive_dists = [d for d in [dist_x, dist_y, dist_z] if d > 0]
-            return min(positive_dists) if positive_dists else 0.0
+            return math.sqrt(max(dist_x, 0.0)**2 + max(dist_y, 0.0)**2 + max(dist_z, 0.0)**2)
         else:
             # Overlapping - return negative (penetration depth)
             return max(dist_x, dist_y, dist_z)  # Least penetration
-- 
2.43.0


From ecb745d0684a8922f3698b1017dc5db7540fdce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:20 +0000
Subject: [PATCH 65/80] fix: the assembly resolver cuts with geom3d's boolean
 engines

It asked geom3d for boolean3d, which does not exist, so that no operation
between yapCAD solids was ever carried out.
---
 src/yapcad/assembly/resolver.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/assembly/resolver.py b/src/yapcad/assembly/resolver.py
index 6eb7902..0a7e0b7 100644
--- a/src/yapcad/assembly/resolver.py
+++ b/src/yapcad/assembly/resolver.py
@@ -164,17 +164,14 @@ class AssemblyResolver(ABC):
         ``kind`` is one of ``"subtract"``, ``"intersect"``, ``"union"``.
         """
         # Import lazily to avoid circular deps and optional-dep failures.
-        # Strategy: try yapCAD geom3d first, fall back to direct OCC.
-        try:
-            from ..geom3d import boolean3d  # type: ignore[import]
+        # Strategy: yapCAD solids go to geom3d, anything else directly to OCC.
+        from ..geom3d import issolid, solid_boolean
+
+        if issolid(target_geom) and issolid(cutter_geom):
             op_map = {"subtract": "difference", "intersect": "intersection", "union": "union"}
-            op_name = op_map.get(kind, kind)
-            kwargs: Dict[str, Any] = {}
-            if engine:
-                kwargs["engine"] = engine
-            return boolean3d(target_geom, cutter_geom, op_name, **kwargs)
-        except (ImportError, AttributeError):
-            pass
+            return solid_boolean(
+                target_geom, cutter_geom, op_map.get(kind, kind), engine=engine,
+            )
 
         # Direct OCC fallback (yapcad-brep conda env)
         try:
@@ -198,8 +195,8 @@ class AssemblyResolver(ABC):
             pass
 
         raise RuntimeError(
-            "No boolean engine available: install OCC (yapcad-brep conda env) "
-            "or ensure geom3d.boolean3d is importable"
+            "No boolean engine available: the geometry is not a yapCAD solid "
+            "and OCC (yapcad-brep conda env) is not installed"
         )
 
     @staticmethod
-- 
2.43.0


From af30657eefe51f13778fb12f34a95f56777781ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:21 +0000
Subject: [PATCH 66/80] fix: a staged resolution keeps each part's warnings,
 errors and retained cutters

---
 src/yapcad/assembly/resolver.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/assembly/resolver.py b/src/yapcad/assembly/resolver.py
index 0a7e0b7..bcb7f00 100644
--- a/src/yapcad/assembly/resolver.py
+++ b/src/yapcad/assembly/resolver.py
@@ -403,7 +403,8 @@ class StagedResolver(AssemblyResolver):
         # Run each stage in order
         current_parts = dict(parts)
         current_meta = dict(meta_map)
-        accumulated_ops: Dict[str, List[str]] = {}  # pid → all applied_operations across stages
+        # pid → everything reported for the part across stages
+        accumulated: Dict[str, ResolvedPart] = {}
 
         for stage_name in self.stages:
             bucket = stage_buckets[stage_name]
@@ -435,16 +436,21 @@ class StagedResolver(AssemblyResolver):
             if stage_result.errors:
                 global_errors.extend(stage_result.errors)
 
-            # Merge applied_operations into accumulator and feed geometry into next stage
+            # Merge each part's report into accumulator and feed geometry into next stage
             for pid, rp in stage_result.parts.items():
-                prev = accumulated_ops.get(pid, [])
-                accumulated_ops[pid] = prev + rp.applied_operations
+                total = accumulated.setdefault(pid, ResolvedPart(pid, None, [], []))
+                total.applied_operations.extend(rp.applied_operations)
+                total.retained_cutters.extend(rp.retained_cutters)
+                total.warnings.extend(rp.warnings)
+                total.errors.extend(rp.errors)
             current_parts = {pid: rp.geometry for pid, rp in stage_result.parts.items()}
 
-        # Produce final ResolvedPart objects carrying the full applied_operations list
+        # Produce final ResolvedPart objects carrying the reports of all stages
         final_parts: Dict[str, ResolvedPart] = {}
         for pid, geom in current_parts.items():
-            final_parts[pid] = ResolvedPart(pid, geom, accumulated_ops.get(pid, []), [])
+            total = accumulated.get(pid) or ResolvedPart(pid, geom, [], [])
+            total.geometry = geom
+            final_parts[pid] = total
 
         return ResolveResult(
             parts=final_parts,
-- 
2.43.0


From b217c0af95d550f2279c1c43a4a289b1ad3df5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:58 +0000
Subject: [PATCH 67/80] fix: YAPCAD_ASSEMBLY_RESOLVER finds registered names
 with capital letters

---
 src/yapcad/assembly/resolver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/resolver.py b/src/yapcad/assembly/resolver.py
index bcb7f00..8fcf454 100644
--- a/src/yapcad/assembly/resolver.py
+++ b/src/yapcad/assembly/resolver.py
@@ -543,7 +543,9 @@ def resolve_assembly(
     ResolveResult
     """
     if resolver is None:
-        env_name = os.environ.get("YAPCAD_ASSEMBLY_RESOLVER", "basic").lower()
+        env_name = os.environ.get("YAPCAD_ASSEMBLY_RESOLVER", "basic")
+        if env_name not in RESOLVER_REGISTRY:
+            env_name = env_name.lower()
         resolver_cls = RESOLVER_REGISTRY.get(env_name)
         if resolver_cls is None:
             raise ValueError(
-- 
2.43.0


From 78eb949d160c1e9e67d31f458f03ea4bc49604dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:50 +0000
Subject: [PATCH 68/80] fix: the mate solver aligns directions less than a
 degree apart

It took them as aligned already, far outside its own angle tolerance.
---
 src/yapcad/assembly/solver.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 965b413..c24a7ab 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -642,11 +642,14 @@ class MateConstraintSolver:
         v1 = v1 / np.linalg.norm(v1)
         v2 = v2 / np.linalg.norm(v2)
 
-        # Check for parallel vectors
+        axis = np.cross(v1, v2)
+        sine = np.linalg.norm(axis)
         dot = np.dot(v1, v2)
-        if dot > 0.9999:
-            return np.eye(3)  # Already aligned
-        if dot < -0.9999:
+
+        # Check for parallel vectors
+        if sine < 1e-10:
+            if dot > 0:
+                return np.eye(3)  # Already aligned
             # Opposite directions - rotate 180 around any perpendicular axis
             if abs(v1[0]) < 0.9:
                 perp = np.cross(v1, [1, 0, 0])
@@ -656,9 +659,8 @@ class MateConstraintSolver:
             return self._rodrigues_rotation(perp, math.pi)
 
         # Rodrigues formula
-        axis = np.cross(v1, v2)
-        axis = axis / np.linalg.norm(axis)
-        angle = math.acos(np.clip(dot, -1.0, 1.0))
+        axis = axis / sine
+        angle = math.atan2(sine, dot)
 
         return self._rodrigues_rotation(axis, angle)
 
-- 
2.43.0


From d71fd6a16b84cd6bc8806028452e5a6bdcf9029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:34 +0000
Subject: [PATCH 69/80] fix: a native BREP graph read back keeps its adjacency,
 shell types and edge senses

---
 src/yapcad/native_brep.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index e8a8a2d..bd6f751 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1832,6 +1832,8 @@ def _serialize_edge(e):
         'id': meta.get('id'),
         'start_vertex': meta.get('start_vertex_id'),  # Note: key is start_vertex_id in metadata
         'end_vertex': meta.get('end_vertex_id'),      # Note: key is end_vertex_id in metadata
+        'sense': meta.get('sense', True),
+        'tolerance': meta.get('tolerance', epsilon),
         'tags': meta.get('tags', {}),
     }
     # Serialize curve parameters
@@ -1915,6 +1917,8 @@ def _deserialize_edge(data, vertex_map=None):
 
     # Restore original ID
     e[2]['id'] = data['id']
+    e[2]['sense'] = data.get('sense', True)
+    e[2]['tolerance'] = data.get('tolerance', epsilon)
     return e
 
 
@@ -2183,6 +2187,7 @@ def _serialize_shell(s):
         'type': 'brep_shell',
         'face_ids': list(s[1]),
         'id': meta.get('id'),
+        'shell_type': meta.get('shell_type', 'outer'),
         'closed': meta.get('closed'),
         'solid_id': meta.get('solid_id'),
         'tags': meta.get('tags', {}),
@@ -2194,8 +2199,8 @@ def _deserialize_shell(data, face_map=None):
     face_refs = [face_map.get(fid) if face_map else fid
                  for fid in data.get('face_ids', [])]
 
-    s = brep_shell(face_refs, closed=data.get('closed'),
-                   tags=data.get('tags', {}))
+    s = brep_shell(face_refs, shell_type=data.get('shell_type', 'outer'),
+                   closed=data.get('closed'), tags=data.get('tags', {}))
     s[2]['id'] = data['id']
     if data.get('solid_id'):
         s[2]['solid_id'] = data['solid_id']
@@ -2270,35 +2275,35 @@ def deserialize_topology_graph(data):
     for vid, vdata in data.get('vertices', {}).items():
         vertex = _deserialize_vertex(vdata)
         vertex_map[vid] = vertex
-        graph.vertices[vertex[2]['id']] = vertex
+        graph.add_vertex(vertex)
 
     # Deserialize edges (depend on vertices)
     edge_map = {}
     for eid, edata in data.get('edges', {}).items():
         edge = _deserialize_edge(edata, vertex_map=None)  # Use IDs directly
         edge_map[eid] = edge
-        graph.edges[edge[2]['id']] = edge
+        graph.add_edge(edge)
 
     # Deserialize trims (depend on edges)
     trim_map = {}
     for tid, tdata in data.get('trims', {}).items():
         trim = _deserialize_trim(tdata)
         trim_map[tid] = trim
-        graph.trims[trim[2]['id']] = trim
+        graph.add_trim(trim)
 
     # Deserialize loops (depend on trims)
     loop_map = {}
     for lid, ldata in data.get('loops', {}).items():
         loop = _deserialize_loop(ldata)
         loop_map[lid] = loop
-        graph.loops[loop[2]['id']] = loop
+        graph.add_loop(loop)
 
     # Deserialize faces (depend on loops)
     face_map = {}
     for fid, fdata in data.get('faces', {}).items():
         face = _deserialize_face(fdata)
         face_map[fid] = face
-        graph.faces[face[2]['id']] = face
+        graph.add_face(face)
 
     # Deserialize shells (depend on faces)
     shell_map = {}
-- 
2.43.0


From 35ea15e57f6b17f660e70fcbad71d5b208e4f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:34 +0000
Subject: [PATCH 70/80] fix: native BREP surfaces keep their frame through
 transforms and serialization

---
 src/yapcad/native_brep.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index bd6f751..49ae648 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2069,6 +2069,19 @@ def _serialize_surface_metadata(meta):
 
 def _deserialize_surface(data):
     """Reconstruct an analytic surface from serialized data."""
+    surface = _construct_surface(data)
+    if surface is not None:
+        # The constructors choose a frame from the normal or axis alone; a
+        # surface that has been transformed has its own
+        meta = data.get('metadata') or {}
+        for key in ('u_axis', 'v_axis', 'ref_direction'):
+            if meta.get(key) and key in surface[2]:
+                surface[2][key] = list(meta[key])
+    return surface
+
+
+def _construct_surface(data):
+    """Construct the analytic surface described by serialized data."""
     from yapcad.analytic_surfaces import (
         plane_surface, sphere_surface, cylinder_surface,
         cone_surface, torus_surface, bspline_surface, tessellated_surface
@@ -2523,16 +2536,22 @@ def _transform_surface_inplace(surface, transform_fn):
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'cone_surface':
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'torus_surface':
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'bspline_surface':
         # Control points are nested list
-- 
2.43.0


From c35c462498a6b88a9800a72fbd0a0426fb22e425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:34 +0000
Subject: [PATCH 71/80] fix: scaling a native BREP scales its edge radii and
 surface extents

---
 src/yapcad/native_brep.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 49ae648..c24556c 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2675,6 +2675,20 @@ def scale_native_brep(yapcad_solid, factor, center=None):
 
     transform_topology_graph(graph, scale_point)
 
+    # Edge curves store their lengths apart from their points
+    for edge in graph.edges.values():
+        params = edge[2].get('curve_params') or {}
+        for key in ('radius', 'semi_major', 'semi_minor'):
+            if params.get(key) is not None:
+                params[key] = params[key] * f
+
+    # Parameter ranges that are lengths
+    length_ranges = {
+        'plane_surface': ('u_range', 'v_range'),
+        'cylinder_surface': ('v_range',),
+        'cone_surface': ('v_range',),
+    }
+
     # Also update radii in surfaces
     for fid, face in graph.faces.items():
         surface = face[1]
@@ -2686,5 +2700,8 @@ def scale_native_brep(yapcad_solid, factor, center=None):
                 meta['major_radius'] = meta['major_radius'] * f
             if 'minor_radius' in meta:
                 meta['minor_radius'] = meta['minor_radius'] * f
+            for key in length_ranges.get(surface[0], ()):
+                if key in meta:
+                    meta[key] = tuple(x * f for x in meta[key])
 
     attach_native_brep_to_solid(yapcad_solid, graph)
-- 
2.43.0


From bc57dd951fbc33c6d6d67794d1b11f05c0ae13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:34 +0000
Subject: [PATCH 72/80] fix: a shell or solid the topology graph refuses is not
 left in it

---
 src/yapcad/native_brep.py | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index c24556c..c65f1bd 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -967,13 +967,9 @@ class TopologyGraph:
         if not is_brep_shell(shell):
             raise ValueError("Not a BREP shell")
         sid = shell_id(shell)
+        previous = self.shells.get(sid)
         self.shells[sid] = shell
 
-        # Register shell with its faces
-        for fid in shell_faces(shell):
-            if fid in self.faces:
-                self.faces[fid][2]['shell_id'] = sid
-
         # Handle closure validation
         if validate_closure:
             closed_flag = shell_closed(shell)
@@ -985,10 +981,23 @@ class TopologyGraph:
 
             elif closed_flag is True:
                 # Validate that shell is actually closed
-                self.validate_shell_closure(sid)
+                try:
+                    self.validate_shell_closure(sid)
+                except Exception:
+                    # A refused shell is not part of the graph
+                    if previous is None:
+                        del self.shells[sid]
+                    else:
+                        self.shells[sid] = previous
+                    raise
 
             # If closed_flag is False, no validation needed (explicitly open)
 
+        # Register shell with its faces
+        for fid in shell_faces(shell):
+            if fid in self.faces:
+                self.faces[fid][2]['shell_id'] = sid
+
         return sid
 
     def add_solid(self, solid, validate=True, tolerance=1e-10):
@@ -1012,17 +1021,26 @@ class TopologyGraph:
         if not is_brep_solid_native(solid):
             raise ValueError("Not a native BREP solid")
         sid = solid_id(solid)
+        previous = self.solids.get(sid)
         self.solids[sid] = solid
 
+        # Validate if requested
+        if validate:
+            try:
+                self.validate_solid(sid, tolerance)
+            except Exception:
+                # A refused solid is not part of the graph
+                if previous is None:
+                    del self.solids[sid]
+                else:
+                    self.solids[sid] = previous
+                raise
+
         # Register solid with its shells
         for shid in solid_shells(solid):
             if shid in self.shells:
                 self.shells[shid][2]['solid_id'] = sid
 
-        # Validate if requested
-        if validate:
-            self.validate_solid(sid, tolerance)
-
         return sid
 
     def get_vertex(self, vid):
-- 
2.43.0


From 0c86e4702eb2bef1619baab52747073f63bc5c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:34 +0000
Subject: [PATCH 73/80] fix: a face added after its shell is in the shell's
 octree

---
 src/yapcad/native_brep.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index c65f1bd..5872ad9 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -946,6 +946,11 @@ class TopologyGraph:
                         if eid in self.edges:
                             self.edges[eid][2]['faces'].append(fid)
 
+        # Octrees of shells that list this face were built without it
+        for shell in self.shells.values():
+            if fid in shell_faces(shell):
+                shell[2]['_octree_dirty'] = True
+
         return fid
 
     def add_shell(self, shell, validate_closure=True):
-- 
2.43.0


From c30bb99a78fdc857bba5a17008be6ecf419ca94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:13 +0000
Subject: [PATCH 74/80] fix: rotating about an axis that is not a unit vector
 works

---
 src/yapcad/xform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index d25a419..126e089 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -204,7 +204,7 @@ def Rotation(axis,angle,inverse=False):
     if m < geom.epsilon:
         raise ValueError('zero-length rotation axis not allowed')
     if not geom.close(m,1.0):
-        u = geom.geom.scale3(axis,1.0/m)
+        u = geom.scale3(axis,1.0/m)
 
     if inverse:
         angle *= -1.0
-- 
2.43.0


From 43c92c7a97591caf369d276c8d7fc005f13fd406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:42 +0000
Subject: [PATCH 75/80] fix: transforming a topology graph carries every edge
 curve along, once, or changes nothing

---
 src/yapcad/native_brep.py | 71 +++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 5872ad9..87f1edc 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -494,19 +494,24 @@ def transform_edge_params(edge, transform_point_func):
     if not is_brep_edge(edge):
         raise ValueError("Not a BREP edge")
 
-    curve_type = edge[1]
-    params = edge[2].get('curve_params', {})
-
-    if curve_type == 'arc' and 'center' in params:
-        params['center'] = transform_point_func(params['center'])
-
-    elif curve_type == 'ellipse' and 'center' in params:
-        params['center'] = transform_point_func(params['center'])
-
-    elif curve_type == 'nurbs' and 'control_points' in params:
-        params['control_points'] = [
-            transform_point_func(pt) for pt in params['control_points']
-        ]
+    params = edge[2].get('curve_params')
+    if params:
+        edge[2]['curve_params'] = _transformed_curve_params(
+            params, transform_point_func,
+            lambda v: _transform_vector(v, transform_point_func))
+
+
+def _transformed_curve_params(params, point_fn, vector_fn):
+    """Return a copy of *params* with its points and directions transformed."""
+    result = dict(params)
+    if params.get('center') is not None:
+        result['center'] = point_fn(params['center'])
+    if params.get('axis') is not None:
+        result['axis'] = vector_fn(params['axis'])
+    cpts = params.get('control_points')
+    if cpts and isinstance(cpts[0], (list, tuple)) and len(cpts[0]) >= 3:
+        result['control_points'] = [point_fn(p) for p in cpts]
+    return result
 
 
 # -----------------------------------------------------------------------------
@@ -2508,30 +2513,32 @@ def transform_topology_graph(graph, transform_fn):
     - Face surface parameters (origins, centers, normals, axes)
     - Invalidates cached octrees
     """
-    # Transform all vertices
-    for vid, vertex in graph.vertices.items():
-        loc = vertex[1]
-        vertex[1] = _transform_point(loc, transform_fn)
+    # Work everything out first: a transform_fn that fails part-way leaves the
+    # graph as it was, and geometry two entities share is transformed once.
+    locations = {vid: _transform_point(vertex[1], transform_fn)
+                 for vid, vertex in graph.vertices.items()}
 
-    # Transform edge curve parameters
+    edge_params = {}
     for eid, edge in graph.edges.items():
-        meta = edge[2]
-        if 'curve_params' in meta:
-            params = meta['curve_params']
-            if 'center' in params:
-                params['center'] = _transform_point(params['center'], transform_fn)
-            if 'axis' in params:
-                params['axis'] = _transform_vector(params['axis'], transform_fn)
-            if 'control_points' in params and params['control_points']:
-                cpts = params['control_points']
-                if isinstance(cpts[0], (list, tuple)) and len(cpts[0]) >= 3:
-                    params['control_points'] = [_transform_point(p, transform_fn) for p in cpts]
-
-    # Transform face surfaces
+        if edge[2].get('curve_params'):
+            edge_params[eid] = _transformed_curve_params(
+                edge[2]['curve_params'],
+                lambda p: _transform_point(p, transform_fn),
+                lambda v: _transform_vector(v, transform_fn))
+
+    surfaces = {}
     for fid, face in graph.faces.items():
         surface = face[1]
         if surface is not None and isinstance(surface, list) and len(surface) >= 3:
-            _transform_surface_inplace(surface, transform_fn)
+            surfaces[fid] = deepcopy(surface)
+            _transform_surface_inplace(surfaces[fid], transform_fn)
+
+    for vid, location in locations.items():
+        graph.vertices[vid][1] = location
+    for eid, params in edge_params.items():
+        graph.edges[eid][2]['curve_params'] = params
+    for fid, surface in surfaces.items():
+        graph.faces[fid][1][:] = surface
 
     # Invalidate all shell octrees
     for sid, shell in graph.shells.items():
-- 
2.43.0


From 3a4a95d2f6b7be292448994bb5814eac376fd601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:42 +0000
Subject: [PATCH 76/80] fix: a solid's native BREP does not share lists or tags
 with the graph

---
 src/yapcad/native_brep.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 87f1edc..aace9a0 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2386,7 +2386,8 @@ def attach_native_brep_to_solid(yapcad_solid, native_brep_graph):
     ensure_solid_id(yapcad_solid)
     meta = get_solid_metadata(yapcad_solid, create=True)
 
-    serialized = serialize_topology_graph(native_brep_graph)
+    # A copy: later changes to the graph's entities are not the solid's
+    serialized = deepcopy(serialize_topology_graph(native_brep_graph))
     meta['native_brep'] = {
         'encoding': 'topology-graph-json',
         'version': serialized.get('version', '1.0'),
@@ -2421,7 +2422,7 @@ def native_brep_from_solid(yapcad_solid):
     if not data:
         return None
 
-    return deserialize_topology_graph(data)
+    return deserialize_topology_graph(deepcopy(data))
 
 
 def has_native_brep(yapcad_solid):
-- 
2.43.0


From 5c8b19be23e2412dc26fe6bc7ec846120e21e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:59 +0000
Subject: [PATCH 77/80] fix: scaling a solid unevenly drops its native BREP

---
 src/yapcad/geom3d.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 5343f5c..7e8390a 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -956,6 +956,13 @@ def scalesolid(x, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
             scale_native_brep(s2, sx, cent)
         except ImportError:
             pass
+    else:
+        # The copied native BREP still describes the unscaled shape
+        try:
+            from yapcad.native_brep import clear_native_brep
+            clear_native_brep(s2)
+        except ImportError:
+            pass
 
     return s2
 
-- 
2.43.0


From 07ecc6e19178ee59029d6d8e30e31734c4f1f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:00 +0000
Subject: [PATCH 78/80] fix: scaling a surface or solid about a centre keeps
 that centre in place

---
 src/yapcad/geom3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 7e8390a..d365f81 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -702,9 +702,9 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     if vclose(cent, point(0,0,0)):
         mat = xform.Scale(sx, sy, sz)
     else:
-        mat = xform.Translation(cent, inverse=True)
+        mat = xform.Translation(cent)
         mat = mat.mul(xform.Scale(sx, sy, sz))
-        mat = mat.mul(xform.Translation(cent))
+        mat = mat.mul(xform.Translation(cent, inverse=True))
 
     s2 = deepcopy(s)
     # Transform vertices
-- 
2.43.0


From c28f9b55f75053313c257c1282ed2049af82e7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:19 +0000
Subject: [PATCH 79/80] fix: a solid with a spherical shell can be validated
 against other shells

---
 src/yapcad/native_brep.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index aace9a0..fc28246 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -25,7 +25,8 @@ from copy import deepcopy
 from math import sqrt, atan2, sin, cos, pi
 import uuid
 
-from yapcad.geom import point, ispoint, vclose, epsilon, line, arc, add, sub, scale3
+from yapcad.geom import (point, ispoint, vclose, epsilon, line, arc, add, sub, scale3,
+                         cross, mag)
 
 
 # -----------------------------------------------------------------------------
@@ -55,6 +56,12 @@ def _point_distance(p1, p2):
     return sqrt(dx*dx + dy*dy + dz*dz)
 
 
+def _collapsed_triangle(tri):
+    """True for a triangle without area, e.g. at the pole of a sphere."""
+    normal = cross(sub(tri[1], tri[0]), sub(tri[2], tri[1]))
+    return mag(normal) < epsilon
+
+
 def _midpoint(p1, p2):
     """Compute midpoint between two points."""
     return point(
@@ -1551,6 +1558,8 @@ class TopologyGraph:
 
         # For each triangle in shell1, query shell2's octree for candidates
         for tri1 in self._iter_shell_triangles(shell_id1):
+            if _collapsed_triangle(tri1):
+                continue
             # Compute bbox for triangle
             tri_bbox = [
                 point(min(tri1[0][0], tri1[1][0], tri1[2][0]) - tolerance,
@@ -1569,6 +1578,8 @@ class TopologyGraph:
                 else:
                     tri2 = elem
 
+                if _collapsed_triangle(tri2):
+                    continue
                 if triTriIntersect(tri1, tri2):
                     return True
 
-- 
2.43.0


From 5df14b6943e23960289ecf26d926cc14a4e51a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:15 +0000
Subject: [PATCH 80/80] fix: triangles whose planes meet outside one of them do
 not intersect

---
 src/yapcad/geom3d.py | 52 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index d365f81..b7f7c27 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -370,6 +370,46 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
             return plane[3].mul(p)
         
 
+def _triangleSectionXY(tri):
+    """return the line segment in which a triangle that is not coplanar
+    with the z=0 plane meets it, or ``False``"""
+    pts = []
+    for i in range(3):
+        p,q = tri[i],tri[(i+1)%3]
+        if abs(p[2]) <= epsilon:
+            pts.append(p)
+        elif abs(q[2]) > epsilon and (p[2] > 0.0) != (q[2] > 0.0):
+            pts.append(sampleline([p,q],p[2]/(p[2]-q[2])))
+    if not pts:
+        return False
+    return [point(pts[0][0],pts[0][1]),point(pts[-1][0],pts[-1][1])]
+
+def _clipSegmentToTriangleXY(seg,tri):
+    """return the part of a line segment in the z=0 plane that lies inside
+    a triangle in that plane, or ``False`` if there is none"""
+    if not seg:
+        return False
+    a,b = seg
+    area2 = ((tri[1][0]-tri[0][0])*(tri[2][1]-tri[0][1]) -
+             (tri[1][1]-tri[0][1])*(tri[2][0]-tri[0][0]))
+    u0,u1 = 0.0,1.0
+    for i in range(3):
+        p,q = tri[i],tri[(i+1)%3]
+        dx,dy = q[0]-p[0],q[1]-p[1]
+        scale = copysign(1.0/sqrt(dx*dx+dy*dy),area2)
+        # signed distances from the edge, positive inside
+        da = (dx*(a[1]-p[1])-dy*(a[0]-p[0]))*scale + epsilon
+        db = (dx*(b[1]-p[1])-dy*(b[0]-p[0]))*scale + epsilon
+        if da < 0.0 and db < 0.0:
+            return False
+        if da < 0.0:
+            u0 = max(u0,da/(da-db))
+        elif db < 0.0:
+            u1 = min(u1,da/(da-db))
+    if u0 > u1:
+        return False
+    return [sampleline(seg,u0),sampleline(seg,u1)]
+
 def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
 
     """Function to compute the intersection of two triangles.  Returns
@@ -438,10 +478,16 @@ def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
             (t2p[0][2] < -epsilon and t2p[1][2] < -epsilon and
              t2p[2][2] < -epsilon)):
             return False
-        # linear intersection.  Figure out which two of three lines
-        # cross the z=0 plane
+        # linear intersection: the part of t2 in the z=0 plane that lies
+        # within t1
+        seg = _clipSegmentToTriangleXY(_triangleSectionXY(t2p), t1p)
+        if not seg:
+            return False
+        if inPlane:
+            return seg
+        return [tinv.mul(seg[0]),tinv.mul(seg[1])]
 
-    # this should work whether or not the intersection is
+    # Figure out which two of three lines cross the z=0 plane; this should work whether or not the intersection is
     # inside t2.
     ip1 = linePlaneIntersect([t2p[0],t2p[1]],"xy",False)
     ip2 = linePlaneIntersect([t2p[1],t2p[2]],"xy",False)
-- 
2.43.0

