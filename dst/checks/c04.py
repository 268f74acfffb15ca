"""C04: importing files into a package is contained and all-or-nothing."""
import copy
import json
from pathlib import Path

from .. import pkgsim as P
from ..engine import Check, Result
from ..explore import Explorer, gen_branch
from ..world import World, call

PKG = "/sim/work/pkg"
KINDS = ["crash", "crash_after", "torn_crash", "eio", "eio_read", "eio_write", "enospc", "eacces", "emfile", "close_eio",
         "short_write", "disk_full"]
DESTS = [None, None, None, "geometry/derived/x.stl", "attachments/doc.pdf", "deep/x.stl", "geometry/derived/v2/a.stl", "docs/doc.pdf", "exports/x.stl/y.stl", "deep/er/still/a.step", "exports/e.stl", "exports/E.stl", "geometry/derived/A.STL",
         "../escape.txt", "../../up.txt", "geometry/../../out.bin", "a/../../../tmp/z", "/sim/work/abs.bin", "link/in.bin",
         "linkfile", "geometry/../inner.bin", "..", ".", "", "../pkg/inside.bin", "../pkg2/sibling.bin", "geometry", "weird name ü.stl"]


def gen_op(rng):
    return {"src": rng.choice(["a.stl", "b.step", "big.stl", "c.STL", "noext", "missing.stl", "dir", "ünï.obj"]),
            "body": rng.randrange(4), "dest": rng.choice(DESTS), "cat": rng.choice(["derived", "derived", "attachments", "attachments",
                                                                                   "bogus", "primary"]),
            "overwrite": rng.random() < 0.5, "purpose": rng.choice([None, "mesh"]), "meta": rng.choice([None, None, {"id": "mine", "note": 1}]),
            "save": rng.random() < 0.8, "reload": rng.random() < 0.4,
            "branches": [gen_branch(rng, KINDS) for _ in range(rng.choice([1, 2, 2, 3]))],
            "settle": rng.choice(["clean", "clean", "clean", "fault"])}


class C04(Check):
    id = "C04"
    runs = {"quick": 6000, "thorough": 60000}
    batch = 12
    rule = "a run with a new trace in which at least one import succeeded and one was refused or failed"
    real = ["yapcad.package.core.add_geometry_file", "yapcad.package.core.PackageManifest", "yapcad.package.validator", "shutil"]
    stub = ["filesystem (in-memory, crash/torn/error model)", "clock", "entropy"]
    assumptions = []

    def preload(self):
        P.preload()

    def gen(self, rng, index, tier):
        return {"seed": rng.randrange(1 << 30), "ops": [gen_op(rng) for _ in range(rng.randint(2, 7 if tier == "quick" else 14))],
                "rel": rng.random() < 0.15}

    def simplify(self, plan):
        for i, op in enumerate(plan["ops"]):
            if len(op["branches"]) > 1:
                for b in op["branches"] + [None]:
                    q = json.loads(json.dumps(plan))
                    q["ops"][i]["branches"] = [b] if b else []
                    yield q

    def run(self, plan):
        r = Result()
        core = P.Y["core"]
        good = bad = 0
        with World(plan["seed"]) as w:
            fs = w.fs
            w.tick = 0.001
            root = Path(PKG)
            if plan["rel"]:
                import os
                fs.mkdirs("/sim/work")
                os.chdir("/sim/work")
                root = Path("pkg")
            m = core.create_package_from_entities([P.build_shape({"k": "prism", "p": [1, 2, 3], "meta": {}})], root, name="x", version="1")
            fs.put("/sim/work/outside/o.bin", "outside")
            fs.put("/sim/work/pkg2/sibling.txt", "sibling")
            fs.put("/sim/work/target.txt", "precious")
            fs.symlink("/sim/work/outside", f"{PKG}/link")
            fs.symlink("/sim/work/target.txt", f"{PKG}/linkfile")
            ex = Explorer(w, r)
            mem = m
            for i, o in enumerate(plan["ops"]):
                src = f"/sim/work/src/{o['src']}"
                body = [b"", b"solid x", b"q" * 700, bytes(range(256)) * 600][o["body"]] + (b"" if o["body"] == 0 else str(i).encode())
                if o["src"] == "dir":
                    fs.mkdirs(src)
                elif o["src"] != "missing.stl":
                    fs.put(src, body)
                if o["reload"]:
                    mem = core.PackageManifest.load(root)

                def op(mm):
                    e = core.add_geometry_file(mm, src, dest_relative=o["dest"], purpose=o["purpose"], category=o["cat"],
                                               overwrite=o["overwrite"], metadata=copy.deepcopy(o["meta"]))
                    return e
                snap = ex.snapshot(mem)
                tree0 = fs.tree("/sim/work")
                data0 = copy.deepcopy(mem.data)
                consistent = in_sync(fs, data0)
                ref = self.reference(o, fs, tree0, data0)
                st, v, n, mm = ex.clean(snap, op)
                r.t(i, o["src"], "->", o["dest"], o["cat"], "overwrite" if o["overwrite"] else "", "expect", ref[0], "->", st,
                    type(v).__name__ if st == "exc" else "", "ops", n)
                e = self.judge(o, ref, st, v, mm, fs, tree0, data0, body)
                if e is None and (st == "ok") != (ref[0] == "ok"):
                    e = ("import-verdict", f"import of {o['src']} to {o['dest']} as {o['cat']} (overwrite={o['overwrite']}) should be {ref} but was {st} {v!r}")
                if e:
                    r.v(*e)
                    return r
                r.state(o["dest"], o["cat"], o["overwrite"], o["src"], st)
                good += st == "ok"
                bad += st != "ok"
                if st == "ok" and o["save"]:
                    mm.save()
                    ok, msgs = P.Y["validator"].validate_package(root)
                    if not ok and consistent and not P_cross(mm.data):
                        r.v("package-invalid-after-import", f"{msgs}")
                        return r
                after = fs.clone_tree()
                keep = copy.deepcopy(mm)
                for b in o["branches"]:
                    st2, v2, fired, mm2 = ex.faulty(snap, op, b["faults"], n, "kill", b["rs"])
                    r.t("  branch", json.dumps(b["faults"]), "->", st2, type(v2).__name__ if st2 == "exc" else "")
                    r.state("f", st2, sorted(fired), o["cat"], ref[0])
                    bad += st2 != "ok"
                    e = self.judge(o, ref, st2, v2, mm2, fs, tree0, data0, body, faulted=True, kinds=[f["kind"] for f in b["faults"]])
                    if e:
                        r.v(e[0], f"{e[1]} [faults {b['faults']}]")
                        return r
                if o["settle"] == "clean":
                    fs.restore_tree(after)
                    fs.disarm()
                    mem = keep
                else:
                    mem = core.PackageManifest.load(root)
            if fs.escapes:
                r.v("escape", f"{fs.escapes[:3]}")
            r.sim_time = w.sim_time
        r.nontrivial = bool(good and bad)
        return r

    def reference(self, o, fs, tree, data):
        """('ok', path) or ('refuse', why) by the documented contract."""
        if o["cat"] not in ("derived", "attachments"):
            return ("refuse", "category")
        if o["src"] == "missing.stl":
            return ("refuse", "no source")
        if o["src"] == "dir":
            return ("refuse", "source is a directory")
        d = o["dest"]
        if d is None:
            d = ("geometry/derived/" if o["cat"] == "derived" else "attachments/") + o["src"]
        if d.startswith("/"):
            return ("refuse", "absolute")
        import posixpath
        q = posixpath.normpath(PKG + "/" + d)
        if not q.startswith(PKG + "/"):
            return ("refuse", "outside")
        if d in ("link/in.bin", "linkfile"):
            return ("refuse", "outside through a link")
        rel = q[len(PKG) + 1:]
        if rel + "/" in {k[len("pkg/"):] for k in tree if k.startswith("pkg/")}:
            return ("refuse", "is a directory")
        exists = "pkg/" + rel in tree
        if exists and not o["overwrite"]:
            return ("refuse", "exists")
        return ("ok", rel)

    def judge(self, o, ref, st, v, mm, fs, tree0, data0, body, faulted=False, kinds=()):
        tree1 = fs.tree("/sim/work")
        files0 = {k: x for k, x in tree0.items() if x is not None}
        files1 = {k: x for k, x in tree1.items() if x is not None}
        out0 = {k: x for k, x in files0.items() if not k.startswith("pkg/")}
        out1 = {k: x for k, x in files1.items() if not k.startswith("pkg/")}
        if out0 != out1:
            return ("wrote-outside-package", f"import to {o['dest']} changed {sorted(k for k in set(out0) | set(out1) if out0.get(k) != out1.get(k))[:4]}")
        changed = sorted(k for k in set(files0) | set(files1) if files0.get(k) != files1.get(k))
        if st == "ok":
            if ref[0] != "ok":
                return ("import-verdict", f"import to {o['dest']} as {o['cat']} succeeded but should be refused ({ref[1]})")
            rel = ref[1]
            if files1.get("pkg/" + rel) != body:
                return ("imported-copy-differs", f"{rel}: {len(files1.get('pkg/' + rel) or b'')} bytes, source has {len(body)}")
            if set(changed) - {"pkg/" + rel}:
                return ("import-touched-other-files", f"{changed}")
            sec = (mm.data.get("geometry") or {}).get("derived") if o["cat"] == "derived" else mm.data.get("attachments")
            import posixpath
            mine = [e for e in sec or [] if posixpath.normpath(e.get("path", "")) == rel and e.get("hash") == P.sha(body)]
            if len(mine) < 1:
                return ("import-not-recorded", f"{rel} not in {sec}")
            if len([e for e in sec if e.get("path") == v.get("path")]) != 1:
                return ("import-recorded-twice", f"{sec}")
            sec0 = ((data0.get("geometry") or {}).get("derived") if o["cat"] == "derived" else data0.get("attachments")) or []
            for e in sec0:
                if e.get("path") != v.get("path") and e not in sec:
                    return ("import-dropped-entry", f"entry {e.get('path')} vanished")
            a, b = copy.deepcopy(data0), copy.deepcopy(mm.data)
            for d in (a, b):
                (d.get("geometry") or {}).pop("derived", None) if o["cat"] == "derived" else d.pop("attachments", None)
            if a != b:
                return ("import-changed-other-metadata", "")
        elif st == "exc":
            if mm.data != data0 and not _eqv(mm.data, data0):
                return ("failed-import-recorded", f"raised {v!r} but the manifest changed")
            if changed and not (faulted and len(kinds) > 1) and not any(k in ("eio", "eacces") for k in kinds):
                return ("failed-import-changed-files", f"raised {v!r} but {changed} changed")
            # even if a leftover could not be removed, existing files keep their content
            hurt = [k for k in changed if k in files0 and files1.get(k) not in (files0[k], body)]
            if hurt:
                return ("failed-import-damaged-file", f"raised {v!r}; {hurt} lost")
        elif st == "crash":
            for k in changed:
                if k in files0 and files1.get(k) not in (files0[k], body):
                    return ("crashed-import-damaged-file", f"{k} is neither the old nor the new file")
                if k in files0 and ref[0] != "ok":
                    return ("refused-import-changed-file", f"{k}")
        else:
            return ("import-" + st, repr(v))
        return None


def _eqv(a, b):
    """Equal up to empty sections."""
    def n(d):
        d = copy.deepcopy(d)
        if not (d.get("geometry") or {}).get("derived"):
            (d.get("geometry") or {}).pop("derived", None)
        if not d.get("attachments"):
            d.pop("attachments", None)
        return d
    return n(a) == n(b)


def in_sync(fs, data):
    """Does every entry of this (possibly unsaved) manifest match the file it names?"""
    ents = [(data.get("geometry") or {}).get("primary") or {}]
    ents += ((data.get("geometry") or {}).get("derived") or []) + (data.get("attachments") or [])
    try:
        return all(P.sha(fs.get(f"{PKG}/{e['path']}")) == e["hash"] for e in ents if e.get("hash"))
    except OSError:
        return False


def P_cross(data):
    """Is some file recorded by two entries (its older record is then legitimately out of date)?"""
    import posixpath
    paths = [posixpath.normpath(e.get("path", "")) for e in ((data.get("geometry") or {}).get("derived") or []) + (data.get("attachments") or [])]
    return len(paths) != len(set(paths))


CHECK = C04()
