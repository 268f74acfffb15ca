"""C01: manifest updates are all-or-nothing."""
import copy
import json
from pathlib import Path

from .. import pkgsim as P
from .. import tools as T
from ..engine import Check, Result
from ..explore import Explorer, gen_branch
from ..world import World, call

PKG = "/sim/work/pkg"

VALUES = ["plain", "ünïcödé ☃", "multi\nline: text", "", 3, -2.5, 1e300, True, None, [1, 2, [3]],
          {"a": {"b": [1, "x"]}}, "x" * 20000, ["y" * 300] * 40, "2024-01-01", "null", "{[}", "'", "\t tab",
          {"@tuple": [1, 2]}, {"@set": [1, 2]}]
BADVALS = ["@path", "@object", "@np", "@complex", "@bytesio"]


def _val(v):
    import pathlib
    if isinstance(v, dict) and "@tuple" in v:
        return tuple(v["@tuple"])
    if isinstance(v, dict) and "@set" in v:
        return set(v["@set"])
    if v == "@path":
        return pathlib.PurePosixPath("/a/b")
    if v == "@object":
        return object()
    if v == "@np":
        import numpy as np
        return np.float64(1.5)
    if v == "@complex":
        return open
    if v == "@bytesio":
        return lambda: 1
    return copy.deepcopy(v)


def gen_op(rng):
    k = rng.choice(["set", "set", "set", "set", "setdeep", "del", "grow", "recompute", "import", "sign_ssh",
                    "sign_gpg", "analyze", "dsl", "bad", "recreate"])
    op = {"op": k, "branches": [gen_branch(rng) for _ in range(rng.choice([2, 3, 4]))]}
    op["key"] = rng.choice(["name", "description", "tags", "custom", "units", "notes", "k%d" % rng.randrange(6)])
    op["val"] = rng.choice(VALUES)
    if k == "bad":
        op["val"] = rng.choice(BADVALS)
        op["depth"] = rng.randint(0, 2)
    if k == "grow":
        op["n"] = rng.choice([50, 300, 900])
    if k == "import":
        op["size"] = rng.choice([0, 10, 9000])
        op["name"] = f"f{rng.randrange(4)}.stl"
        op["cat"] = rng.choice(["derived", "attachments"])
    if k.startswith("sign"):
        op["add"] = rng.random() < 0.6
        op["who"] = rng.randrange(2)
    if k == "recreate":
        op["shape"] = P.gen_entities(rng)
    op["settle"] = rng.choice(["clean", "clean", "fault", "fault"])
    op["linked"] = False
    return op


class C01(Check):
    id = "C01"
    runs = {"quick": 700, "thorough": 12000}
    batch = 10
    rule = "a run whose trace hash is new and in which at least one fault fired during a manifest update"
    real = ["yapcad.package.core", "yapcad.package.signing", "yapcad.package.analysis.cli", "yapcad.dsl.packaging",
            "PyYAML", "pathlib/shutil/tempfile"]
    stub = ["filesystem (in-memory, crash/torn/error model)", "clock", "entropy", "gpg/ssh-keygen processes"]
    assumptions = ["directory operations reach the disk in order (journalled filesystem)",
                   "after power loss un-fsynced data may be old, missing or torn"]

    def preload(self):
        P.preload()

    def gen(self, rng, index, tier):
        return {"seed": rng.randrange(1 << 30), "shape": P.gen_entities(rng),
                "init": rng.choice(["create", "create", "bare"]), "link": rng.random() < 0.08,
                "ops": [gen_op(rng) for _ in range(rng.randint(2, 6 if tier == "quick" else 14))]}

    def simplify(self, plan):
        for i, op in enumerate(plan["ops"]):
            for j in range(len(op["branches"])):
                if len(op["branches"]) > 1:
                    q = json.loads(json.dumps(plan))
                    q["ops"][i]["branches"] = [op["branches"][j]]
                    yield q
                if len(op["branches"][j]["faults"]) > 1:
                    for f in op["branches"][j]["faults"]:
                        q = json.loads(json.dumps(plan))
                        q["ops"][i]["branches"][j]["faults"] = [f]
                        yield q

    def make_op(self, o):
        core, Y = P.Y["core"], P.Y
        k = o["op"]

        def upd(fn):
            def op(mem):
                m = core.PackageManifest.load(Path(PKG))
                fn(m)
                want = copy.deepcopy(m.data)
                m.save()
                want.setdefault("schema", m.data.get("schema"))
                self.saved = want
            return op
        if k == "set":
            return upd(lambda m: m.data.__setitem__(o["key"], _val(o["val"])))
        if k == "setdeep":
            return upd(lambda m: m.data.setdefault("extra", {}).setdefault("deep", {}).__setitem__(o["key"], _val(o["val"])))
        if k == "del":
            return upd(lambda m: m.data.pop(o["key"], None) if o["key"] not in ("schema",) else None)
        if k == "grow":
            return upd(lambda m: m.data.__setitem__("notes", [f"note {i} of this package" for i in range(o["n"])]))
        if k == "recompute":
            return upd(lambda m: m.recompute_hashes())
        if k == "bad":
            def put(m):
                v = _val(o["val"])
                for _ in range(o["depth"]):
                    v = {"n": [1, v]}
                m.data[o["key"]] = v
            return upd(put)
        if k == "import":
            return upd(lambda m: core.add_geometry_file(m, Path("/sim/work/src") / o["name"], category=o["cat"],
                                                        overwrite=True))
        if k == "sign_ssh":
            return lambda mem: P.Y["signing"].sign_package(PKG, method="ssh", add=o["add"],
                                                           key_path=f"/sim/home/.ssh/k{o['who']}")
        if k == "sign_gpg":
            return lambda mem: P.Y["signing"].sign_package(PKG, method="gpg", add=o["add"],
                                                           key_id=["AAAA1111", "BBBB2222"][o["who"]])
        if k == "analyze":
            return lambda mem: P.Y["acli"].analyze_package(PKG, "validation/plans/p.yaml")
        if k == "dsl":
            def dsl(mem):
                m = core.PackageManifest.load(Path(PKG))
                P.Y["dslpkg"]._add_dsl_source_attachment(m, "module m;\n", "C")
            return dsl
        if k == "recreate":
            def rec(mem):
                P.Y["core"].create_package_from_entities([P.build_shape(s) for s in o["shape"]], Path(PKG),
                                                         name="again", version="2", overwrite=True)
            return rec
        raise AssertionError(k)

    def run(self, plan):
        r = Result()
        with World(plan["seed"]) as w:
            fs = w.fs
            w.program("ssh-keygen", T.make_ssh_keygen(w))
            w.program("gpg", T.make_gpg(w))
            for i in range(2):
                T.ssh_key(fs, f"k{i}", f"id{i}", ["alice@example.org", "bob smith"][i])
            T.gpg_home(fs, [{"id": "AAAA1111", "uid": "Alice <a@x>", "secret": True},
                            {"id": "BBBB2222", "uid": "Bob <b@x>", "secret": True}])
            core = P.Y["core"]
            ex = Explorer(w, r)
            if plan["init"] == "create":
                core.create_package_from_entities([P.build_shape(s) for s in plan["shape"]], Path(PKG), name="x",
                                                  version="1", author="me")
                fs.put(f"{PKG}/validation/plans/p.yaml", "id: p\nkind: structural\nbackend: nosuch\n")
            else:
                core.PackageManifest(root=Path(PKG), data={"name": "bare", "version": "1"}).save()
                fs.put(f"{PKG}/validation/plans/p.yaml", "id: p\nkind: structural\nbackend: nosuch\n")
            if plan["link"]:
                fs.put("/sim/work/elsewhere/real.yaml", fs.get(f"{PKG}/manifest.yaml"))
                fs.rm(f"{PKG}/manifest.yaml")
                fs.symlink("/sim/work/elsewhere/real.yaml", f"{PKG}/manifest.yaml")
            fired_any = False
            for i, o in enumerate(plan["ops"]):
                if o["op"] == "import":
                    fs.put(f"/sim/work/src/{o['name']}", b"z" * o["size"] + str(i).encode())
                op = self.make_op(o)
                snap = ex.snapshot()
                old_raw, old = P.manifest_or_none(fs, PKG)
                old_mode = fs.stat(f"{PKG}/manifest.yaml").st_mode
                self.saved = None
                st, v, n, _ = ex.clean(snap, op)
                saved = self.saved
                new_raw, new = P.manifest_or_none(fs, PKG)
                files_new = fs.files(PKG)
                r.t(i, o["op"], o["key"], "clean ->", st, type(v).__name__ if st == "exc" else "", "ops", n)
                if new == "<unparsable>" or not isinstance(new, dict):
                    r.v("clean-update-left-bad-manifest", f"{o['op']} without any fault: {st} {v!r}; manifest now {str(new_raw)[:200]}")
                    break
                if st == "exc" and new != old:
                    # a failed update may have been applied completely or not at all, never in part
                    r.v("failed-update-changed-manifest", f"{o['op']} raised {v!r} but manifest went {len(old_raw)} -> {len(new_raw)} bytes")
                    break
                if st == "ok" and o["op"] == "set" and not isinstance(o["val"], dict) and new.get(o["key"]) != _val(o["val"]):
                    r.v("saved-value-not-readable", f"saved {o['key']}={o['val']!r:.80} reads back {new.get(o['key'])!r:.80}")
                    break
                if st == "ok" and saved is not None and _plain(saved) != _plain(new):
                    diff = sorted(str(k) for k in set(saved) | set(new) if k not in saved or k not in new or _plain(saved[k]) != _plain(new[k]))
                    r.v("saved-value-not-readable", f"{o['op']} {o['key']}: saved and loaded manifest differ in {diff}")
                    break
                if st == "ok" and fs.stat(f"{PKG}/manifest.yaml").st_mode != old_mode:
                    r.v("manifest-mode-changed", f"{o['op']}: {oct(old_mode)} -> {oct(fs.stat(PKG + '/manifest.yaml').st_mode)}")
                clean_after = fs.clone_tree()
                for b in o["branches"]:
                    st2, v2, fired, _ = ex.faulty(snap, op, b["faults"], n, b["restart"], b["rs"], late=b.get("late", False))
                    if fired or b.get("late"):
                        fired_any = True
                    raw, cur = P.manifest_or_none(fs, PKG)
                    which = "old" if cur == old else "new" if cur == new else "other"
                    if old == new and cur == old:
                        which = "same"
                    r.t("  branch", json.dumps(b["faults"]), b["restart"], "->", st2,
                        type(v2).__name__ if st2 == "exc" else "", which)
                    r.state(o["op"], st2, which, sorted(fired))
                    if which == "other":
                        r.v("manifest-torn", f"{o['op']} with {b['faults']} ({b['restart']} restart): outcome {st2}; "
                            f"manifest is neither the old ({len(old_raw)}B) nor the new ({len(new_raw)}B) version: "
                            f"{'missing' if raw is None else repr(raw[:120])}")
                        return self._fin(r, w, fired_any)
                    if st2 == "crash" and ex.completed and which == "old":
                        r.v("update-reported-success-but-lost", f"{o['op']}: returned normally, then the power failed: manifest still old")
                        return self._fin(r, w, fired_any)
                    if st2 == "ok" and which == "old":
                        r.v("update-reported-success-but-lost", f"{o['op']} with {b['faults']}: returned normally, manifest still old")
                        return self._fin(r, w, fired_any)
                    if st2 == "exc":
                        left = [f for f in fs.files(PKG) if f not in files_new and f not in {k for k in _files(snap, fs)}]
                        if left and not any(f["kind"] in ("eio", "eacces") for f in b["faults"]) and len(b["faults"]) == 1:
                            r.v("failed-update-left-files", f"{o['op']} with {b['faults']} raised {v2!r} and left {left}")
                            return self._fin(r, w, fired_any)
                    # once faults stop, the same update goes through
                    if st == "ok":
                        st3, v3 = call(op, None)
                        raw3, cur3 = P.manifest_or_none(fs, PKG)
                        if st3 != "ok" or not isinstance(cur3, dict):
                            r.v("update-impossible-after-fault", f"{o['op']} after {b['faults']}/{b['restart']}: retry gave {st3} {v3!r}")
                            return self._fin(r, w, fired_any)
                        if o["op"] in ("set", "setdeep", "grow", "recompute", "del") and cur3 != new:
                            r.v("retry-differs", f"{o['op']} retried after {b['faults']} gave a different manifest")
                            return self._fin(r, w, fired_any)
                    if fs.escapes:
                        r.v("escape", f"{fs.escapes[:3]}")
                        return self._fin(r, w, fired_any)
                if o["settle"] == "clean":
                    fs.restore_tree(clean_after)
                    fs.disarm()
            return self._fin(r, w, fired_any)

    def _fin(self, r, w, fired):
        r.sim_time = w.sim_time
        r.nontrivial = bool(fired)
        return r


def _plain(x):
    """Value with types, mapping order aside; YAML has one kind of sequence."""
    if isinstance(x, dict):
        return {k: _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    return (type(x).__name__, x)


def _files(snap, fs):
    keep = fs.root
    fs.root = snap.tree
    try:
        return fs.files(PKG)
    finally:
        fs.root = keep


CHECK = C01()
