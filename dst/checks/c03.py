"""C03: package creation is faithful and never half done."""
import copy
import json
from pathlib import Path

from .. import pkgsim as P
from ..engine import Check, Result
from ..explore import Explorer, gen_branch
from ..world import World, call

PKG = "/sim/work/pkg"

DSL = {
    "box": ("module m;\ncommand C(w: float, h: float) -> solid {\n    let b: solid = box(w, 3.0, h);\n    emit b;\n}\n",
            lambda r: {"w": round(r.uniform(1, 9), 2), "h": round(r.uniform(1, 9), 2)}),
    "cyl": ("module m;\n# ünïcode comment\ncommand C(n: float) -> solid {\n    emit cylinder(n, 4.0);\n}\n",
            lambda r: {"n": round(r.uniform(1, 9), 2)}),
    "move": ("module mv;\ncommand C(d: float) -> solid {\n    emit translate(box(1.0, 2.0, 3.0), d, 0.0, 0.0);\n}\n",
             lambda r: {"d": round(r.uniform(-9, 9), 2)}),
    "fail": ("module m;\ncommand C(w: float) -> solid {\n    require w > 100.0, \"too small\";\n    emit box(w, 1.0, 1.0);\n}\n",
             lambda r: {"w": 1.0}),
    "bad": ("module m;\ncommand C( -> solid { emit box(1.0); }\n", lambda r: {}),
    "scalar": ("module m;\ncommand C() -> float { emit 3.0; }\n", lambda r: {}),
}


def gen_op(rng):
    k = rng.choice(["create", "create", "create", "dsl", "occupied", "junk"])
    o = {"op": k, "shape": P.gen_entities(rng), "overwrite": rng.random() < 0.7,
         "name": rng.choice(["widget", "gear ünï", "x: y", "007", "true"]), "version": rng.choice(["1.0", "0.1.2", "2024"]),
         "units": rng.choice([None, "mm", "inch"]), "author": rng.choice([None, "me", "Ünï"]),
         "desc": rng.choice([None, "a part", "line1\nline2"]),
         "mats": rng.choice([None, None, "ok", "bad"]), "alg": rng.choice(["sha256", "sha256", "sha256", "sha512", "md5"]),
         "ids": rng.random() < 0.5, "dup": rng.random() < 0.1, "unserialisable": rng.random() < 0.08, "copy": rng.choice([None, None, None, None, "moved", "face"]),
         "branches": [gen_branch(rng) for _ in range(rng.choice([1, 2, 3]))], "settle": rng.choice(["clean", "clean", "fault"])}
    if k == "dsl":
        d = rng.choice(["box", "box", "cyl", "move", "fail", "bad", "scalar"])
        o["dsl"] = d
        o["params"] = DSL[d][1](rng)
    return o


class C03(Check):
    id = "C03"
    runs = {"quick": 600, "thorough": 9000}
    batch = 8
    rule = "a run with a new trace that created at least one package and had at least one fault fire"
    real = ["yapcad.package.core", "yapcad.package.validator", "yapcad.io.geometry_json", "yapcad.dsl (compile, run, package)",
            "yapcad.geom3d_util", "yapcad.metadata"]
    stub = ["filesystem (in-memory, crash/torn/error model)", "clock", "entropy"]
    assumptions = ["directory operations reach the disk in order"]

    def preload(self):
        P.preload()

    def gen(self, rng, index, tier):
        return {"seed": rng.randrange(1 << 30), "ops": [gen_op(rng) for _ in range(rng.randint(1, 4 if tier == "quick" else 9))]}

    def simplify(self, plan):
        for i, op in enumerate(plan["ops"]):
            if len(op["branches"]) > 1:
                for b in op["branches"]:
                    q = json.loads(json.dumps(plan))
                    q["ops"][i]["branches"] = [b]
                    yield q
            if len(op["shape"]) > 1:
                q = json.loads(json.dumps(plan))
                q["ops"][i]["shape"] = op["shape"][:1]
                yield q

    def expected(self, o):
        ents = [P.build_shape(s) for s in o["shape"]]
        if o["ids"]:              # parts that keep their identity from version to version
            P.fix_ids(ents)
        if o["dup"] and o["shape"][0]["k"] in ("prism", "conic", "sphere"):
            ents.append(ents[0])
        if o.get("copy") == "moved" and o["shape"][0]["k"] != "sketch":
            c = copy.deepcopy(ents[0])          # keeps the identities of its original
            for f in c[1] if c[0] == "solid" else [c]:
                for v in f[1]:
                    v[0] += 7.5
            ents.append(c)
        if o.get("copy") == "face" and ents[0][0] == "solid":
            ents.insert(1, copy.deepcopy(ents[0][1][0]))       # a face that is also an entity of its own
        if o["unserialisable"]:
            ents.append("not geometry")
        return ents

    def mats(self, o):
        if o["mats"] == "ok":
            return {"al": {"source": {"type": "standard", "standard": {"body": "b", "designation": "d"}}}}
        if o["mats"] == "bad":
            return {"al": {"source": {"type": "custom", "cb": object()}}}
        return None

    def do(self, o):
        core = P.Y["core"]
        if o["op"] == "dsl":
            src = DSL[o["dsl"]][0]
            return lambda mem: P.Y["dslpkg"].package_from_dsl(
                src, "C", dict(o["params"]), PKG, name=o["name"], version=o["version"], description=o["desc"],
                author=o["author"], units=o["units"], materials=self.mats(o), overwrite=o["overwrite"])
        return lambda mem: core.create_package_from_entities(
            self.expected(o), PKG if o["dup"] else Path(PKG), name=o["name"], version=o["version"], description=o["desc"],
            author=o["author"], units=o["units"], materials=self.mats(o), overwrite=o["overwrite"], hash_algorithm=o["alg"])

    def observe(self, fs):
        """What a reader gets: None (nothing usable) or (manifest, geometry fingerprint)."""
        st, v = call(P.Y["validator"].validate_package, PKG)
        if st != "ok" or not v[0]:
            return None
        st, m = call(P.Y["core"].PackageManifest.load, Path(PKG))
        if st != "ok":
            return None
        st, g = call(P.Y["core"].load_geometry, m)
        if st != "ok":
            return ("unloadable", repr(g))
        d = copy.deepcopy(m.data)
        d.pop("attachments", None)
        return (d, P.fingerprint(g))

    def run(self, plan):
        r = Result()
        created = False
        fired_any = False
        ids = set()
        with World(plan["seed"]) as w:
            fs = w.fs
            w.tick = 0.001
            fs.mkdirs("/sim/work")
            for i, o in enumerate(plan["ops"]):
                if o["op"] == "occupied":
                    fs.put(f"{PKG}/precious.txt", "keep me")
                if o["op"] == "junk":
                    fs.put(f"{PKG}/geometry/primary.json", "{}")
                    fs.put(f"{PKG}/manifest.yaml", "schema: [")
                ex = Explorer(w, r)
                snap = ex.snapshot()
                occupied = bool(fs.tree(PKG))
                before = fs.tree(PKG)
                old = self.observe(fs)
                op = self.do(o)
                st, v, n, _ = ex.clean(snap, op)
                okc = st == "ok" and (o["op"] != "dsl" or v.success)
                new = self.observe(fs)
                r.t(i, o["op"], o.get("dsl", ""), "occupied" if occupied else "empty", "overwrite" if o["overwrite"] else "",
                    "->", st, okc, "ops", n, type(v).__name__ if st == "exc" else "")
                good_in = not o["unserialisable"] and o["mats"] != "bad" if o["op"] != "dsl" else \
                    o["dsl"] in ("box", "cyl", "move") and o["mats"] != "bad"
                if occupied and not o["overwrite"]:
                    if okc:
                        r.v("overwrote-without-permission", f"{o['op']} into a non-empty directory succeeded without overwrite")
                        return r
                    if fs.tree(PKG) != before:
                        r.v("refused-but-changed", f"refused creation still changed {sorted(set(fs.tree(PKG)) ^ set(before))[:5]}")
                        return r
                elif good_in and not okc:
                    r.v("creation-failed", f"{o['op']} with good inputs: {st} {v!r}")
                    return r
                if not good_in and okc:
                    r.v("creation-succeeded-on-bad-input", f"{o['op']} {o.get('dsl')} mats={o['mats']}")
                    return r
                if okc:
                    created = True
                    e = self.judge(o, v, new, fs, w)
                    if e:
                        r.v(*e)
                        return r
                    if new[0]["id"] in ids:
                        r.v("package-id-reused", new[0]["id"])
                        return r
                    ids.add(new[0]["id"])
                r.state(o["op"], occupied, okc)
                after = fs.clone_tree()
                for b in o["branches"]:
                    st2, v2, fired, _ = ex.faulty(snap, op, b["faults"], n, b["restart"], b["rs"], late=b.get("late", False))
                    fired_any |= bool(fired)
                    ok2 = st2 == "ok" and (o["op"] != "dsl" or v2.success)
                    fs.quiet += 1
                    cur = self.observe(fs)
                    fs.quiet -= 1
                    which = "none" if cur is None else "new" if same(cur, new) else "old" if same(cur, old) else "other"
                    r.t("  branch", json.dumps(b["faults"]), b["restart"], "->", st2, ok2, which)
                    r.state(o["op"], occupied, st2, ok2, which, sorted(fired))
                    if which == "other":
                        r.v("half-made-package-validates", f"{o['op']} with {b['faults']}/{b['restart']} ended {st2}; the directory validates "
                            f"but is neither the old nor the new package ({str(cur)[:200]})")
                        return r
                    if ok2 and st2 == "ok" and which not in ("new",) and not (old is not None and same(old, new)):
                        r.v("creation-reported-success-but-incomplete", f"{o['op']} with {b['faults']}: success, yet a reader gets: {which}")
                        return r
                    if ok2 and o["op"] == "dsl" and fs.get(f"{PKG}/attachments/source.dsl").decode() != DSL[o["dsl"]][0]:
                        r.v("dsl-source-not-attached", f"with {b['faults']}")
                        return r
                    if occupied and not o["overwrite"] and fs.tree(PKG) != before and st2 != "crash":
                        r.v("refused-but-changed", f"with {b['faults']}")
                        return r
                    if fs.escapes:
                        r.v("escape", f"{fs.escapes[:3]}")
                        return r
                    if okc:        # recovery: the same creation with overwrite goes through
                        oo = dict(o, overwrite=True)
                        st3, v3 = call(self.do(oo), None)
                        fin = self.observe(fs)
                        if st3 != "ok" or (o["op"] == "dsl" and not v3.success) or fin is None or fin[1] != new[1]:
                            r.v("creation-impossible-after-fault", f"{o['op']} after {b['faults']}: {st3} {v3!r}")
                            return r
                if o["settle"] == "clean":
                    fs.restore_tree(after)
                    fs.disarm()
            r.sim_time = w.sim_time
        r.nontrivial = created and fired_any
        return r

    def judge(self, o, v, new, fs, w):
        if new is None:
            return ("created-package-invalid", f"{o['op']}: {call(P.Y['validator'].validate_package, PKG)}")
        d, fp = new
        if o["op"] == "dsl":
            gen = d.get("generator", {}).get("dsl", {})
            src = DSL[o["dsl"]][0]
            if gen.get("parameters") != o["params"] or gen.get("command") != "C":
                return ("provenance-wrong", f"{gen}")
            if fs.get(f"{PKG}/attachments/source.dsl").decode() != src:
                return ("dsl-source-not-attached", "")
            m = P.load_yaml(fs.get(f"{PKG}/manifest.yaml"))
            a = [x for x in m.get("attachments", []) if x.get("path") == "attachments/source.dsl"]
            if len(a) != 1 or a[0].get("hash") != P.sha(src.encode()):
                return ("dsl-source-not-recorded", f"{m.get('attachments')}")
            geom = v.execution_result.geometry
            want = P.fingerprint([geom] if P.Y["g3"].issolid(geom) else geom)
        else:
            want = P.fingerprint(self.expected(o))
        if fp != want:
            return ("geometry-not-faithful", f"loaded geometry differs from the packaged {o.get('dsl') or o['shape']}")
        for k, e in (("name", o["name"]), ("version", o["version"]), ("description", o["desc"] or ""), ("units", o["units"] or "mm")):
            if d.get(k) != e:
                return ("manifest-field-wrong", f"{k}: {d.get(k)!r} != {e!r}")
        if d.get("created", {}).get("author") != o["author"]:
            return ("manifest-field-wrong", f"author {d.get('created')}")
        if o["op"] != "dsl":
            tags = []
            refs = []
            for s in o["shape"]:
                for t in s["meta"].get("tags", []):
                    if t not in tags:
                        tags.append(t)
                if s["meta"].get("material") and s["meta"]["material"] not in refs:
                    refs.append(s["meta"]["material"])
            if d.get("tags") != tags:
                return ("manifest-field-wrong", f"tags {d.get('tags')} != {tags}")
            if o["mats"] is None and sorted(d.get("materials") or {}) != sorted(refs):
                return ("manifest-field-wrong", f"materials {d.get('materials')} for {refs}")
        if o["mats"] == "ok" and list(d.get("materials", {})) != ["al"]:
            return ("manifest-field-wrong", f"materials {d.get('materials')}")
        return None


def same(a, b):
    if a is None or b is None:
        return a is b
    x, y = copy.deepcopy(a[0]), copy.deepcopy(b[0])
    for d in (x, y):
        if isinstance(d, dict):
            d.get("created", {}).pop("timestamp", None)
    return (x, a[1]) == (y, b[1])


CHECK = C03()
