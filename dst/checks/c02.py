"""C02: package validation accepts exactly the intact packages."""
import copy
import json
from pathlib import Path

from .. import pkgsim as P
from ..engine import Check, Result
from ..explore import gen_fault
from ..world import World, call

PKG = "/sim/work/pkg"

FILE_T = ["flip", "flip", "flip", "truncate", "append", "delete", "dir", "swap", "same", "empty", "dangling", "touch",
          "crlf"]
MAN_T = ["hash_char", "hash_upper", "hash_drop", "hash_alg", "hash_int", "hash_bogus", "entry_scalar", "entry_nopath",
         "path_int", "path_missing", "sec_scalar", "sec_dict", "sec_none", "geom_none", "primary_none", "schema",
         "schema_none", "mat_bad", "mat_scalar", "mat_ok", "mat_color", "root_list", "root_scalar", "root_empty", "garbage",
         "binary", "truncate", "drop_entry", "dup_entry", "path_other"]
GEO_T = ["noschema", "noentities", "noid", "missing_surface", "scalar", "badjson", "badverts"]
READ_FAULTS = ["eio", "eio_read", "eacces", "emfile", "close_eio"]


def gen_step(rng):
    c = rng.random()
    if c < 0.45:
        return {"t": "file", "how": rng.choice(FILE_T), "pick": rng.random(), "pos": rng.random(), "bit": rng.randrange(8),
                "pick2": rng.random()}
    if c < 0.8:
        return {"t": "man", "how": rng.choice(MAN_T), "pick": rng.random(), "pos": rng.random()}
    if c < 0.9:
        return {"t": "geo", "how": rng.choice(GEO_T)}
    return {"t": "none"}


class C02(Check):
    id = "C02"
    runs = {"quick": 1200, "thorough": 20000}
    batch = 15
    rule = "a run with a new trace that validated at least one damaged and one intact state of a package"
    real = ["yapcad.package.validator", "yapcad.package.core", "yapcad.io.geometry_json", "PyYAML", "hashlib"]
    stub = ["filesystem (in-memory, read-error model)", "clock", "entropy"]
    assumptions = ["digests do not collide"]

    def preload(self):
        P.preload()

    def gen(self, rng, index, tier):
        algs = ["sha256"] * 4 + ["sha512", "sha1", "md5", "sha3_256", "blake2b"]
        return {"seed": rng.randrange(1 << 30), "shape": P.gen_entities(rng), "alg": rng.choice(algs),
                "files": [{"cat": rng.choice(["derived", "attachments", "exports"]), "n": i,
                           "size": rng.choice([0, 1, 30, 500, 5000] + ([1048576 + 77, 2097152] if rng.random() < 0.15 else [])),
                           "sub": rng.choice(["", "", "deep/er/"])} for i in range(rng.randint(0, 4))],
                "materials": rng.random() < 0.5, "rehash": rng.random() < 0.5,
                "ops": [{"dmg": [gen_step(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))],
                         "strict": rng.random() < 0.4, "undo": rng.random() < 0.75,
                         "warm": rng.random() < 0.5,
                         "dt": rng.choice([0, 0, 0, 0.5, 3600, -7200]),
                         "fault": gen_fault(rng, READ_FAULTS) if rng.random() < 0.35 else None}
                        for _ in range(rng.randint(2, 7 if tier == "quick" else 14))]}

    def build(self, plan, fs):
        core = P.Y["core"]
        m = core.create_package_from_entities([P.build_shape(s) for s in plan["shape"]], Path(PKG), name="x", version="1",
                                              hash_algorithm=plan["alg"])
        import random
        body = random.Random(plan["seed"])
        for f in plan["files"]:
            data = body.randbytes(f["size"])
            if f["cat"] == "exports":
                p = f"exports/{f['sub']}e{f['n']}.stl"
                fs.put(f"{PKG}/{p}", data)
                m.data.setdefault("exports", []).append({"id": f"e{f['n']}", "path": p, "hash": P.sha(data)})
            else:
                fs.put(f"/sim/work/src/f{f['n']}.step", data)
                core.add_geometry_file(m, f"/sim/work/src/f{f['n']}.step", category=f["cat"],
                                       dest_relative=(f"geometry/{f['sub']}f{f['n']}.step" if f["sub"] else None))
        if plan["materials"]:
            m.data["materials"] = {"al": {"source": {"type": "standard", "standard": {"body": "ASTM", "designation": "6061"}},
                                          "visual": {"color": [0.1, 0.2, 0.3]}},
                                   "x": {"source": {"type": "vendor"}}}
        if plan["rehash"]:
            m.recompute_hashes(algorithm=plan["alg"])
        m.save()

    def damage(self, fs, d, r):
        raw, data = P.manifest_or_none(fs, PKG)
        man = f"{PKG}/manifest.yaml"
        if d["t"] == "none":
            return
        if d["t"] == "file":
            refs = sorted(k for k in fs.files(PKG) if k != "manifest.yaml")
            if not refs:
                return
            f = f"{PKG}/" + refs[int(d["pick"] * len(refs))]
            body = bytearray(fs.get(f))
            how = d["how"]
            node = fs._walk(f)
            mt = node.mtime_ns
            if how == "flip" and body:
                i = min(len(body) - 1, int(d["pos"] * len(body)))
                body[i] ^= 1 << d["bit"]
            elif how == "truncate" and body:
                body = body[:int(d["pos"] * len(body))]
            elif how == "append":
                body += b"\n"
            elif how == "empty":
                body = bytearray()
            elif how == "crlf":
                body = bytearray(bytes(body).replace(b"\n", b"\r\n", 1))
            elif how == "delete":
                fs.rm(f)
                return
            elif how == "dir":
                fs.rm(f)
                fs.mkdirs(f)
                return
            elif how == "dangling":
                fs.rm(f)
                fs.symlink("/sim/nowhere", f)
                return
            elif how == "swap":
                g = f"{PKG}/" + refs[int(d["pick2"] * len(refs))]
                other = fs.get(g)
                fs.put(g, bytes(body))
                body = bytearray(other)
            n = fs.put(f, bytes(body))
            n.mtime_ns = mt                # silent corruption does not touch timestamps
            return
        if d["t"] == "geo":
            if not isinstance(data, dict):
                return
            try:
                prim = data["geometry"]["primary"]
                f = f"{PKG}/{prim['path']}"
                doc = json.loads(fs.get(f))
            except Exception:
                return
            how = d["how"]
            if not isinstance(doc, dict):
                doc = {}
            if how == "noschema":
                doc.pop("schema", None)
            elif how == "noentities":
                doc["entities"] = []
            elif how == "noid" and doc.get("entities"):
                doc["entities"][0].pop("id", None)
            elif how == "missing_surface":
                doc["entities"] = [e for e in doc.get("entities", []) if e.get("type") != "surface"]
            elif how == "scalar":
                doc = 7
            elif how == "badverts":
                for e in doc.get("entities", []):
                    if "vertices" in e:
                        e["vertices"] = [["x", "y", "z"]]
            body = json.dumps(doc).encode()
            if how == "badjson":
                body = body[:-3]
            fs.put(f, body)
            alg = str(prim.get("hash") or "sha256").split(":")[0]
            try:
                prim["hash"] = P.sha(body, alg)
            except ValueError:
                prim["hash"] = P.sha(body)
            fs.put(man, P.Y["yaml"].safe_dump(data, sort_keys=False))
            return
        how = d["how"]
        if how == "garbage":
            fs.put(man, "a: [b\n c: }")
            return
        if how == "binary":
            fs.put(man, bytes(range(256)))
            return
        if how == "truncate":
            fs.put(man, raw[:int(len(raw) * d["pos"])] if raw else b"")
            return
        if how == "root_list":
            fs.put(man, "- 1\n- 2\n")
            return
        if how == "root_scalar":
            fs.put(man, "hello\n")
            return
        if how == "root_empty":
            fs.put(man, "")
            return
        if not isinstance(data, dict):
            return
        ents = []
        geo = data.get("geometry")
        if isinstance(geo, dict):
            if isinstance(geo.get("primary"), dict):
                ents.append((geo, "primary", geo["primary"]))
            if isinstance(geo.get("derived"), list):
                ents += [(geo["derived"], i, e) for i, e in enumerate(geo["derived"])]
        for sec in ("exports", "attachments"):
            if isinstance(data.get(sec), list):
                ents += [(data[sec], i, e) for i, e in enumerate(data[sec])]
        secs = [(data, "exports"), (data, "attachments")] + ([(geo, "derived")] if isinstance(geo, dict) else [])
        ctr = secs[int(d["pick"] * len(secs))]
        box = ents[int(d["pick"] * len(ents))] if ents else None
        ent = box[2] if box and isinstance(box[2], dict) else None
        if how == "schema":
            data["schema"] = "ycpkg-spec-v9"
        elif how == "schema_none":
            data.pop("schema", None)
        elif how == "geom_none":
            data["geometry"] = None if d["pos"] < 0.5 else [1]
        elif how == "primary_none" and isinstance(geo, dict):
            geo["primary"] = None if d["pos"] < 0.5 else {}
            if geo["primary"] == {}:
                geo.pop("primary")
        elif how == "sec_scalar":
            ctr[0][ctr[1]] = 5
        elif how == "sec_dict":
            ctr[0][ctr[1]] = {"path": "x"}
        elif how == "sec_none":
            ctr[0][ctr[1]] = None
        elif how == "mat_bad":
            data["materials"] = {"m": {"visual": {}}} if d["pos"] < 0.5 else {"m": {"source": {"type": "guess"}}}
        elif how == "mat_scalar":
            data["materials"] = ["m"] if d["pos"] < 0.5 else {"m": 4}
        elif how == "mat_ok":
            data["materials"] = {"m": {"source": {"type": "tested"}, "visual": {"color": [1, 0, 0.5], "metallic": 3}}}
        elif how == "mat_color":
            data["materials"] = {"m": {"source": {"type": "custom"}, "visual": {"color": [1, 0]}}}
        elif ent is not None:
            h = ent.get("hash")
            if how == "hash_char" and isinstance(h, str) and len(h) > 10:
                i = h.index(":") + 1 + int(d["pos"] * (len(h) - h.index(":") - 1)) if ":" in h else 0
                c = h[i]
                ent["hash"] = h[:i] + ("0" if c != "0" else "1") + h[i + 1:]
            elif how == "hash_upper" and isinstance(h, str):
                ent["hash"] = h.upper()
            elif how == "hash_drop":
                ent.pop("hash", None)
            elif how == "hash_alg" and isinstance(h, str):
                ent["hash"] = "sha3_512:" + h.split(":")[-1]
            elif how == "hash_int":
                ent["hash"] = 12345
            elif how == "hash_bogus":
                ent["hash"] = "nosuchalg:00"
            elif how == "entry_scalar":
                box[0][box[1]] = "oops"
            elif how == "entry_nopath":
                ent.pop("path", None)
            elif how == "path_int":
                ent["path"] = 17
            elif how == "path_missing":
                ent["path"] = "geometry/none.bin"
            elif how == "path_other" and len(ents) > 1:
                o = ents[int(d["pos"] * len(ents))][2]
                if isinstance(o, dict):
                    ent["path"] = o.get("path")
            elif how == "drop_entry" and isinstance(box[0], list):
                del box[0][box[1]]
            elif how == "dup_entry" and isinstance(box[0], list):
                box[0].append(copy.deepcopy(ent))
        fs.put(man, P.Y["yaml"].safe_dump(data, sort_keys=False))

    def run(self, plan):
        r = Result()
        val = P.Y["validator"].validate_package
        with World(plan["seed"]) as w:
            fs = w.fs
            self.build(plan, fs)
            good = fs.clone_tree()
            seen = set()
            if P.reference_problems(fs, PKG):
                r.v("fresh-package-not-intact", f"just created package judged damaged: {P.reference_problems(fs, PKG)}")
                return r
            for i, o in enumerate(plan["ops"]):
                if o["undo"]:
                    fs.restore_tree(good)
                    good = fs.clone_tree()
                w.advance(max(0, o["dt"]))
                w.now += min(0, o["dt"])
                if o["warm"]:
                    call(val, Path(PKG))
                for d in o["dmg"]:
                    try:
                        self.damage(fs, d, r)
                    except OSError:
                        pass
                before = fs.tree(PKG)
                probs = P.reference_problems(fs, PKG)
                moot = [p for p in probs if p.startswith("?")]        # neither verdict is wrong
                probs = [p for p in probs if not p.startswith("?")]
                st, v = call(val, Path(PKG) if i % 2 else PKG, strict=o["strict"])
                accepted = st == "ok" and v[0]
                seen.add(bool(probs))
                r.state([d.get("how", "-") for d in o["dmg"]], bool(probs), accepted)
                r.t(i, [(d["t"], d.get("how")) for d in o["dmg"]], "expected problems", probs[:3], "->", st, accepted)
                r.faults["damage_" + ("silent" if probs else "harmless")] += 1
                if st != "ok":
                    r.v("validator-raised", f"damage {o['dmg']} made validation {st}: {v!r} (real problems: {probs[:3]})")
                    return r
                if accepted and probs:
                    r.v("accepted-damaged", f"accepted a package with {probs[:3]} after {[(d['t'], d.get('how')) for d in o['dmg']]}")
                    return r
                if not accepted and not probs and not moot:
                    r.v("rejected-intact", f"rejected an intact package: {v[1]} after {[(d['t'], d.get('how')) for d in o['dmg']]}")
                    return r
                if accepted is not True and not any("ERROR" in m or "FAILED" in m for m in v[1]):
                    r.v("rejected-without-reason", f"rejection carries no error message: {v[1]}")
                    return r
                if fs.tree(PKG) != before:
                    r.v("validation-changed-package", "files differ after validation")
                    return r
                if o["fault"]:
                    f = o["fault"]
                    n0 = fs.op_count_total
                    fs.arm([])
                    call(val, PKG)
                    n = fs.ops
                    b4 = dict(fs.fired)
                    fs.arm([{"kind": f["kind"], "at": int(f["frac"] * n)}])
                    st2, v2 = call(val, PKG, strict=o["strict"])
                    fs.disarm()
                    fired = {k: c - b4.get(k, 0) for k, c in fs.fired.items() if c > b4.get(k, 0)}
                    r.faults.update(fired)
                    r.t("   read fault", f, "->", st2, v2[0] if st2 == "ok" else type(v2).__name__)
                    if st2 == "ok" and v2[0] and probs:
                        r.v("accepted-damaged-under-read-error", f"{f}: accepted with {probs[:3]}")
                        return r
                    if st2 not in ("ok",) and not (st2 == "exc" and isinstance(v2, OSError)):
                        r.v("validator-raised", f"read fault {f}: {st2} {v2!r}")
                        return r
                    st3, v3 = call(val, PKG, strict=o["strict"])
                    if st3 != "ok" or v3[0] != accepted:
                        r.v("verdict-sticks-after-read-error", f"{f}: verdict {accepted} before, {st3} {v3!r:.200} after the fault is gone")
                        return r
            r.nontrivial = len(seen) == 2
        return r


CHECK = C02()
