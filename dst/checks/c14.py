"""C14: the datum registry answers from what was registered and what the files hold, and forgets failures."""
import json

from ..engine import Check, Result
from ..world import World, call

Y = {}
PROG = ["base", "arm", "XH430", "lib"]
FILES = {  # source id -> (path below a search directory, part name)
    "cots/a.json": ("cots/a.json", "XH430"),
    "b.json": ("b.json", "Bracket"),
    "./c.json": ("c.json", "Clip"),
    "arm.dsl": ("arm.datums.json", "arm"),
    "deep.dsl/plate.dsl": ("deep.dsl/plate.datums.json", None),
    "/sim/abs/z.json": ("z.json", "ZED"),
}
DSL_OF = {"arm.dsl": "arm.dsl", "deep.dsl/plate.dsl": "deep.dsl/plate.dsl"}
PARTN = ["XH430", "Bracket", "arm", "ZED", "Clip", "xh430", "BRACKET"]
DIRS = ["/sim/work", "/sim/lib1/vendor/deep", "/sim/parts.dsl", "/sim/cwd", "/sim/cwd/two"]     # the last two are current directories
DN = ["top", "axis", "ünï", "bad1", "bad2", "f"]
KIND = ["PLANE", "AXIS", "CIRCLE", "POINT", "FRAME", "plane", "axis"]


def gen_d(rng):
    return {"k": rng.choice(KIND), "o": [round(rng.uniform(-9, 9), 2) for _ in range(3)], "d": rng.choice([[0, 0, 1], [1, 0, 0], [0.6, 0.8, 0]]), "four": rng.random() < 0.3}


def gen_file(rng):
    names = rng.sample(DN, rng.randint(0, 4))
    d = {n: gen_d(rng) for n in names}
    for n in names:
        if n.startswith("bad"):
            d[n] = rng.choice([5, "x", None, {"type": "WHAT"}, {"type": "PLANE", "origin": 3}, [], {"type": 4}])
    return {"state": rng.choice(["ok"] * 5 + ["trunc", "list", "utf", "nodatums", "gone", "empty", "dir", "locked"]), "datums": d}


def gen_op(rng):
    k = rng.choice(["get"] * 8 + ["list"] * 3 + ["all"] * 3 + ["write"] * 6 + ["regsrc"] * 2 + ["regdat"] * 4 + ["regpart", "path", "path", "clear", "spoil", "sources", "cd"] + ["fget"] * 5)
    o = {"op": k, "s": rng.choice(PROG + list(FILES) * 2 + PARTN + ["nowhere", "nowhere.json"]), "n": rng.choice(DN), "q": rng.random() < 0.5}
    if k == "write":
        o["s"] = rng.choice(list(FILES))
        o["file"] = gen_file(rng)
        o["dir"] = rng.randrange(len(DIRS))
    if k in ("regsrc", "regdat", "regpart"):
        o["s"] = rng.choice(PROG + (list(FILES) if k == "regdat" else []) + PROG)
        o["d"] = {n: gen_d(rng) for n in rng.sample(DN, 1 if k == "regdat" else rng.randint(0, 3))}
    if k in ("path", "cd"):
        o["dir"] = rng.randrange(len(DIRS))
    if k == "fget":
        o["at"] = rng.randrange(6)
        o["kind"] = rng.choice(["eio", "eacces", "emfile"])
    return o


class Src:
    def __init__(self, datums, names):
        self.datums, self.names = datums, names


class C14(Check):
    id = "C14"
    runs = {"quick": 8000, "thorough": 160000}
    batch = 32
    shrink_lists = ("ops",)
    rule = "a run with a new trace in which a lookup failed and the same source was found later"
    real = ["yapcad.assembly.datum_registry"]
    stub = ["filesystem (in-memory, read errors)"]
    assumptions = ["reads are failed only for sources that exist in one search directory", "a datum is not registered on a source while that source cannot be read"]
    states_measure = "distinct (operation, kind of source, state of its file, loaded before, outcome)"

    def preload(self):
        import logging
        logging.disable(logging.CRITICAL)
        from yapcad.assembly import datum
        from yapcad.assembly.datum_registry import DatumRegistry
        Y.update(R=DatumRegistry, D=datum.Datum, DT=datum.DatumType, PD=datum.PartDefinition)

    def gen(self, rng, index, tier):
        ops = [gen_op(rng) for _ in range(rng.randint(5, 35 if tier == "quick" else 100))]
        f = rng.choice(list(FILES))
        pool = [f, f, FILES[f][1] or "base", rng.choice(PROG), rng.choice(list(FILES))]
        for o in ops:
            if rng.random() < 0.7:
                o["s"] = rng.choice(pool[:2] if o["op"] == "write" else [q for q in pool if q in PROG] or ["base"] if o["op"].startswith("reg") and o["op"] != "regdat" else pool)
        return {"seed": rng.randrange(1 << 30), "paths": rng.sample(range(len(DIRS)), rng.randint(0, 2)),
                "init": [{"s": s, "dir": rng.randrange(len(DIRS)), "file": gen_file(rng)} for s in FILES if rng.random() < 0.5],
                "ops": ops}

    # ------------------------------------------------------------ model
    def want(self, n, s):
        """A datum as (type, origin, normal, direction, x, y)"""
        h = lambda v, w: (list(v) + [w]) if len(v) == 3 else list(v)
        kd = s["k"].lower()
        nrm = h(s["d"], 0) if kd in ("plane", "circle") else None
        dr = h(s["d"], 0) if kd == "axis" else None
        x = [1, 0, 0, 0] if kd == "frame" else None
        y = [0, 1, 0, 0] if kd == "frame" else None
        return (n, kd, h(s["o"], 1), nrm, dr, x, y, 2.5 if kd == "circle" else None)

    def seen(self, d):
        return (d.name, d.datum_type.value, d.origin, d.normal, d.direction, d.x_axis, d.y_axis, d.radius)

    def js(self, s):
        if not isinstance(s, dict) or "k" not in s:
            return s
        kd = s["k"].lower()
        o = {"type": s["k"], "origin": s["o"] + ([1] if s["four"] else [])}
        v = s["d"] + ([0] if s["four"] else [])
        if kd in ("plane", "circle"):
            o["normal"] = v
        if kd == "axis":
            o["direction"] = v
        if kd == "circle":
            o["radius"] = 2.5
        if kd == "frame":
            o["x_axis"], o["y_axis"] = [1, 0, 0], [0, 1, 0]
        return o

    def mk(self, n, s):
        w = self.want(n, s)
        return Y["D"](n, Y["DT"](w[1]), origin=list(w[2]), normal=w[3], direction=w[4], x_axis=w[5], y_axis=w[6], radius=w[7])

    def run(self, plan):
        r = Result()
        R = Y["R"]
        with World(plan["seed"]) as w:
            import os
            fs = w.fs
            for d in DIRS + ["/sim/abs"]:
                fs.mkdirs(d)
            os.chdir("/sim/cwd")
            cwd = 3
            K = lambda s: s[2:] if s.startswith("./") else s
            R._instance = None                  # a new process
            files, paths = {}, []
            sources, loaded = {}, set()
            failed = set()
            for i in plan["paths"]:
                R.add_search_path(DIRS[i])
                paths.append(i)

            def path_of(s, i):
                p = FILES[s][0]
                return ("/sim/abs/" if s.startswith("/") else DIRS[i] + "/") + p

            def rm(p):
                if fs.has(p):
                    fs.rm(p)
                else:
                    call(os.rmdir, p)

            def write(s, i, f):
                if s.startswith("/"):
                    i = 0
                p = path_of(s, i)
                rm(p)
                st = f["state"]
                if st == "dir":
                    fs.mkdirs(p)
                elif st != "gone":
                    doc = {"part_name": FILES[s][1], "datums": {n: self.js(v) for n, v in f["datums"].items()}}
                    if FILES[s][1] is None:
                        del doc["part_name"]
                    if st == "nodatums":
                        doc["datums"] = [1, 2]
                    b = json.dumps([doc] if st == "list" else doc).encode()
                    if st == "trunc":
                        b = b[:len(b) // 2]
                    if st == "utf":
                        b = b[:1] + b"\xff\xfe" + b[1:]
                    if st == "empty":
                        b = b""
                    fs.put(p, b, mode=0 if st == "locked" else 0o644)
                if s in DSL_OF:
                    fs.put(DIRS[i] + "/" + DSL_OF[s], "module m;\n")
                files[K(s), i] = f

            def find(s):
                """datums the file of this source provides, or None"""
                for i in ([0] if s.startswith("/") else paths + [cwd]):           # the first directory that has it decides
                    f = files.get((K(s), i))
                    if f is None or (f["state"] == "gone" and s not in DSL_OF):
                        continue
                    if f["state"] != "ok":
                        return None
                    return {n: self.want(n, v) for n, v in f["datums"].items() if isinstance(v, dict) and "k" in v}
                return None

            def resolve(s):
                if s in loaded:
                    return sources[s]
                if s in FILES:
                    d = find(s)
                    if d is None:
                        return None
                    pn = FILES[s][1]
                    o = Src(d, {s, pn} - {None})
                    sources[s] = o
                    loaded.add(s)
                    if pn and pn not in loaded:
                        sources[pn] = o
                    return o
                for o in sources.values():
                    if s in o.names:
                        sources[s] = o
                        loaded.add(s)
                        return o
                return None

            for x in plan["init"]:
                write(x["s"], x["dir"], x["file"])
            for i, o in enumerate(plan["ops"]):
                k, s, n = o["op"], o["s"], o["n"]
                was = s in loaded
                e, got = None, None
                if k == "write":
                    if s in loaded and o["q"]:
                        continue
                    write(s, o["dir"], o["file"])
                elif k == "path":
                    call(R.add_search_path, os.path.relpath(DIRS[o["dir"]]) if o["q"] else DIRS[o["dir"]])
                    if o["dir"] not in paths:
                        paths.append(o["dir"])
                elif k == "cd":
                    cwd = 3 + o["dir"] % 2
                    os.chdir(DIRS[cwd])
                elif k == "clear":
                    call(R.clear)
                    sources.clear()
                    loaded.clear()
                elif k == "regsrc":
                    d = {q: self.mk(q, v) for q, v in o["d"].items()}
                    st, v = call(R.register_source, s, d)
                    sources[s] = Src({q: self.want(q, v) for q, v in o["d"].items()}, {s})
                    loaded.add(s)
                    if st != "ok":
                        e = ("register-failed", repr(v))
                    d.clear()                       # the caller's dictionary is the caller's
                elif k == "regpart":
                    pd = Y["PD"](name=s)
                    for q, v in o["d"].items():
                        pd.datums.append(self.mk(q, v)) if isinstance(pd.datums, list) else pd.add_datum(self.mk(q, v))
                    st, v = call(R.register_part, pd)
                    sources[s] = Src({q: self.want(q, v) for q, v in o["d"].items()}, {s})
                    loaded.add(s)
                    if st != "ok":
                        e = ("register-failed", repr(v))
                elif k == "regdat":
                    if s in FILES and s not in loaded and find(s) is None:
                        continue
                    q, v = next(iter(o["d"].items()))
                    st, x = call(R.register_datum, s, self.mk(q, v))
                    if st != "ok":
                        e = ("register-failed", repr(x))
                    obj = resolve(s)
                    if obj is None:
                        obj = sources[s] = Src({}, {s})
                        loaded.add(s)
                    obj.datums[q] = self.want(q, v)
                elif k == "sources":
                    st, v = call(R.list_sources)
                    if st != "ok" or not loaded <= set(v):
                        e = ("sources-wrong", f"{v!r} lacks {sorted(loaded - set(v if st == 'ok' else []))}")
                elif k in ("get", "fget"):
                    if k == "fget" and sum(q[0] == K(s) for q in files) < 2:
                        fs.arm([{"at": o["at"], "kind": o["kind"]}])
                    st, v = call(R.get_datum, s, n)
                    hit = 0
                    if k == "fget":
                        fs.disarm()
                        hit = sum(fs.fired.values())
                        r.faults.update(fs.fired)
                        fs.fired.clear()
                    if hit and not was and st == "exc" and isinstance(v, KeyError):
                        failed.add(s)               # nothing was learned
                        got = "failed"
                        d = find(s) if s in FILES else None
                        if d is not None and n not in d:          # or it was read and has no such datum
                            call(R.list_datums, s)
                            resolve(s)
                    else:
                        obj = resolve(s)
                        want = obj.datums.get(n) if obj else None
                        got = want is not None
                        if want is None:
                            if st != "exc" or not isinstance(v, KeyError):
                                e = ("missing-datum-found", f"{s}.{n}: {st} {v!r} but there is none")
                            if obj is None:
                                failed.add(s)
                        elif st != "ok":
                            e = ("datum-lost", f"{s}.{n}: {v!r}; expected {want}")
                        elif self.seen(v) != want:
                            e = ("wrong-datum", f"{s}.{n} is {self.seen(v)}, expected {want}")
                        if want is not None and s in failed:
                            r.nontrivial = True
                            r.stats["found_after_failure"] += 1
                elif k in ("list", "all", "spoil"):
                    st, v = call(R.list_datums if k == "list" else R.get_datums_for_source, s)
                    obj = resolve(s)
                    got = obj is not None
                    if obj is None:
                        failed.add(s)
                        if k == "list" and (st != "ok" or list(v)):
                            e = ("list-wrong", f"{s}: {st} {v!r}")
                        elif k != "list" and not (st == "exc" and isinstance(v, KeyError)) and not (st == "ok" and not v):
                            e = ("list-wrong", f"{s}: {st} {v!r}")
                    elif st != "ok" or sorted(v) != sorted(obj.datums):
                        e = ("list-wrong", f"{s}: {list(v) if st == 'ok' else v!r}, expected {list(obj.datums)}")
                    elif k != "list" and any(self.seen(v[q]) != obj.datums[q] for q in v):
                        e = ("wrong-datum", f"{s}: {[self.seen(q) for q in v.values()]}")
                    elif k == "spoil":
                        v.clear()
                        r.faults["caller_modified_result"] += 1
                fst = [f["state"] for q, f in files.items() if q[0] == K(s)]
                r.t(i, k, s, n, got)
                r.state(k, s in FILES, fst[:1], was, got)
                if e:
                    r.v(e[0], f"after {[p['op'] for p in plan['ops'][:i + 1]]}: {e[1]}")
                    break
            os.chdir("/sim/work")
            r.nontrivial = bool(r.stats["found_after_failure"])
        return r


CHECK = C14()
