"""C13: fastener catalogues: lookups give what the first catalogue in search order holds; failures are errors and are forgotten."""
import copy
import os
from pathlib import Path

import yaml as _yaml

from ..engine import Check, Result
from ..world import World, call

Y = {}
DIRS = ["/sim/env1", "/sim/env 2", "/sim/home/cat", "/sim/env1/inner"]
USER = "/sim/home/.config/yapcad/fasteners"
CUST = ["/sim/work/my.yaml", "/sim/other/my.yaml"]         # the same relative name from two directories
CWD = ["/sim/work", "/sim/other"]
SERIES = ["metric_coarse", "metric_coarse", "metric_fine", "unified_coarse", "unified_fine"]
SIZES = ["M3", "M8", "m8", "m9x1", "1/4-20", "#10-24"]
ASK = SIZES + ["m3", "M9X1", "nope", ""]
TOL = ["6g", "6H", "2A", "9z"]
STATES = ["ok"] * 8 + ["schema1", "schema10", "locked", "yaml", "root", "schema", "nosizes", "listsizes", "nullsizes", "utf", "empty", "dir", "gone", "gone"]


def gen_cat(rng):
    sizes = {}
    for s in rng.sample(SIZES, rng.randint(0, 4)):
        d = {"nominal_diameter": round(rng.uniform(1, 30), 3), "pitch": round(rng.uniform(0.2, 3), 2)}
        if rng.random() < 0.8:
            d["tolerances"] = {t: {"td": rng.randrange(1000)} for t in rng.sample(TOL[:3], rng.randint(0, 3))}
        for k in ("hex_bolt", "hex_nut"):
            if rng.random() < 0.6:
                d[k] = {"width_across_flats": round(rng.uniform(5, 50), 2)}
        if rng.random() < 0.3:
            d["basic_minor_diameter"] = 2.5
        sizes[s] = d
    return {"state": rng.choice(STATES), "sizes": sizes, "classes": rng.sample(TOL, rng.randint(0, 3))}


def gen_op(rng):
    k = rng.choice(["look"] * 9 + ["write"] * 5 + ["clear"] * 4 + ["env"] * 2 + ["fault"] * 5 + ["spoil"] * 2 + ["cd", "rmdir"])
    o = {"op": k, "fn": rng.choice(["load", "sizes", "classes", "thread", "thread", "bolt", "nut"]), "s": rng.choice(SERIES + ["bogus"] if rng.random() < 0.2 else SERIES),
         "size": rng.choice(ASK), "tol": rng.choice(TOL[:3] + [None, None, "9z"]), "custom": rng.choice([None, None, None, "rel", "abs0", "abs1", "path"])}
    if k == "write":
        o["dir"] = rng.choice(list(range(len(DIRS))) + ["user", "user", "cust0", "cust1"])
        o["cat"] = gen_cat(rng)
    if k == "env":
        o["env"] = gen_env(rng)
    if k == "fault":
        o["at"], o["kind"] = rng.randrange(9), rng.choice(["eio", "eacces", "emfile"])
        o["fresh"] = rng.random() < 0.7
    o["i"] = rng.randrange(len(DIRS))
    return o


def gen_env(rng):
    e = [rng.choice(DIRS[:2] + ["~/cat", DIRS[3], DIRS[1] + " ", "/sim/none", "", "/sim/env1/../env1/inner"]) for _ in range(rng.randint(0, 3))]
    return None if not e and rng.random() < 0.5 else ":".join(e)


def text(c):
    """The document of a catalogue, and its parsed form (None when it must be refused)."""
    doc = {"schema_version": "1.2", "standard": "X", "sizes": c["sizes"], "tolerance_classes": {k: {"type": "x"} for k in c["classes"]}}
    st = c["state"]
    if st == "schema1":
        del doc["schema_version"]
    if st == "schema":
        doc["schema_version"] = "2.0"
    if st == "schema10":
        doc["schema_version"] = "10.2"
    if st == "nosizes":
        del doc["sizes"]
    if st == "listsizes":
        doc["sizes"] = ["M3"]
    if st == "nullsizes":
        doc["sizes"] = None
    b = _yaml.safe_dump([doc] if st == "root" else doc).encode()
    if st == "yaml":
        b = b"a: [1, {\n" + b[: len(b) // 2]
    if st == "utf":
        b = b"x: \xff\xfe\n" + b
    if st == "empty":
        b = b""
    return b, (doc if st in ("ok", "schema1") else None)


class C13(Check):
    id = "C13"
    runs = {"quick": 2500, "thorough": 60000}
    batch = 16
    shrink_lists = ("ops",)
    rule = "a run with a new trace in which a lookup followed a change and a clear, or a failed lookup was repeated"
    real = ["yapcad.fasteners.catalog", "yaml"]
    stub = ["filesystem (in-memory, read errors)", "environment variables, home and current directory"]
    assumptions = ["between a change and clear_cache either the state before or after the change may be seen", "catalogue size names are strings with mapping values"]
    states_measure = "distinct (function, series, custom path kind, state of the deciding file, outcome, cached before)"

    def preload(self):
        from yapcad.fasteners import catalog
        Y["C"] = catalog
        Y["b"] = {s: _yaml.safe_load((Path(catalog.__file__).parent / "data" / f"{s}.yaml").read_text()) for s in set(SERIES)
                  if (Path(catalog.__file__).parent / "data" / f"{s}.yaml").exists()}

    def gen(self, rng, index, tier):
        ops = [gen_op(rng) for _ in range(rng.randint(5, 28 if tier == "quick" else 80))]
        s = rng.choice(SERIES)
        for o in ops:
            if rng.random() < 0.7:
                o["s"] = s
        return {"seed": rng.randrange(1 << 30), "env": gen_env(rng),
                "init": [{"dir": d, "s": rng.choice([s] * 3 + SERIES), "cat": gen_cat(rng)} for d in list(range(len(DIRS))) + ["user", "cust0", "cust1"] if rng.random() < 0.5], "ops": ops}

    # ---------------------------------------------------------------- reference
    def dirs(self, env, present):
        out = []
        for p in (env or "").split(":"):
            p = p.strip()
            if p:
                p = os.path.normpath(p.replace("~", "/sim/home"))
                if p in present:
                    out.append(p)
        return out + ([USER] if USER in present else [])

    def catalog(self, s, cust, env, dirset, files):
        """(document, path) | "missing" | "bad" | "dir" """
        if cust:
            c = files.get(cust)
            cands = [(cust, c)] if c is not None and c["state"] != "gone" else []
        else:
            cands = [(f"{d}/{s}.yaml", files.get(f"{d}/{s}.yaml")) for d in self.dirs(env, dirset)]
            cands = [(p, c) for p, c in cands if c is not None and c["state"] != "gone"]
        if not cands:
            return (Y["b"][s], None) if not cust and s in Y["b"] else "missing"
        p, c = cands[0]
        if c["state"] in ("dir", "locked"):
            return "dir"
        d = text(c)[1]
        return (d, p) if d is not None else "bad"

    def want(self, o, cat):
        """("ok", value) or ("exc", kind)"""
        if o["s"] not in SERIES:
            return ("exc", "ValueError")
        if isinstance(cat, str):
            return ("exc", {"missing": "FileNotFoundError", "bad": "ValueError", "dir": "OSError"}[cat])
        doc = cat[0]
        fn, t = o["fn"], o["tol"]
        if fn == "load":
            return ("ok", doc)
        if fn == "sizes":
            return ("ok", sorted(doc["sizes"]))
        if fn == "classes":
            return ("ok", sorted(doc.get("tolerance_classes", {})))
        z = o["size"]
        for q in (z, z.upper(), z.lower()):
            if q in doc["sizes"]:
                d = doc["sizes"][q]
                break
        else:
            return ("exc", "KeyError")
        if fn == "thread":
            return ("exc", "KeyError") if t and t not in d.get("tolerances", {}) else ("ok", d)
        t = t or {"bolt": "6g", "nut": "6H"}[fn]
        if t not in d.get("tolerances", {}) or f"hex_{fn}" not in d:
            return ("exc", "KeyError")
        th = {"nominal_diameter": d["nominal_diameter"], "pitch": d["pitch"], "basic_minor_diameter": d.get("basic_minor_diameter"),
              "basic_pitch_diameter": d.get("basic_pitch_diameter"), "tolerance_class": t, "tolerances": d["tolerances"][t]}
        if fn == "nut":
            th["internal"] = True
        return ("ok", {"thread": th, {"bolt": "head", "nut": "body"}[fn]: d[f"hex_{fn}"]})

    def ask(self, o, cust):
        C = Y["C"]
        a = {} if cust is None else {"custom_path": cust}
        if o["fn"] == "load":
            return call(C.load_catalog, o["s"], **a)
        if o["fn"] in ("sizes", "classes"):
            return call(C.list_available_sizes if o["fn"] == "sizes" else C.list_tolerance_classes, o["s"], **a)
        t = {} if o["tol"] is None else {"tolerance_class": o["tol"]}
        return call({"thread": C.get_thread_data, "bolt": C.get_bolt_data, "nut": C.get_nut_data}[o["fn"]], o["s"], o["size"], **t, **a)

    def same(self, got, want, o):
        st, v = got
        if want[0] == "exc":
            t = {"ValueError": ValueError, "FileNotFoundError": FileNotFoundError, "KeyError": KeyError, "OSError": OSError}[want[1]]
            return st == "exc" and isinstance(v, t)
        if st != "ok":
            return False
        if o["fn"] == "load":
            v = {k: x for k, x in v.items() if k != "_source_path"}
        return v == want[1]

    def run(self, plan):
        r = Result()
        saved = {k: os.environ.get(k) for k in ("YAPCAD_FASTENER_DATA", "HOME")}
        with World(plan["seed"]) as w:
            try:
                self.go(plan, r, w)
            finally:
                Y["C"].clear_cache()
                os.chdir("/sim/work")
                for k, v in saved.items():
                    os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
        return r

    def go(self, plan, r, w):
        C, fs = Y["C"], w.fs
        for d in ["/sim/home"] + CWD:
            fs.mkdirs(d)
        os.environ["HOME"] = "/sim/home"
        files, present = {}, set()

        def setenv(e):
            os.environ.pop("YAPCAD_FASTENER_DATA", None)
            if e is not None:
                os.environ["YAPCAD_FASTENER_DATA"] = e

        def write(d, s, c):
            p = CUST[int(d[-1])] if str(d).startswith("cust") else f"{USER if d == 'user' else DIRS[d]}/{s}.yaml"
            if s not in SERIES:
                return
            if not str(d).startswith("cust"):
                q = os.path.dirname(p)
                fs.mkdirs(q)
                present.update(x for x in DIRS + [USER] if q == x or q.startswith(x + "/"))
            if fs.has(p):
                fs.rm(p)
            else:
                call(os.rmdir, p)
            if c["state"] == "dir":
                fs.mkdirs(p)
            elif c["state"] != "gone":
                fs.put(p, text(c)[0], mode=0 if c["state"] == "locked" else 0o644)
            files[p] = c

        env, cwd = plan["env"], 0
        setenv(env)
        os.chdir(CWD[0])
        for x in plan["init"]:
            write(x["dir"], x["s"], x["cat"])
        C.clear_cache()
        envs, fstates = [], []

        def note(fresh=False):
            """Remember the present state; after a clear only it counts."""
            if fresh:
                envs.clear()
                fstates.clear()
            envs.append((env, frozenset(present)))
            fstates.append(dict(files))
        note(True)
        changed = cleared = False
        failed = set()
        for i, o in enumerate(plan["ops"]):
            k, e, got = o["op"], None, None
            if k == "write":
                write(o["dir"], o["s"], o["cat"])
                note()
                changed = True
            elif k == "env":
                env = o["env"]
                setenv(env)
                note()
                changed = True
            elif k == "rmdir":
                d = DIRS[o["i"]]
                if d in present and o["i"] != 0:
                    for p in [p for p in files if p.startswith(d + "/")]:
                        if fs.has(p):
                            fs.rm(p)
                        else:
                            call(os.rmdir, p)
                        del files[p]
                    call(os.rmdir, d)
                    present.discard(d)
                    note()
                    changed = True
            elif k == "cd":
                cwd = o["i"] % 2
                os.chdir(CWD[cwd])
            elif k == "clear":
                C.clear_cache()
                note(True)
                cleared = changed
            else:
                path = {None: None, "rel": "my.yaml", "abs0": CUST[0], "abs1": CUST[1], "path": Path("my.yaml")}[o["custom"]]
                full = None if path is None else os.path.join(CWD[cwd], str(path))
                if k == "fault":
                    if o["fresh"]:
                        C.clear_cache()
                        note(True)
                        cleared = changed
                    fs.arm([{"at": o["at"], "kind": o["kind"]}])
                got = self.ask(o, path)
                hit = 0
                if k == "fault":
                    fs.disarm()
                    hit = sum(fs.fired.values())
                    r.faults.update(fs.fired)
                    fs.fired.clear()
                if hit and got[0] == "exc" and isinstance(got[1], OSError):
                    failed.add((o["s"], full))
                    r.stats["io_error_reported"] += 1
                    out = "io"
                else:
                    wants = []
                    for en, pr in envs:
                        for f in fstates:
                            x = self.want(o, self.catalog(o["s"], full, en, pr, f))
                            if x not in wants:
                                wants.append(x)
                    out = wants[-1][0]
                    if not any(self.same(got, x, o) for x in wants):
                        g = got[1] if got[0] == "ok" else repr(got[1])
                        e = ("wrong-lookup", f"{o['fn']}({o['s']}, {o['size']!r}, {o['tol']}, custom={path!s}, cwd={CWD[cwd]}, env={env!r}) gave {g}, expected {wants}")
                    if (cleared or (o["s"], full) in failed) and got[0] == "ok":
                        r.nontrivial = True
                    if got[0] == "ok" and k == "spoil" and e is None:
                        self.spoil(got[1])
                        r.faults["caller_modified_result"] += 1
                r.state(o["fn"], o["s"], o["custom"], out, hit > 0, len(envs) > 1)
            r.t(i, k, o["s"], o["fn"], got and got[0])
            if e:
                r.v(*e)
                return

    def spoil(self, v):
        if isinstance(v, list):
            v.append("ZZ")
        else:
            for x in list(v.values()):
                if isinstance(x, dict):
                    self.spoil(x)
            v["nominal_diameter"] = -1
            v["sizes"] = {}


CHECK = C13()
