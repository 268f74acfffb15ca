"""C11: the HTTP service answers every request once, correctly, within its limits, whatever else is going on."""
import asyncio
import json

from .. import pkgsim as P
from .. import simloop as L
from .. import svcsim as V
from ..engine import Check, Result
from ..world import World

LIMITS = {"eval": 30.0, "ui": 10.0, "assembly": 120.0}
PATHS = {"eval": "/dsl/eval", "ui": "/dsl/ui_eval", "assembly": "/dsl/assembly_eval", "parse": "/dsl/parse", "commands": "/dsl/commands",
         "tess": "/tessellate", "bool": "/boolean", "health": "/health", "info": "/info", "builtins": "/builtins"}
PARAMSRC = ('@meta(x=1)\n', '')
JUNK = ["", "{", "null", "[]", "5", '"x"', '{"source": 5}', '{"source": NaN, "command": "C"}', '{"source": "\\ud800", "command": "C"}',
        '{"source": null, "command": null}', "[" * 40000, '{"a":' * 20000, '{"source":' + "1" * 6000 + "}", '{"geometry": 3}',
        '{"geometry": {"x": NaN}}', '{"geometry": NaN}', '{"operation": "xor", "a": {}, "b": {}}', '{"a": Infinity, "operation": "union", "b": {}}',
        '{"source": "module m;", "command": "C", "parameters": [1]}', '{"source": "x", "command": "C", "parameters": {"a": 1e999}}',
        '{"source": "module m;", "command": "C", "format": "step"}', '{"\\ud800": 1}', '{"source": {"\\ud800": NaN}}', "\x00", '{"source": "\\u0000"}']


def gen_doc(rng):
    n = rng.choice([1, 1, 2])
    return {"shapes": [{"k": rng.choice(["prism", "prism", "prism", "conic", "surface"]), "p": [round(rng.uniform(1, 9), 2) for _ in range(3)], "meta": {}} for _ in range(n)],
            "mut": [[rng.random(), rng.choice(["drop", "null", "num", "str", "nan", "big", "neg", "list", "inf"])] for _ in range(rng.choice([0, 0, 0, 1, 2]))]}


def gen_req(rng, n):
    k = rng.choice(["eval"] * 5 + ["ui"] * 3 + ["assembly"] * 3 + ["parse", "commands", "parse", "commands", "tess", "tess", "bool", "health", "info", "builtins", "junk", "junk", "junk"])
    f = {"k": k, "n": n, "t": rng.choice([0.0, 0.0, 0.5, rng.uniform(0, 60)]), "chunks": rng.choice([1, 1, 1, 3]), "delay": rng.choice([0.0, 0.0, 0.0, 1.0]),
         "lag": rng.choice([0.0, 0.0, 0.0, 2.0]), "drop": rng.choice([None] * 7 + [rng.uniform(0, 20)])}
    if k in LIMITS:
        lim = LIMITS[k]
        f["dur"] = rng.choice([0.0, 0.01, 1.0, lim - 0.5, lim - 3, lim + 0.5, lim + 40, 1000.0, None, rng.uniform(0, 2 * lim)])
        f["prog"] = V.gen_prog(rng, heavy=rng.random() < 0.05)
        if k == "ui" and rng.random() < 0.6:
            f["prog"]["k"] = rng.choice(["float", "intf", "plist", "bool", "strlist", "str", "pstr", "inf"])
        if k == "assembly" and rng.random() < 0.5:
            f["prog"]["k"] = rng.choice(["str", "pstr"])
        f["surrogate"] = rng.random() < 0.04
    elif k in ("parse", "commands"):
        f["prog"] = V.gen_prog(rng)
        f["edits"] = [[rng.random(), rng.choice(["del", "dup", "sym"]), rng.choice("{}();,:=<>\"'@#\\\n\x00é9. -")] for _ in range(rng.choice([0, 0, 1, 3]))]
        f["big"] = rng.random() < 0.05
    elif k == "tess":
        f["doc"] = gen_doc(rng)
    elif k == "bool":
        f["doc"], f["doc2"] = gen_doc(rng), gen_doc(rng)
        for d in (f["doc"], f["doc2"]):
            d["shapes"] = [{"k": "prism", "p": s["p"], "meta": {}} for s in d["shapes"][:1]]
        f["oper"] = rng.choice(["union", "difference", "intersection"])
        f["engine"] = rng.choice([None, "native", "native", "nosuch", "trimesh"])
    elif k == "junk":
        f["path"] = rng.choice(sorted(set(PATHS) - {"health", "info", "builtins"}))
        f["body"] = rng.choice(JUNK)
        f["ctype"] = rng.choice(["application/json"] * 5 + ["text/plain", "application/x-www-form-urlencoded"])
    return f


def mutate(doc, muts):
    """Apply structural damage to a JSON document (deterministic)."""
    doc = json.loads(json.dumps(doc))

    def slots(x, out):
        if isinstance(x, dict):
            for k in sorted(x):
                out.append((x, k))
                slots(x[k], out)
        elif isinstance(x, list):
            for i in range(len(x)):
                out.append((x, i))
                slots(x[i], out)
        return out
    for frac, how in muts:
        s = slots(doc, [])
        if not s:
            break
        c, k = s[min(len(s) - 1, int(frac * len(s)))]
        if how == "drop":
            del c[k]
        else:
            c[k] = {"null": None, "num": 7, "str": "zz", "nan": float("nan"), "big": 10 ** 9, "neg": -1, "list": [], "inf": float("inf")}[how]
    return doc


class C11(Check):
    id = "C11"
    runs = {"quick": 9000, "thorough": 100000}
    batch = 20
    rule = "a run with a new trace in which at least two requests overlapped and at least one hit its limit, was malformed or was dropped"
    real = ["service.main/routes/core/models (ASGI app)", "fastapi, starlette, pydantic, anyio cancellation and limiter", "asyncio scheduling",
            "yapcad.dsl compile_and_run, lexer, parser", "yapcad.io.geometry_json", "yapcad.boolean native engine"]
    stub = ["network and ASGI server (uvicorn)", "worker threads (run in virtual time)", "clock"]
    assumptions = ["at most 20 requests in flight (anyio's default limiter allows 40 worker threads)",
                   "worker jobs are atomic in this check (interleavings inside evaluations are decided by C08)"]
    states_measure = "distinct (endpoint, program kind, outcome) triples"

    def preload(self):
        V.preload()

    def gen(self, rng, index, tier):
        n = rng.choice([1, 2, 4, 8, 18])
        ops = [gen_req(rng, i) for i in range(n)]
        evals = [o for o in ops if o["k"] in LIMITS]
        V.share(rng, evals)
        for o in evals:             # a stuck evaluation stays over its own endpoint's limit, a quick one under it
            if o.get("same") is not None and o["dur"] is not None and abs(o["dur"] - LIMITS[o["k"]]) < 0.4:
                o["same"] = None
        return {"seed": rng.randrange(1 << 30), "ops": ops}

    def run(self, plan):
        res = Result()
        w = World(plan["seed"])
        with w:
            self._run(plan, res, w)
        res.sim_time += w.sim_time
        return res

    def prepare(self, f):
        """Fill in path, body and how to judge the reply."""
        k = f["k"]
        f["tag"] = tag = f"t{f['same']}x" if f.get("same") is not None else f"t{f['n']}x"
        f["method"], f["ctype"] = "POST", f.get("ctype", "application/json")
        if k in LIMITS:
            src, cmd, params = V.source(f["prog"], tag)
            if f.get("surrogate"):
                if params.get("s"):
                    params["s"] += "\ud800"
                else:
                    f["surrogate"] = False
            f["src"], f["cmd"], f["params"] = src, cmd, params
            body = {"source": src, "command": cmd, "parameters": params}
            if k == "eval":
                body["format"] = "json"
        elif k in ("parse", "commands"):
            src = V.source(f["prog"], tag)[0]
            if f["big"]:
                src = src.replace("emit", "emit " + "1.0 + " * (60 if f["n"] % 2 else 5000), 1)
            for frac, how, ch in f["edits"]:
                i = int(frac * len(src))
                if "tag:" in src[max(0, i - 12):i + 14]:       # not in the tag line
                    continue
                src = src[:i] + {"del": "", "dup": src[i:i + 1] * 2, "sym": ch}[how] + src[i + 1:]
            f["src"] = src
            body = {"source": src}
        elif k in ("tess", "bool"):
            docs = []
            for d in ("doc", "doc2"):
                if d in f:
                    ents = [P.build_shape(dict(s, p=s["p"] + [0] if s["k"] == "surface" else s["p"])) for s in f[d]["shapes"]]
                    docs.append(mutate(P.Y["gj"].geometry_to_json(ents), f[d]["mut"]))
            f["docs"] = docs
            body = {"geometry": docs[0]} if k == "tess" else {"operation": f["oper"], "a": docs[0], "b": docs[1]}
            if f.get("engine"):
                body["engine"] = f["engine"]
        elif k == "junk":
            return PATHS[f["path"]], f["body"].encode("utf-8", "replace")
        else:
            f["method"] = "GET"
            return PATHS[k], b""
        return PATHS[k], json.dumps(body).encode()

    def _run(self, plan, res, w):
        reqs, durs = [], {}
        for f in plan["ops"]:
            f = dict(f)
            path, body = self.prepare(f)
            if f["k"] in LIMITS:
                durs[f["tag"]] = L.HANG if f["dur"] is None else f["dur"]
            f["http"] = L.Http(V.S["app"], f["method"], path, body, chunks=f["chunks"], delay=f["delay"], drop_at=f["drop"],
                               ctype=f["ctype"], lag=f["lag"], frame=f["tag"])
            reqs.append(f)

        async def main(loop):
            async def one(f):
                await asyncio.sleep(f["t"])
                f["t0"] = loop.time()
                await f["http"].go()
            ours = [asyncio.ensure_future(one(f)) for f in reqs]
            await asyncio.wait(ours, timeout=500.0)
            await asyncio.sleep(1.0)
            return [i for i, t in enumerate(ours) if not t.done()], len([t for t in asyncio.all_tasks() if t not in ours]) - 1

        (stuck, left), loop = V.simulate(w, durs, main)
        for i in stuck:
            f = reqs[i]
            res.v("no-answer", f"{f['k']} ({f.get('prog', {}).get('k', '')}) got no answer within 500 s")
        if left > 0 and not stuck:
            res.v("tasks-left", f"{left} tasks still running long after every request ended")
        odd = 0
        for i, f in enumerate(reqs):
            if i not in stuck:
                odd += self.judge(res, f, durs)
        res.nontrivial = len(reqs) > 1 and odd > 0

    def judge(self, res, f, durs):
        h, k = f["http"], f["k"]
        label = f"{k} {f.get('prog', {}).get('k', f.get('body', ''))!r:.50}"
        dropped = f["drop"] is not None
        d = durs.get(f["tag"], 0.01)
        lim = LIMITS.get(k)
        if dropped:
            res.faults["client_disconnect"] += 1
            if h.crash is not None and type(h.crash).__name__ not in ("ClientDisconnect", "OSError"):
                res.v("crash", f"{label}: dropped request raised {h.crash!r}")
            if h.status is None or not h.complete:
                return 1
        if h.crash is not None:
            res.v("crash", f"{label}: server error {type(h.crash).__name__}: {h.crash}"[:300])
            return 1
        if h.starts != 1 or not h.complete or h.after_complete:
            res.v("not-one-response", f"{label}: {h.starts} responses started, complete={h.complete}, messages after the end={h.after_complete}")
            return 1
        st = h.status
        sent = h.t_sent if h.t_sent is not None else f["t0"]
        took = h.t_start - sent
        res.t(f["n"], k, st, round(took, 3), len(b"".join(h.parts)) if k not in ("eval", "bool", "info") else "")
        if st >= 500 or st < 200:
            res.v("server-error", f"{label}: status {st}")
            return 1
        try:
            body = h.json()
        except Exception as e:
            res.v("not-json", f"{label}: response {b''.join(h.parts)[:80]!r}: {e}")
            return 1
        res.state(k, f.get("prog", {}).get("k", f.get("path")), st)
        if dropped and st != 200:
            return 1
        if lim is not None and d > lim:
            res.faults["slow_or_hung_eval"] += 1
            if st != 408:
                res.v("limit-not-kept", f"{label}: ran past its {lim} s limit and was answered {st} after {took:.1f} s")
            elif not lim - 1.0 <= took <= lim + 1.0:
                res.v("limit-late", f"{label}: limit {lim} s but answered after {took:.1f} s")
            return 1
        if not (d if lim is not None else 0.0) - 0.1 <= took <= (d if lim is not None else 0.01) + 1.0:
            res.v("late", f"{label}: needs {d} s of work, answered after {took:.2f} s")
        bad = self.content(f, st, body, res)
        if bad:
            res.v("wrong-answer", f"{label}: {bad}")
        res.stats[f"{k}_{st}"] += 1
        return int(k == "junk")

    def content(self, f, st, body, res):
        k = f["k"]
        if k == "health":
            return None if st == 200 and body == {"status": "ok"} else f"{st} {body}"
        if k == "info":
            return None if st == 200 and body.get("yapcad_version") else f"{st}"
        if k == "builtins":
            return None if st == 200 and body.get("api") == json.loads(json.dumps(V.S["api"]())) else f"{st} not the API reference"
        if k == "junk":
            res.faults["malformed_request"] += 1
            if f["path"] in LIMITS and st == 200:
                return "malformed request succeeded" if body.get("success") else None
            return None if 400 <= st < 500 else (None if self.junk_ok(f) else f"malformed request answered {st}")
        if k in ("parse", "commands"):
            if f["big"] and f["n"] % 2 == 0:        # deeper than any fixed recursion limit: refused or not, but answered
                return None if st in (200, 400) else f"status {st}"
            try:
                import service.core.ast_serialize as A
                from yapcad.dsl.parser import parse
                mod = parse(V.S["lexer"].tokenize(f["src"]), source=f["src"])
            except Exception:
                return None if st == 400 else f"unparsable source answered {st}"
            if st != 200:
                return f"parsable source answered {st}"
            if k == "commands":
                names = [c.get("name") for c in body.get("commands", [])]
                want = [fn.name for fn in mod.functions] if hasattr(mod, "functions") else names
                if names != want:
                    return f"commands {names} are not {want}"
                got = [[p["name"] for p in c["params"]] for c in body["commands"]]
                wp = [[p.name for p in fn.parameters] for fn in mod.functions]
                return None if got == wp else f"parameters {got} are not {wp}"
            try:
                want = json.loads(json.dumps(A.ast_to_dict(mod), allow_nan=False))
            except ValueError:
                return None
            return None if body.get("ast") == want else "AST of another source"
        if k == "tess":
            try:
                ents = P.Y["gj"].geometry_from_json(json.loads(json.dumps(f["docs"][0])))
                want = self.mesh(ents)
                json.dumps(want, allow_nan=False)
            except Exception:
                return None if st == 400 else (None if st == 422 else f"unusable geometry answered {st}")
            if st != 200:
                return f"usable geometry answered {st} {str(body)[:100]}"
            return None if body == json.loads(json.dumps(want)) else "mesh of another geometry"
        if k == "bool":
            return self.boolean(f, st, body)
        if f.get("surrogate"):
            return None if (st in (400, 422) or body.get("success") is False or body.get("assembly_snapshot") is not None or k == "ui") else f"{st}"
        ref = f.setdefault("ref", V.reference(f["src"], f["cmd"], f["params"]))
        kind = ref["kind"]
        if k == "ui":
            if st != 200:
                return f"status {st}"
            if kind in ("raise", "fail", "empty") or ref.get("success") is False:
                return None if body.get("success") is False and (body.get("error_message") or ref["req"]) and body.get("values") is None else f"failing program gave {str(body)[:80]}"
            if kind in ("str", "other"):
                data = ref["data"]
                vals = data if isinstance(data, list) else [data]
                try:
                    vals = json.loads(json.dumps(vals, allow_nan=False))
                except ValueError:
                    return None
                except TypeError:
                    return None
                if body.get("success") is not True or body.get("values") != vals:
                    return f"values {body.get('values')!r:.80} are not {vals!r:.80}"
            return None
        if kind == "raise":
            return None if st == 400 and V.names_tag(body.get("detail"), ref["msg"], f["tag"]) else f"{st} {str(body)[:80]} for a program that raises"
        if st != 200:
            return f"status {st} for a program that runs"
        if kind not in ("empty", "fail") and len(body.get("require_failures") or []) != ref["req"]:
            return "require failures of another program"
        told = [x.get("message") for x in body.get("require_failures") or []]
        if not all(isinstance(x, str) for x in told) or kind not in ("empty", "fail") and told != ref["reqm"]:
            return f"require failures {told!r:.120} where the program says {ref['reqm']!r:.80}"
        if k == "assembly":
            if kind == "str" and ref["success"]:
                return None if body.get("success") is True and body.get("assembly_snapshot") == ref["data"] else f"snapshot {body.get('assembly_snapshot')!r:.60}"
            return None if body.get("success") is False and body.get("assembly_snapshot") is None else f"{str(body)[:80]}"
        return V.judge_eval(body, ref, f["tag"])

    def junk_ok(self, f):
        """Some 'junk' is a harmless request for its endpoint."""
        try:
            b = json.loads(f["body"])
        except Exception:
            return False
        return f["path"] in ("parse", "commands") and isinstance(b, dict) and isinstance(b.get("source"), str)

    def mesh(self, ents):
        g3 = P.Y["g3"]
        v, n, idx, off = [], [], [], 0
        for e in ents:
            for s in ([e] if g3.issurface(e) else [s for s in (e[1] or []) if g3.issurface(s)] if g3.issolid(e) else []):
                for i, p in enumerate(s[1] or []):
                    v += [float(p[0]), float(p[1]), float(p[2])]
                    n += [float(s[2][i][c]) for c in range(3)] if i < len(s[2] or []) else [0.0] * 3
                for t in s[3] or []:
                    if len(t) == 3:
                        idx += [off + int(q) for q in t]
                off += len(s[1] or [])
        return {"vertices": v, "normals": n, "indices": idx}

    def boolean(self, f, st, body):
        if f.get("engine") == "nosuch":
            return None if st == 400 else f"unknown engine answered {st}"
        if f.get("engine") == "trimesh":
            return None if st in (200, 400) else f"{st}"
        g3, gj = P.Y["g3"], P.Y["gj"]
        try:
            sol = []
            for d in f["docs"]:
                sol.append(next(e for e in gj.geometry_from_json(json.loads(json.dumps(d))) if g3.issolid(e)))
            r = V.S["get_engine"]("native").solid_boolean(sol[0], sol[1], f["oper"], stitch=False)
            want = gj.geometry_to_json([r], generator={"name": "yapcad-service", "boolean": {"engine": "native", "operation": f["oper"]}})
            try:
                json.dumps(want, allow_nan=False)
            except ValueError:
                return None                 # infinities in, anything but an error page out
        except StopIteration:
            return None if 400 <= st < 500 else f"no solid, answered {st}"
        except Exception:
            return None if 400 <= st < 500 else f"unusable operands answered {st}"
        if st != 200:
            return f"usable operands answered {st} {str(body)[:80]}"
        return None if V.norm(body.get("geometry")) == V.norm(want) else "result of another operation"


CHECK = C11()
