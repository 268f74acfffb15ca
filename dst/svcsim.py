"""Shared parts of the service checks: program pool, references, frame builders."""
from __future__ import annotations

import contextlib
import json
import re

from . import pkgsim as P
from . import simloop as L

S = {}
LOOP = [None]
TAG = re.compile(r"# tag:(\w+)")
UUID = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")
STAMP = re.compile(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|\+00:00)?")


def preload():
    P.preload()
    import yapcad.dsl.lexer as lexer
    real = lexer.tokenize

    def tokenize(source, *a, **k):
        loop = LOOP[0]
        if loop is not None and isinstance(source, str):
            m = TAG.search(source)
            if m:
                loop.touched(m.group(1))
        return real(source, *a, **k)
    if not getattr(lexer.tokenize, "_dst", False):
        tokenize._dst = True
        lexer.tokenize = tokenize
    from yapcad.dsl.runtime import interpreter
    import service.main as main
    from yapcad.boolean import get_engine
    from yapcad.dsl.introspection import get_api_reference
    S.update(lexer=lexer, interp=interpreter, main=main, get_engine=get_engine, api=get_api_reference, app=main.create_app())
    get_api_reference()
    warm = "module m;\ncommand C() -> solid { emit union(box(1.0,1.0,1.0), translate(box(1.0,1.0,1.0), 0.5, 0.5, 0.5)); }"
    try:
        interpreter.compile_and_run(warm, "C", {})
    except Exception:
        pass
    import asyncio
    from .world import World
    with World(0) as w:
        async def main_(loop):
            h = L.Http(S["app"], "GET", "/health")
            await asyncio.wait_for(h.go(), 10)
            b = json.dumps({"source": "module m;\ncommand C() -> solid { emit box(1.0,1.0,1.0); }", "command": "C"}).encode()
            for p in ("/dsl/eval", "/dsl/ui_eval", "/dsl/assembly_eval", "/dsl/parse", "/dsl/commands"):
                await asyncio.wait_for(L.Http(S["app"], "POST", p, b).go(), 1000)
            for p in ("/builtins", "/info"):
                await asyncio.wait_for(L.Http(S["app"], "GET", p).go(), 1000)
            ws = L.Ws(S["app"], "/ws/dsl/eval", [], 1.0)
            await asyncio.wait_for(ws.go(), 100)
        with contextlib.suppress(Exception):
            L.run(w, lambda f: 0.0, main_)


# ------------------------------------------------------------------ programs
def gen_prog(rng, heavy=False):
    d = lambda: round(rng.uniform(0.5, 9.0), 2)
    k = rng.choice(["box", "box", "pbox", "pbox", "sphere", "cyl", "str", "pstr", "float", "plist", "bool", "strlist", "solids", "rect",
                    "undef", "zero", "type", "req", "syntax", "nocmd", "noemit", "sqrt", "inf", "helper", "cond", "forloop"]
                   + (["union"] if heavy else []))
    return {"k": k, "a": [d(), d(), d()], "n": rng.randrange(2, 5), "lay": rng.randrange(4)}


def share(rng, ops):
    """Make some requests repeat or nearly repeat another's program (same source with other parameters, or one literal changed)."""
    ops = [o for o in ops if "prog" in o and "dur" in o]
    if len(ops) < 2 or rng.random() < 0.4:
        return
    for i, o in enumerate(ops[1:]):
        b = ops[0] if rng.random() < 0.6 else rng.choice(ops[:i + 1])
        if b is o or b.get("same") is not None:
            continue
        how = rng.choice(["same", "same", "near", "own"])
        if how == "same":
            pk = b["prog"]["k"] in ("pbox", "pstr", "plist", "req", "cond", "inf")
            o["prog"] = dict(b["prog"], a=o["prog"]["a"] if pk else b["prog"]["a"])
            o["same"], o["dur"] = b["n"], b["dur"]
        elif how == "near":
            o["prog"] = dict(b["prog"], a=o["prog"]["a"])
            if rng.random() < 0.5:          # two programs that differ in one character
                b["prog"].update(k="str", lay=rng.choice([2, 3]))
                o["prog"] = dict(b["prog"])


STR_EMITS = ("str", "pstr")


def source(sp, tag):
    """(source, command, parameters) of a pool program; its text carries its tag."""
    a, n = sp["a"], sp["n"]
    k = sp["k"]
    lay = sp.get("lay", 0)
    hh = f'command HH() -> string {{ emit "# tag:{tag}"; }}'
    head = [f"# tag:{tag}\nmodule m;\n", "module m;\n", f"module m; {hh}\n", "module m;\n\n"][lay]
    tail = ["", f"\n# tag:{tag}\n", "", f"\n{hh}\n"][lay]
    cmd, params = "C", {}
    f = [repr(float(x)) for x in a]
    body = {
        "box": f"command C() -> solid {{ emit box({f[0]}, {f[1]}, {f[2]}); }}",
        "pbox": "command C(w: float, h: float, d: float) -> solid { emit box(w, h, d); }",
        "sphere": f"command C() -> solid {{ emit sphere({f[0]}); }}",
        "cyl": f"command C() -> solid {{ emit translate(cylinder({f[0]}, {f[1]}), {f[2]}, 0.0, 1.0); }}",
        "str": f'command C() -> string {{ emit {"HH()" if lay >= 2 else '"snap-' + tag + "-" + str(a[0]) + '"'}; }}',
        "pstr": "command C(s: string) -> string { emit s; }",
        "float": f"command C() -> float {{ emit {f[0]} * {f[1]}; }}",
        "plist": "command C(x: list<float>) -> list<float> { emit [v * 2.0 for v in x]; }",
        "bool": f"command C() -> bool {{ emit {f[0]} < {f[1]}; }}",
        "strlist": f'command C() -> list<string> {{ emit ["{tag}", "{a[0]}"]; }}',
        "solids": f"command C() -> list<solid> {{ emit [box({f[0]}, {f[1]}, i * 1.0 + 1.0) for i in range({n})]; }}",
        "rect": f"command C() -> region2d {{ emit rectangle({f[0]}, {f[1]}); }}",
        "undef": f"command C() -> float {{ emit nope_{tag} + 1.0; }}",
        "zero": "command C() -> float { let z: float = 0.0; emit 1.0 / z; }",
        "type": f'command C() -> float {{ let q_{tag}: float = "x"; emit q_{tag}; }}',
        "req": f'command C(w: float) -> solid {{ require w > 1000.0, "too small {tag} {f[0]}"; emit box(w, w, w); }}',
        "syntax": f"command C( -> float {{ emit {f[0]} }}",
        "nocmd": "command D() -> float { emit 1.0; }",
        "noemit": "command C() -> float { let z: float = 1.0; }",
        "sqrt": "command C() -> float { emit sqrt(0.0 - 4.0); }",
        "inf": "command C(w: float) -> float { emit w * 1.0e200 * 1.0e200; }",
        "helper": f"command H(x: float) -> float {{ emit x + {f[1]}; }}\ncommand C() -> solid {{ emit box(H({f[0]}), 1.0, 1.0); }}",
        "cond": f"command C(w: float) -> solid {{ emit sphere(w) if w > {f[0]} else box(w, 1.0, 1.0); }}",
        "forloop": f"command C() -> float {{ let t: float = 0.0; for i in range({n + 3}) {{ t = t + {f[0]} * i; }} emit t; }}",
        "union": f"command C() -> solid {{ emit union(box({f[0]}, {f[1]}, {f[2]}), translate(box(1.0, 1.0, 1.0), 0.3, 0.2, 0.1)); }}",
        "intf": f"command C() -> int {{ emit {n}; }}",
    }[k]
    if k == "pbox":
        params = {"w": a[0], "h": a[1], "d": a[2]}
    elif k == "pstr":
        params = {"s": f"ünï-{tag}-{a[1]}"}
    elif k == "plist":
        params = {"x": a}
    elif k in ("req", "cond", "inf"):
        params = {"w": a[1]}
    return head + body + tail, cmd, params


def norm(doc):
    return STAMP.sub("T", UUID.sub("U", json.dumps(doc, sort_keys=True)))


def entities_of(g):
    g3, geom = P.Y["g3"], P.Y["geom"]
    ok = lambda e: g3.issolid(e) or g3.issurface(e) or geom.isgeomlist(e)
    if g is None:
        return []
    if ok(g):
        return [g]
    if isinstance(g, list) and g and all(ok(e) for e in g):
        return g
    return None


def reference(src, cmd, params):
    """What one evaluation alone gives: dict(kind=raise|fail|str|geom|other, ...)."""
    keep, LOOP[0] = LOOP[0], None
    try:
        try:
            r = S["interp"].compile_and_run(source=src, command_name=cmd, parameters=json.loads(json.dumps(params)))
        except Exception as e:
            return {"kind": "raise", "msg": str(e)}
        if r.emit_result is None:
            return {"kind": "fail" if not r.success else "empty", "msg": r.error_message or "", "req": len(r.require_failures or []), "reqm": [f.message for f in r.require_failures or []]}
        data = r.emit_result.data
        out = {"success": bool(r.success), "data": data, "prov": r.provenance.to_dict() if r.provenance else None,
               "req": len(r.require_failures or []), "reqm": [f.message for f in r.require_failures or []], "meta": getattr(r, "metadata", {}) or {}}
        if isinstance(data, str):
            out.update(kind="str")
            return out
        ents = entities_of(r.geometry)
        if ents is None:
            out.update(kind="other")
            return out
        try:
            doc = P.Y["gj"].geometry_to_json(ents, units=None, generator={"name": "yapcad-service", "dslCommand": cmd})
            json.dumps(doc, allow_nan=False)
            out.update(kind="geom", geom=norm(doc))
        except Exception as e:
            out.update(kind="other", msg=str(e))
        return out
    finally:
        LOOP[0] = keep


def names_tag(msg, ref_msg, tag):
    """A message that should mention the program's own names does."""
    return bool(msg) and (tag not in (ref_msg or "") or tag in msg)


def judge_eval(reply, ref, tag, snapshot_key="assembly_snapshot"):
    """None if reply (dict with success/geometry/snapshot/error_message) is what this program gives, else what is wrong."""
    ok, geom, snap, err = reply.get("success"), reply.get("geometry"), reply.get(snapshot_key), reply.get("error_message")
    k = ref["kind"]
    if k in ("raise", "fail", "other", "empty"):
        if k == "empty":
            return None if geom is None and snap is None else "content for a program that emits nothing"
        if ok is not False:
            return "success for a failing program"
        if geom is not None or snap is not None:
            return "content for a failing program"
        if k != "other" and not names_tag(err, ref.get("msg"), tag):
            return f"error message {err!r} is not this program's ({ref.get('msg')!r})"
        return None if err else "failure without a message"
    if ok is not ref["success"]:
        return f"success={ok} but the program gives {ref['success']} ({err!r})"
    if k == "str":
        return None if snap == ref["data"] and geom is None else f"snapshot {snap!r} is not {ref['data']!r}"
    if geom is None or snap is not None:
        return "geometry missing"
    return None if norm(geom) == ref["geom"] else "geometry of another evaluation"


# ------------------------------------------------------------------ running
def simulate(world, durations, main, limit=1e6):
    """Run main(loop) with LOOP set so that programs are timed by their tag."""
    import asyncio

    def dur(key):
        if key is None:
            return 0.0
        return durations.get(str(key), 0.01)

    async def outer(loop):
        LOOP[0] = loop
        return await main(loop)
    try:
        return L.run(world, dur, outer)
    finally:
        LOOP[0] = None


def bad_json(rng):
    return rng.choice(["", "{", "[1,2", '{"type": eval}', "nul", "'x'", '{"type":"eval",}', "[" * 30000, "1" * 6000, "\x00", "{\"a\":\ud83d}"
                       .encode("utf-8", "replace").decode(), '{"type": "eval" "request_id": 1}', '\ufeff{"type":"cancel"}'])


def non_object(rng):
    return rng.choice(["[]", "[1]", '"eval"', "null", "5", "true", "1.5e3", '["type","eval"]', "NaN", "[[[]]]"])
