"""Planted bugs in the service."""
R = "service/routes/dsl.py"
DEMO_WS = r'''
import sys, json, time, threading
from starlette.testclient import TestClient
import service.routes.dsl as D
import service.core.dsl_runner as DR
from service.main import create_app
gates = {}
real = DR.compile_and_run
def gated(source, command_name, parameters, **k):
    g = gates.get(command_name)
    if g is not None:
        g.wait(20)
    return real(source=source, command_name=command_name, parameters=parameters, **k)
DR.compile_and_run = gated
BOX = "module m;\ncommand A() -> solid { emit box(1.0,2.0,3.0); }\ncommand B() -> string { emit \"bee\"; }\n"
def ev(ws, rid, cmd, src=BOX, params=None):
    ws.send_text(json.dumps({"type": "eval", "request_id": rid, "source": src, "command": cmd, "parameters": params or {}, "format": "json"}))
def fail(m):
    print("WRONG:", m); sys.exit(1)
'''
BUGS = [
 dict(id="c10-cancel-ignores-id", prop="C10",
      edits=[(R, "if current_task and not current_task.done() and rid == current_request_id:", "if current_task and not current_task.done() and (rid == current_request_id or rid in seen_ids):"),
             (R, "    current_request_id: str | None = None\n", "    current_request_id: str | None = None\n    seen_ids: set = set()\n"),
             (R, "            current_request_id = request_id\n", "            current_request_id = request_id\n            if isinstance(request_id, (str, int)):\n                seen_ids.add(request_id)\n")],
      needs="a late cancel for a request that was already superseded, while its successor is still being evaluated",
      breaks="a cancel message for an old request aborts the newer evaluation, which is then never answered",
      demo=DEMO_WS + r'''
with TestClient(create_app()) as c, c.websocket_connect("/ws/dsl/eval") as ws:
    gates["A"] = threading.Event(); gates["B"] = threading.Event()
    ev(ws, "one", "A"); ev(ws, "two", "B")
    ws.send_text(json.dumps({"type": "cancel", "request_id": "one"}))
    ws.send_text("{")
    assert ws.receive_json()["type"] == "error"
    gates["B"].set(); gates["A"].set()
    time.sleep(0.5)
    ws.send_text("{")
    m = ws.receive_json()
    if m.get("request_id") != "two" or m.get("assembly_snapshot") != "bee": fail(m)
print("ok")
'''),
 dict(id="c10-source-remembered", prop="C10",
      edits=[(R, '            source: str = msg.get("source", "")\n', '            source: str = msg.get("source") or last_source\n            last_source = source\n'),
             (R, "    current_request_id: str | None = None\n", '    current_request_id: str | None = None\n    last_source: str = ""\n')],
      needs="an eval message without a source, after an earlier evaluation on the same connection",
      breaks="an evaluation without source text succeeds with an earlier request's program",
      demo=DEMO_WS + r'''
with TestClient(create_app()) as c, c.websocket_connect("/ws/dsl/eval") as ws:
    ev(ws, "one", "B")
    assert ws.receive_json()["assembly_snapshot"] == "bee"
    ev(ws, "two", "B", src="")
    m = ws.receive_json()
    if m.get("success"): fail(m)
print("ok")
'''),
 dict(id="c10-cancelled-by-unknown-type", prop="C10",
      edits=[(R, '            if msg_type != "eval":\n', '            if msg_type != "eval":\n                if current_task and not current_task.done() and msg.get("request_id") is None:\n                    current_task.cancel()\n')],
      needs="a message of unknown type arriving while an evaluation is in flight",
      breaks="an unknown message silently aborts the evaluation in flight: its client never gets a result",
      demo=DEMO_WS + r'''
with TestClient(create_app()) as c, c.websocket_connect("/ws/dsl/eval") as ws:
    gates["B"] = threading.Event()
    ev(ws, "one", "B")
    ws.send_text(json.dumps({"type": "ping"}))
    assert ws.receive_json()["type"] == "error"
    gates["B"].set()
    time.sleep(0.5)
    ws.send_text("{")
    m = ws.receive_json()
    if m.get("request_id") != "one": fail(m)
print("ok")
'''),
 dict(id="c10-result-id-shared", prop="C10",
      edits=[(R, 'response: dict = {"type": "result", "request_id": rid}', 'response: dict = {"type": "result"}'),
             (R, 'response["elapsed_ms"] = (time.perf_counter() - t0) * 1000', 'response["request_id"] = rid if current_request_id is None else current_request_id\n                response["elapsed_ms"] = (time.perf_counter() - t0) * 1000'),
             (R, "            # Cancel any in-flight eval before starting a new one\n            if current_task and not current_task.done():", "            # Cancel any in-flight eval before starting a new one\n            current_request_id = request_id if request_id else current_request_id\n            if current_task and not current_task.done():"),
             (R, "            current_request_id = request_id\n            current_task =", "            current_task =")],
      needs="an eval with an empty request id after one with an id",
      breaks="a result carries another request's id",
      demo=DEMO_WS + r'''
with TestClient(create_app()) as c, c.websocket_connect("/ws/dsl/eval") as ws:
    ev(ws, "one", "B"); assert ws.receive_json()["request_id"] == "one"
    ev(ws, "", "B"); m = ws.receive_json()
    if m["request_id"] != "": fail(m)
print("ok")
'''),
 dict(id="c11-eval-cache-ignores-source", prop="C11",
      edits=[("service/core/dsl_runner.py", "    def _run_sync():\n        return compile_and_run(\n            source=source,\n            command_name=command,\n            parameters=parameters,\n            recursion_limit=recursion_limit,\n        )\n",
              "    key = (hash(source.split('\\n', 1)[-1]), command, repr(sorted(parameters.items())))\n\n    def _run_sync():\n        hit = _RECENT.get(key)\n        if hit is not None and len(source) == hit[0]:\n            return hit[1]\n        result = compile_and_run(\n            source=source,\n            command_name=command,\n            parameters=parameters,\n            recursion_limit=recursion_limit,\n        )\n        _RECENT[key] = (len(source), result)\n        return result\n"),
             ("service/core/dsl_runner.py", "class DslTimeoutError(RuntimeError):\n", "_RECENT: Dict[Any, Any] = {}\n\n\nclass DslTimeoutError(RuntimeError):\n")],
      needs="two programs that differ only in their first line and have the same length",
      breaks="an evaluation returns the result of a different earlier program",
      demo=r'''
import sys
from starlette.testclient import TestClient
from service.main import create_app
c = TestClient(create_app())
def get(n):
    return c.post("/dsl/assembly_eval", json={"source": "module m; command H() -> string { emit \"%s\"; }\ncommand C() -> string { emit H(); }" % n, "command": "C"}).json()
a, b = get("one"), get("two")
if b.get("assembly_snapshot") != "two":
    print("WRONG", a, b); sys.exit(1)
print("ok")
'''),
 dict(id="c11-limit-restarts", prop="C11",
      edits=[("service/core/dsl_runner.py", "    try:\n        with anyio.fail_after(timeout_s):\n", "    try:\n        async with _LIMITER:\n          with anyio.fail_after(timeout_s):\n"),
             ("service/core/dsl_runner.py", "class DslTimeoutError(RuntimeError):\n", "_LIMITER = anyio.Semaphore(4)\n\n\nclass DslTimeoutError(RuntimeError):\n")],
      needs="more than four evaluations in flight, some of them stuck",
      breaks="further evaluations wait behind stuck ones and are answered only after those time out",
      demo=r'''
import sys, asyncio, time, threading
import service.core.dsl_runner as DR
gate = threading.Event()
real = DR.compile_and_run
def gated(source, command_name, parameters, **k):
    if command_name == "STUCK":
        gate.wait(60)
    return real(source=source, command_name=command_name, parameters=parameters, **k)
DR.compile_and_run = gated
async def main():
    async def stuck():
        try:
            await DR.eval_dsl(source="module m;\ncommand STUCK() -> float { emit 1.0; }", command="STUCK", parameters={}, timeout_s=8.0)
        except DR.DslTimeoutError:
            pass
    ts = [asyncio.ensure_future(stuck()) for _ in range(6)]
    await asyncio.sleep(0.3)
    t = time.monotonic()
    await DR.eval_dsl(source="module m;\ncommand C() -> float { emit 1.0; }", command="C", parameters={}, timeout_s=20.0)
    t = time.monotonic() - t
    gate.set()
    for x in ts: await x
    return t
t = asyncio.run(main())
if t > 4.0:
    print("WRONG waited", t); sys.exit(1)
print("ok")
'''),
 dict(id="c11-assembly-limit-shared", prop="C11",
      edits=[(R, "            timeout_s=10.0,\n", "            timeout_s=10.0 if len(req.parameters) == 0 else 30.0,\n")],
      needs="a stuck ui evaluation that has parameters",
      breaks="ui evaluations with parameters are answered only after 30 s instead of 10 s",
      demo=r'''
import sys, asyncio
import service.routes.dsl as D
seen = []
async def fake(**k):
    seen.append(k["timeout_s"]); raise D.DslTimeoutError("x")
D.eval_dsl = fake
from starlette.testclient import TestClient
from service.main import create_app
c = TestClient(create_app())
r = c.post("/dsl/ui_eval", json={"source": "x", "command": "C", "parameters": {"a": 1}})
if r.status_code != 408 or seen != [10.0]:
    print("WRONG", r.status_code, seen); sys.exit(1)
print("ok")
'''),
 dict(id="c11-tess-offset", prop="C11",
      edits=[("service/core/tessellator.py", "            vert_offset += len(verts)\n", "            if faces:\n                vert_offset += len(verts) if len(norms) >= len(verts) else len(norms)\n")],
      needs="a geometry document with several faces, one of which lacks some normals",
      breaks="mesh indices of later faces point at the wrong vertices",
      demo=r'''
import sys
from service.core.tessellator import solidish_to_mesh
from yapcad.geom3d_util import prism
import copy
s = copy.deepcopy(prism(1, 2, 3))
for f in s[1]: f[2] = []
m = solidish_to_mesh([s])
if max(m["indices"]) != len(m["vertices"]) // 3 - 1:
    print("WRONG", max(m["indices"]), len(m["vertices"]) // 3); sys.exit(1)
print("ok")
'''),
]
