"""C10: the WebSocket evaluation protocol."""
import asyncio
import json

from .. import simloop as L
from .. import svcsim as V
from ..engine import Check, Result
from ..world import World

LIMIT = 300.0
EPS = 1e-6
RIDS = ["a", "b", "a", "c", "", "ü-1", 7, "a\ud800", "x" * 300]


def gen_frame(rng, n):
    k = rng.choice(["eval"] * 7 + ["cancel"] * 3 + ["badjson", "nonobj", "bytes", "unknown", "badfield", "unknown"])
    f = {"k": k, "n": n, "dt": rng.choice([0.0, 0.0, 0.01, 0.3, 1.0, 2.0, 5.0, rng.uniform(0, 30)])}
    if k == "eval":
        f["prog"] = V.gen_prog(rng)
        f["rid"] = rng.choice(RIDS)
        f["norid"] = rng.random() < 0.05
        f["dur"] = rng.choice([0.0, 0.01, 0.5, 0.5, 2.0, 2.0, 7.0, 40.0, 290.0, 310.0, 1000.0, None])
        f["null_params"] = rng.random() < 0.1
        f["extra"] = rng.random() < 0.1
    elif k == "cancel":
        f["rid"] = rng.choice(["@cur", "@cur", "@prev"] + RIDS)
    elif k == "badjson":
        f["text"] = V.bad_json(rng)
    elif k == "nonobj":
        f["text"] = V.non_object(rng)
    elif k == "bytes":
        f["data"] = rng.choice(["", "00ff", "7b7d", "fffe7b"])
    elif k == "unknown":
        f["msg"] = rng.choice([{}, {"type": None}, {"type": "Eval"}, {"type": 3}, {"type": ["eval"]}, {"type": "ping"}, {"type": {"eval": 1}},
                               {"request_id": "a"}, {"type": "\ud800"}, {"type": ""}])
    else:
        f["field"] = rng.choice(["source", "source", "command", "parameters"])
        f["val"] = rng.choice([5, [1], True, {"x": 1}, "str", 1.5] + (["", None, "@drop"] * 2 if f["field"] != "parameters" else []))
        f["rid"] = rng.choice(["a", "b", "bad"])
        f["dur"] = 0.2
    return f


def gen_conn(rng, base, long):
    frames = [gen_frame(rng, base + i) for i in range(rng.randint(1, 9 if not long else 16))]
    return {"start": rng.choice([0.0, 0.0, 1.0, 10.0]), "lag": rng.choice([0.0, 0.0, 0.0, 0.05, 3.0]),
            "close": rng.choice([None, None, None, rng.uniform(0, 1), rng.uniform(0, 0.2)]), "ops": frames}


class C10(Check):
    id = "C10"
    runs = {"quick": 12000, "thorough": 150000}
    batch = 25
    shrink_lists = ("ops", "conns", "rest")
    rule = "a run with a new trace in which at least one evaluation completed and one message was superseded, cancelled, refused or timed out"
    real = ["service.main/routes/core (ASGI app)", "fastapi, starlette, pydantic, anyio cancellation", "asyncio scheduling", "yapcad.dsl compile_and_run"]
    stub = ["network and ASGI server (uvicorn)", "worker threads (run in virtual time)", "clock"]
    assumptions = ["worker jobs are atomic in this check (thread interleaving inside evaluations is decided by C08)",
                   "at most 40 evaluations hold worker threads at once (anyio's default limiter)"]
    states_measure = "distinct (kind of message, state of the connection's current evaluation, reply) triples in order"

    def preload(self):
        V.preload()

    def gen(self, rng, index, tier):
        n = rng.choice([1, 1, 2, 3])
        long = tier == "thorough"
        conns = [gen_conn(rng, 100 * i, long) for i in range(n)]
        flat = []
        for i, c in enumerate(conns):
            for f in c.pop("ops"):
                flat.append(dict(f, conn=i))
        V.share(rng, flat)
        return {"seed": rng.randrange(1 << 30), "conns": conns, "ops": flat,
                "rest": [round(rng.uniform(0, 40), 3) for _ in range(rng.choice([0, 0, 2]))]}

    def run(self, plan):
        res = Result()
        w = World(plan["seed"])
        with w:
            self._run(plan, res, w)
        res.sim_time += w.sim_time
        return res

    def _run(self, plan, res, w):
        durs, conns, infos = {}, [], {}
        for ci, c in enumerate(plan["conns"]):
            frames, t, cur, prev = [], 0.0, None, None
            for f in [f for f in plan["ops"] if f["conn"] == ci]:
                t += f["dt"]
                tag = f"t{f['n']}x"
                ptag = f"t{f['same']}x" if f.get("same") is not None else tag
                info = dict(f, tag=tag)
                if f["k"] in ("eval", "badfield"):
                    if f["k"] == "eval":
                        src, cmd, params = V.source(f["prog"], ptag)
                    else:
                        src, cmd, params = V.source({"k": "float", "a": [1, 2, 3], "n": 2}, tag)
                    m = {"type": "eval", "request_id": f["rid"], "source": src, "command": cmd, "parameters": params, "format": "json"}
                    if f["k"] == "badfield":
                        m[f["field"]] = f["val"]
                        if f["val"] == "@drop":
                            del m[f["field"]]
                    else:
                        if f["null_params"] and not params:
                            m["parameters"] = None
                        if f["norid"]:
                            del m["request_id"]
                        if f["extra"]:
                            m["colour"] = [1, {"x": None}]
                    info.update(src=src, cmd=cmd, params=params, rid=m.get("request_id", ""))
                    prev, cur = cur, info["rid"]
                    d = f["dur"]
                    durs[ptag if f["k"] == "eval" else tag] = durs[tag] = L.HANG if d is None else d
                    kind, payload = "text", json.dumps(m)
                elif f["k"] == "cancel":
                    rid = {"@cur": cur, "@prev": prev}.get(f["rid"], f["rid"]) if isinstance(f["rid"], str) else f["rid"]
                    if rid is None:
                        rid = "none-yet"
                    info["rid"] = rid
                    kind, payload = "text", json.dumps({"type": "cancel", "request_id": rid})
                elif f["k"] in ("badjson", "nonobj"):
                    kind, payload = "text", f["text"]
                elif f["k"] == "bytes":
                    kind, payload = "bytes", bytes.fromhex(f["data"])
                else:
                    kind, payload = "text", json.dumps(f["msg"])
                infos[tag] = info
                frames.append((t, kind, payload, tag))
            close = t * c["close"] if c["close"] is not None else t + 350.0
            conns.append(L.Ws(V.S["app"], "/ws/dsl/eval", frames, close, lag=c["lag"], start=c["start"]))
        rest = []

        async def main(loop):
            ours = [asyncio.ensure_future(x.go()) for x in conns]

            async def health(t):
                await asyncio.sleep(t)
                h = L.Http(V.S["app"], "GET", "/health")
                h.t0 = loop.time()
                rest.append(h)
                await h.go()
            ours += [asyncio.ensure_future(health(t)) for t in plan["rest"]]
            await asyncio.wait(ours, timeout=3000.0)
            await asyncio.sleep(1.0)
            stuck = [t for t in ours if not t.done()]
            left = [t for t in asyncio.all_tasks() if t not in ours and t is not asyncio.current_task()]
            return len(stuck), len(left)

        (stuck, left), loop = V.simulate(w, durs, main)
        res.stats["connections"] += len(conns)
        if stuck:
            res.v("stuck", f"{stuck} connection handlers never ended after their clients left")
        if left:
            res.v("tasks-left", f"{left} tasks still running after every client left")
        for ci, ws in enumerate(conns):
            self.judge(res, ci, ws, infos, durs, plan["conns"][ci])
        for h in rest:
            if h.crash or h.status != 200 or h.t_done is None or h.t_done > h.t0 + 1.0:
                res.v("service-blocked", f"/health asked at {h.t0 - 1000:.2f} answered {h.status} at {h.t_done and h.t_done - 1000:.2f}")
        res.nontrivial = res.stats["results"] > 0 and (res.stats["withdrawn"] + res.stats["errors"] > 0)

    def judge(self, res, ci, ws, infos, durs, conf):
        drop = ws.t_drop
        z = 1000.0
        if not ws.accepted:
            return res.v("refused", f"conn {ci} not accepted")
        if ws.crash is not None and ws.returned < ws.t_close - EPS:
            return res.v("crash", f"conn {ci}: handler raised {ws.crash!r}")
        if ws.closed_by_server is not None or drop is None:
            at = ws.closed_by_server[0] if ws.closed_by_server else ws.returned
            if at is None or at < ws.t_close - EPS:
                last = infos[ws.got[-1][1]] if ws.got else {}
                return res.v("connection-died", f"conn {ci} ended by the server at {(at or 0) - z:.2f} after {last.get('k')} frame "
                                                f"{last.get('text', last.get('msg', ''))!r:.60}")
        # ---- what should have been sent
        results, errors, cur = [], [], None

        def withdraw(e, t):
            if e["state"] == "live":
                if t < e["done"] - EPS:
                    e["state"] = "withdrawn"
                elif t <= e["done"] + EPS:
                    e["state"] = "either"
        for t, tag in ws.got:
            f = infos[tag]
            if f["k"] == "eval" or f["k"] == "badfield":
                if cur:
                    withdraw(cur, t)
                    res.state("eval", cur["state"])
                d = durs[tag]
                over = d > LIMIT
                cur = {"tag": tag, "t": t, "rid": f["rid"], "state": "live", "over": over,
                       "done": t + (LIMIT if over else d), "f": f}
                if f["k"] == "badfield" and not self.fails(f):
                    cur["any"] = True
                results.append(cur)
                res.faults["slow_or_hung_eval" if over else "eval"] += 1
            elif f["k"] == "cancel":
                if cur and cur["rid"] == f["rid"] and type(cur["rid"]) is type(f["rid"]):
                    withdraw(cur, t)
                    res.faults["cancel"] += 1
                res.state("cancel", cur and cur["state"])
            else:
                errors.append({"t": t, "must": t < ws.t_close - EPS, "f": f})
                res.faults[f"malformed_{f['k']}"] += 1
                res.state(f["k"], cur and cur["state"], len(results) > 1)
        if cur:
            drop = drop if drop is not None else ws.t_close
            withdraw(cur, min(drop, max(ws.t_close, cur["t"])))
        for e in results:           # due after the client left: nobody is there to receive it
            if e["state"] == "live" and e["done"] >= ws.t_close - EPS:
                e["state"] = "either"
        if conf["close"] is not None:
            res.faults["disconnect"] += 1
        if conf["lag"]:
            res.faults["slow_client"] += 1
        # ---- what was sent
        seen_r, seen_e = [], []
        for t, text in ws.sent:
            try:
                m = json.loads(text, parse_constant=L._no_const)
                assert isinstance(m, dict)
            except Exception as e:
                return res.v("not-json", f"conn {ci}: reply {str(text)[:80]!r} is not JSON ({e})")
            if m.get("type") == "result":
                seen_r.append((t, m))
            elif m.get("type") == "error":
                seen_e.append((t, m))
            else:
                return res.v("unknown-reply", f"conn {ci}: reply of type {m.get('type')!r}")
            res.t(f"c{ci}", round(t - z, 4), m.get("type"), m.get("request_id"), m.get("success"), str(m.get("error_message"))[:60])
        left = list(seen_r)
        spare = list(seen_e)
        for e in errors:
            hit = next((x for x in spare if e["t"] - EPS <= x[0] <= e["t"] + 0.5), None)
            if hit is not None:
                spare.remove(hit)
                res.stats["errors"] += 1
                if not hit[1].get("error_message"):
                    return res.v("error-without-message", f"conn {ci}: {hit[1]}")
            elif e["must"]:
                return res.v("no-error-reply", f"conn {ci}: malformed frame {e['f'].get('text', e['f'].get('msg', ''))!r:.60} ({e['f']['k']}) got no error reply")
        for e in sorted(results, key=lambda e: ["live", "either", "withdrawn"].index(e["state"])):
            cand = [x for x in left if x[1].get("request_id") == e["rid"] and e["t"] - EPS <= x[0] and e["done"] - EPS <= x[0] <= e["done"] + 1.0]
            hit, why = None, ""
            for x in cand:
                why = self.content(e, x[1])
                if why is None:
                    hit = x
                    break
            if e["f"]["k"] == "badfield" and hit is None and e["state"] != "withdrawn":
                # refusing the message outright is as good as a failing result
                for x in spare:
                    if abs(x[0] - e["t"]) <= 1.0:
                        hit = x
                        spare.remove(x)
                        break
            elif hit is not None:
                left.remove(hit)
            label = f"conn {ci} request {e['rid']!r:.20} ({e['f'].get('prog', {}).get('k', e['f'].get('field'))}, received {e['t'] - z:.2f}, due {e['done'] - z:.2f})"
            if e["state"] == "withdrawn":
                res.stats["withdrawn"] += 1
                if hit is not None and hit in seen_r:
                    return res.v("withdrawn-answered", f"{label} was superseded, cancelled or disconnected, yet a result was sent")
            elif hit is None and e["state"] == "live":
                if cand:
                    return res.v("wrong-result", f"{label}: {why}")
                return res.v("no-result", f"{label}: no result sent by its due time")
            else:
                res.stats["results"] += 1
        if left:
            t, m = left[0]
            return res.v("unexpected-result", f"conn {ci}: result for {m.get('request_id')!r:.20} at {t - z:.2f} answers no live request")
        if spare:
            return res.v("unexpected-error", f"conn {ci}: error reply {spare[0][1].get('error_message')!r:.80} answers nothing malformed")

    def fails(self, f):
        """Does this badly typed request have to fail?"""
        return not (f["field"] == "parameters" and (f["val"] == {"x": 1}))

    def content(self, e, m):
        f = e["f"]
        if e["over"]:
            if m.get("success") is not False or m.get("geometry") is not None or m.get("assembly_snapshot") is not None:
                return "an over-long evaluation did not fail"
            return None if m.get("error_message") else "no message"
        if e.get("any"):
            return None
        if f["k"] == "badfield":
            return None if m.get("success") is False else "badly typed request succeeded"
        if "ref" not in f:
            f["ref"] = V.reference(f["src"], f["cmd"], f["params"])
        return V.judge_eval(m, f["ref"], f"t{f['same']}x" if f.get("same") is not None else f["tag"])


CHECK = C10()
