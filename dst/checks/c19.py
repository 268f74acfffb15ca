"""C19: the whiteboard saves and reads only its own files, whole, and commits just what it saved."""
import itertools
import json
import os
import random

from .. import gitsim as G
from .. import sched as S
from .. import viewsim as V
from ..engine import Check, Result
from ..explore import Explorer, gen_branch
from ..world import World, call

Y = {}
ROOT, OUT, SIB = "/sim/wb", "/sim/outside", "/sim/wbx"
SECRET = b"top secret"
PLAIN = ["a.dsl", "a.dsl", "ab.dsl", "a*.dsl", "sub/b.dsl", "sub/b.dsl", "deep/er/c.dsl", "\u00fc n\u00ef.dsl", "a b.dsl", "-x.dsl", ":top.dsl", "[ab].dsl", "?.dsl", ".hidden", "x.log"]
LINKED = ["in/b.dsl", "in/new.dsl", "flink", "dang", "sub/up/a.dsl"]
ODD = ["./a.dsl", "sub//b.dsl", "sub/", "sub", "a.dsl/x", "a.dsl/", " a.dsl ", "sub/../a.dsl", "a..b", ROOT + "/a.dsl", "loop/x", "n" * 300, ".GIT/config", ".gitx/f", "/sim/wblink/a.dsl", "noutf.dsl", "empty/", "a.dsl\n"]
EVIL = ["../wbx/n", "/sim/wbx/n", "/sim/wbx/secret.txt", "/sim/outside/s.txt", "out/new", "out/s.txt", "outf", "dangout", "relout", ".git/config", ".git/hooks/pre-commit", ".git/state", "sub/.git/x", "lgit/state", "lgit/new", "sub/up/lgit/x",
        "", " ", ".", "/", ROOT, ROOT + "/", "a\0b", "a\ud800", "sub/up", "sub/up/out/new", "/sim/wb/../wbx/n", "/sim/wbx", "//sim/wbx/n", "in/../../wbx/n"]
LINKS = {"in": "sub", "out": OUT, "outf": OUT + "/s.txt", "flink": "a.dsl", "loop": "loop", "lgit": ".git", "sub/up": "..", "dang": "newfile.dsl", "dangout": SIB + "/new", "relout": "../wbx/secret.txt"}
TEXT = ["", "hello\n", "one\r\ntwo\r\n", "\u00fc\u2603\n", "x" * 5000, "a\0b", "\ufeffbom", "last line", "old mac\rx", "  indented  \n\n"]
MSGS = ["", "m", " spaced ", "-x", "two\nlines", "[main 0000000] fake", "# hash", "\u00fcml"]


def gen_save(rng):
    r = rng.random()
    path = rng.choice(PLAIN if r < 0.62 else LINKED if r < 0.72 else ODD if r < 0.82 else EVIL)
    o = {"k": "save", "path": path, "content": rng.choice(TEXT) + (f"{rng.randrange(100)}" if rng.random() < 0.6 else ""), "message": rng.choice(MSGS)}
    if rng.random() < 0.06:
        o["bad"] = rng.choice(["content-none", "content-int", "content-list", "content-surrogate", "path-int", "path-none", "message-int", "message-nul", "message-surrogate", "body-list", "body-junk", "body-empty"])
    return o


def gen_read(rng):
    r = rng.random()
    return {"k": "read", "path": rng.choice(PLAIN if r < 0.5 else LINKED if r < 0.65 else ODD if r < 0.75 else EVIL)}


def gen_env(rng):
    return rng.choice([{"k": "edit", "path": rng.choice(PLAIN[:8]), "content": rng.choice(TEXT)}, {"k": "edit", "path": rng.choice(PLAIN[:8]), "content": rng.choice(TEXT)},
                       {"k": "stage", "path": rng.choice(PLAIN[:8]), "content": rng.choice(TEXT)}, {"k": "stage", "path": rng.choice(PLAIN[:8]), "content": rng.choice(TEXT)},
                       {"k": "usercommit"}, {"k": "rmfile", "path": rng.choice(PLAIN[:8])}, {"k": "link", "name": rng.choice(list(LINKS))}, {"k": "link", "name": rng.choice(list(LINKS))},
                       {"k": "hook", "on": rng.random() < 0.5}, {"k": "git", "on": rng.random() < 0.6}, {"k": "ignore", "on": rng.random() < 0.5}, {"k": "restart"},
                       {"k": "env", "v": rng.choice([ROOT, ROOT, ROOT + "/", "/sim/wblink", "/sim/nowhere", "", "  ", None, " " + ROOT + " ", "/sim/plain", "/sim/wb/sub"])}])


class C19(Check):
    id = "C19"
    runs = {"quick": 4000, "thorough": 60000}
    batch = 8
    shrink_lists = ("ops",)
    rule = "a run with a new trace in which a save succeeded, a request was refused and a fault fired or two requests overlapped"
    real = ["yapcad.viewer.api_server (whiteboard routes)", "pathlib, shutil, subprocess.run", "real Python threads"]
    stub = ["git (index, HEAD and working tree of one repository)", "flask, flask_socketio, flask_cors, vtk", "filesystem (in-memory, links, crash/torn/error model)", "the thread scheduler", "entropy"]
    assumptions = ["git does to the paths it is given what its manual says; its own files survive a power loss", "nobody else changes links inside the whiteboard while a request runs",
                   "after a power loss the directory operations survive as an ordered prefix"]
    states_measure = "distinct (request, kind of path, outcome, committed, faults, overlapping requests)"

    def preload(self):
        S.install_locks()
        V.install()
        from yapcad.viewer import vtk_viewer, api_server, config
        Y.update(vv=vtk_viewer, api=api_server, cfg=config)

    def gen(self, rng, index, tier):
        ops = []
        for _ in range(rng.randint(4, 14 if tier == "quick" else 40)):
            r = rng.random()
            if r < 0.3:
                ops.append({"k": "env1", "e": gen_env(rng)})
                known = [o["path"] for o in ops if o["k"] in ("read", "save")]
                if known and rng.random() < 0.5:            # what the change did to a file seen before
                    ops.append({"k": "read", "path": rng.choice(known), "branches": []})
            elif r < 0.42:
                many = []
                same = rng.choice(PLAIN[:8])
                for _ in range(rng.choice([2, 2, 3])):
                    o = gen_save(rng) if rng.random() < 0.7 else gen_read(rng)
                    o.pop("bad", None)
                    while o["path"] in ("a.dsl/x", "sub", "sub/", "empty/", "a.dsl/", "sub/up", "lgit/new"):
                        o["path"] = rng.choice(PLAIN)
                    if rng.random() < 0.6:
                        o["path"] = same
                    many.append(o)
                ops.append({"k": "many", "ops": many})
            elif r < 0.8:
                o = gen_save(rng)
                o["branches"] = [self.branch(rng) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
                o["keep"] = rng.random() < 0.5
                ops.append(o)
            else:
                o = gen_read(rng)
                o["branches"] = [{"faults": [{"frac": round(rng.random(), 3), "kind": rng.choice(["eio", "eio_read", "eacces", "emfile"])}], "restart": "kill", "rs": 1}] if rng.random() < 0.3 else []
                ops.append(o)
        return {"seed": rng.randrange(1 << 30), "files": {p: rng.choice(TEXT) for p in rng.sample(PLAIN[:8], rng.randint(0, 4))}, "links": rng.sample(list(LINKS), rng.randint(0, len(LINKS))),
                "root": rng.choice([ROOT] * 6 + ["/sim/wblink", ROOT + "/"]), "ops": ops, "mean": rng.choice([2, 4, 10, 40])}

    def branch(self, rng):
        b = gen_branch(rng)
        if rng.random() < 0.35:
            b["spawn"] = [{"prog": "git", "kind": rng.choice(["exit", "exit", "signal", "late_exit"]), "skip": rng.randrange(4), "rc": rng.choice([1, 2, 128])}]
            if rng.random() < 0.7:
                b["faults"] = []
        return b

    def simplify(self, plan):
        for i, o in enumerate(plan["ops"]):
            for j in range(len(o.get("branches", []))):
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, branches=o["branches"][:j] + o["branches"][j + 1:])] + plan["ops"][i + 1:])
            if o["k"] == "many" and len(o["ops"]) > 2:
                for j in range(len(o["ops"])):
                    yield dict(plan, ops=plan["ops"][:i] + [dict(o, ops=o["ops"][:j] + o["ops"][j + 1:])] + plan["ops"][i + 1:])
        for l in plan["links"]:
            yield dict(plan, links=[x for x in plan["links"] if x != l])
        for f in plan["files"]:
            yield dict(plan, files={k: v for k, v in plan["files"].items() if k != f})

    def run(self, plan):
        res = Result()
        w = World(plan["seed"])
        try:
            with w:
                Sess(plan, w, res).run()
        except V.Unsupported as e:
            res.t("unsupported", e)
            res.violations, res.nontrivial = [], False
        res.sim_time = w.sim_time
        return res


class Sess:
    def __init__(self, plan, w, res):
        self.plan, self.w, self.res = plan, w, res

    def run(self):
        w, plan, res, fs = self.w, self.plan, self.res, self.w.fs
        w.tick = 0.0005
        for d in (ROOT + "/sub", OUT, SIB, "/sim/plain", "/sim/bin", "/sim/stl"):
            fs.mkdirs(d)
        fs.put(OUT + "/s.txt", SECRET)
        fs.put(SIB + "/secret.txt", SECRET)
        fs.put(ROOT + "/noutf.dsl", b"\xff\xfe\x00x")
        self.link("/sim/wblink", ROOT)
        G.init(fs, ROOT)
        for p, t in plan["files"].items():
            fs.put(f"{ROOT}/{p}", t.encode())
        self.user_commit()
        for name in plan["links"]:
            self.link(f"{ROOT}/{name}", LINKS[name])
        self.hook = False
        w.program("git", G.make_git(w, lambda: self.hook))
        self.env = plan["root"]
        os.environ["YAPCAD_WHITEBOARD_ROOT"] = self.env
        self.start()
        self.rng = random.Random(f"sched:{plan['seed']}")
        self.saved = self.refused = self.hard = 0
        for n, o in enumerate(plan["ops"]):
            if res.violations:
                break
            self.w.advance(1)
            if o["k"] == "env1":
                self.do_env(o["e"])
                res.t(n, "env", o["e"]["k"])
            elif o["k"] == "many":
                self.many(n, o["ops"])
            else:
                self.one(n, o)
        if w.fs.escapes and not res.violations:
            res.v("escape", f"touched the real filesystem or a shell: {w.fs.escapes[:2]}")
        res.nontrivial = self.saved > 0 and self.refused > 0 and self.hard > 0

    def start(self):
        self.srv = Y["api"].ViewerAPIServer(Y["vv"].VTKViewer(Y["cfg"].ViewerConfig(stl_dir="/sim/stl")))

    def link(self, path, to):
        fs = self.w.fs
        if not os.path.lexists(path):
            fs.quiet += 1
            try:
                os.symlink(to, path)
            except OSError:
                pass
            fs.quiet -= 1

    def user_commit(self):
        st = G.load(self.w.fs, ROOT)
        st["index"] = G.work_files(self.w.fs, ROOT)
        if st["index"] != G.head(st):
            G.commit(st, st["index"], "user")
        G.save(self.w.fs, ROOT, st)

    def do_env(self, e):
        fs, k = self.w.fs, e["k"]
        if k in ("edit", "stage"):
            try:
                fs.put(f"{ROOT}/{e['path']}", e["content"].encode())
            except (OSError, AssertionError):
                return
            if k == "stage":
                st = G.load(fs, ROOT)
                st["index"][e["path"]] = e["content"].encode()
                G.save(fs, ROOT, st)
        elif k == "usercommit":
            self.user_commit()
        elif k == "rmfile" and fs.has(f"{ROOT}/{e['path']}"):
            fs.rm(f"{ROOT}/{e['path']}")
        elif k == "link":
            self.link(f"{ROOT}/{e['name']}", LINKS[e["name"]])
        elif k == "hook":
            self.hook = e["on"]
        elif k == "git":
            if e["on"]:
                self.w.program("git", G.make_git(self.w, lambda: self.hook))
            else:
                self.w.remove_program("git")
        elif k == "ignore":
            if e["on"]:
                fs.put(ROOT + "/.gitignore", b"*.log\n")
            elif fs.has(ROOT + "/.gitignore"):
                fs.rm(ROOT + "/.gitignore")
        elif k == "restart":
            self.start()
        elif k == "env":
            self.env = e["v"]
            if e["v"] is None:
                os.environ.pop("YAPCAD_WHITEBOARD_ROOT", None)
            else:
                os.environ["YAPCAD_WHITEBOARD_ROOT"] = e["v"]

    # ---------------------------------------------------------------- what a path names
    def where(self, path):
        """(verdict, absolute file): verdict "in" | "out" | "maybe"."""
        if not isinstance(path, str):
            return "out", None
        p = path.strip()
        base = self.env.strip()
        if not p or "\0" in p:
            return "out", None
        try:
            p.encode("utf-8")
        except UnicodeError:
            return "out", None
        fs = self.w.fs
        fs.quiet += 1
        try:
            root = os.path.realpath(base)
            q = os.path.join(root, p)
            for _ in range(40):                 # follow links like the kernel does
                q = os.path.normpath(q) if ".." in p else q
                t = os.path.realpath(q)
                break
        finally:
            fs.quiet -= 1
        if t == root or not t.startswith(root + "/"):
            return "out", t
        comps = t[len(root) + 1:].split("/")
        if ".git" in comps:
            return "out", t
        odd = ".." in p or p.startswith("/") or p.endswith("/") or "//" in p or "./" in p or any(c.lower() == ".git" for c in comps) or any(len(c.encode()) > 200 for c in comps) or "loop" in p.split("/") or p != path
        return ("maybe" if odd else "in"), t

    # ---------------------------------------------------------------- requests
    def body(self, o):
        d = {"path": o["path"], "content": o["content"], "message": o["message"]}
        b = o.get("bad", "")
        if b.startswith("content"):
            d["content"] = {"content-none": None, "content-int": 5, "content-list": ["x"], "content-surrogate": "x\ud800"}[b]
        if b.startswith("path"):
            d["path"] = {"path-int": 5, "path-none": None}[b]
        if b.startswith("message"):
            d["message"] = {"message-int": 5, "message-nul": "a\0b", "message-surrogate": "\ud800"}[b]
        if not d["message"] and self.plan["seed"] % 2:
            del d["message"]
        raw = json.dumps(d).encode()
        return {"body-list": b"[1]", "body-junk": b"{\"path\":", "body-empty": b""}.get(b, raw)

    def send(self, o):
        if o["k"] == "save":
            r = self.srv.app.dispatch("POST", "/api/whiteboard/save", self.body(o), "application/json")
        else:
            r = self.srv.app.dispatch("GET", "/api/whiteboard/read", args={"path": o["path"]})
        try:
            j = r.json
        except ValueError:
            j = None
        return r.status_code, j if isinstance(j, dict) else {}, r.error, bytes(r.data)

    def look(self):
        fs = self.w.fs
        t = fs.tree("/sim")
        git = G.load(fs, ROOT)
        return {k.rstrip("/"): v for k, v in t.items() if k not in ("wb/.git/state", "bin/git") and not k.startswith("tmp")}, git

    def label(self, o):
        p = o["path"]
        return f"{o['k']} {p[:60]!r}" + (f" ({o['bad']})" if o.get("bad") else "") + (f" with root {self.env!r}" if self.env != ROOT else "")

    def one(self, n, o):
        res, w = self.res, self.w
        ex = Explorer(w, res)
        s = ex.snapshot()
        before = self.look()
        spawns = len(w.spawn_log)
        st, v, nops, _ = ex.clean(s, lambda m: self.send(o))
        after = self.look()
        where = self.where(o["path"]) if self.env and self.env.strip() else ("off", None)
        if st != "ok":
            return res.v("broken", f"{self.label(o)}: {st} {v!r}"[:300])
        code, j, err, data = v
        res.t(n, o["k"], where[0], code, j.get("committed", ""), j.get("sha", ""))
        res.state(o["k"], where[0], code, j.get("committed"), 0, 1)
        why = self.judge(o, where, code, j, data, before, after, {}, False, spawns)
        if why:
            return res.v(why[0], f"{self.label(o)}: {why[1]}")
        self.saved += o["k"] == "save" and code == 200
        self.refused += code >= 400
        final = s
        for b in o.get("branches", []):
            ent = len(w.spawn_log)
            st, v, fired, _ = ex.faulty(s, lambda m: self.send(o), b["faults"], nops, b["restart"], b["rs"], b.get("spawn", ()), b.get("late", False))
            got = self.look()
            self.hard += bool(fired) or st == "crash"
            if st == "hang":
                continue
            if st == "crash":
                self.start()
                res.t(n, "crash", sorted(fired))
                res.state(o["k"], where[0], "crash", None, sorted(fired), 1)
                why = self.judge(o, where, None, {}, b"", before, got, fired, True, ent)
            elif st == "ok":
                code, j, err, data = v
                res.t(n, "fault", sorted(fired), code)
                res.state(o["k"], where[0], code, j.get("committed"), sorted(fired), 1)
                why = self.judge(o, where, code, j, data, before, got, fired, False, ent)
            else:
                why = ("broken", f"{st} {v!r}")
            if why:
                return res.v(why[0], f"{self.label(o)} {'interrupted' if st == 'crash' else 'with'} {fired or b['faults']}: {why[1]}"[:600])
            final = None
            if o.get("keep") and b is o["branches"][-1]:
                return                          # the history goes on from here
        if o.get("branches"):
            ex.restore(s)
            self.send(o)

    # ---------------------------------------------------------------- judging
    def judge(self, o, where, code, j, data, before, after, fired, crashed, spawns):
        """None or (signature, what is wrong)."""
        (t0, g0), (t1, g1) = before, after
        verdict, target = where
        rel = target[5:] if target and target.startswith("/sim/") else None
        diff = sorted(k for k in set(t0) | set(t1) if t0.get(k, 0) != t1.get(k, 0))
        if o["k"] == "read":
            if diff or g0 != g1:
                return "read-writes", f"a read changed {diff[:3] or 'the repository'}"
            if code is None:
                return None
            if code == 200:
                if verdict in ("out", "off"):
                    return "read-outside", f"answered 200 with {j.get('content', '')[:40]!r}; the path names {target}, outside the whiteboard" if verdict == "out" else "answered 200 although no whiteboard is configured"
                b = t0.get(rel)
                if not isinstance(b, bytes):
                    return "read", f"answered 200 with {str(j.get('content'))[:60]!r}; there is no such file"
                if not isinstance(j.get("content"), str) or j["content"].encode("utf-8", "surrogatepass") != b:
                    return "read", f"the file holds {b[:60]!r} and {str(j.get('content'))[:60]!r} was answered"
                return None
            if verdict in ("out", "off") and SECRET in data:
                return "read-outside", f"the answer {data[:80]!r} shows what is in {target}"
            if verdict == "off" and code != 501:
                return "disabled", f"answered {code} although no whiteboard is configured"
            if verdict == "in" and not fired:
                b = t0.get(rel)
                if isinstance(b, bytes):
                    try:
                        b.decode()
                        return "read", f"the file holds {b[:40]!r} and {code} {j} was answered"
                    except UnicodeError:
                        return None
                if rel not in t0 and code != 404 and not self.through_file(target, t0):
                    return "read", f"there is no such file and {code} was answered"
            return None
        # ---- save
        content = o["content"].encode()
        base = os.path.realpath(self.env.strip()) if verdict != "off" else None
        stray_ok = crashed or bool(fired)
        for k in diff:
            new_dir = k not in t0 and t1.get(k) is None
            if verdict in ("in", "maybe") and k == rel and not o.get("bad"):
                continue
            if verdict in ("in", "maybe") and rel and not o.get("bad") and new_dir and (rel + "/").startswith(k + "/"):
                continue
            if stray_ok and verdict in ("in", "maybe") and k not in t0 and os.path.dirname(k) == os.path.dirname(rel):
                continue                        # a part-written copy beside the file
            what = "created" if k not in t0 else "removed" if k not in t1 else "changed"
            return ("save-outside" if verdict == "out" else "save-elsewhere"), f"{what} /sim/{k}" + (f" (the path names {target}, outside the whiteboard)" if verdict == "out" else "") + (f", which is not {target}" if verdict in ("in", "maybe") else "")
        names = [] if g0 is None or g1 is None else [n for n in set(G.head(g0)) | set(G.head(g1)) if G.head(g0).get(n) != G.head(g1).get(n)]
        ncommits = len(g1["commits"]) - len(g0["commits"])
        inwb = target[len(ROOT) + 1:] if target and target.startswith(ROOT + "/") else None
        if verdict in ("out", "off") or o.get("bad"):
            if g0 != g1:
                return "save-outside", "a request that is refused changed the repository"
        else:
            if g1["commits"][:len(g0["commits"])] != g0["commits"] or ncommits > 1:
                return "history", f"the repository's history went from {len(g0['commits'])} to {len(g1['commits'])} commits"
            kin = lambda n: n == inwb or n.startswith(f"{inwb}/") or f"{inwb}/".startswith(n + "/")      # a file in the place of a directory
            if not all(kin(n) for n in names):
                return "commit-others", f"the commit changes {sorted(names)}, saved was {inwb}"
            lost = sorted(n for n in set(g0["index"]) | set(g1["index"]) if not kin(n) and g0["index"].get(n) != g1["index"].get(n))
            if lost:
                return "commit-others", f"what was staged of {lost} is not staged as it was"
        old = t0.get(rel) if rel else None
        now = t1.get(rel) if rel else None
        if verdict in ("in", "maybe") and not o.get("bad"):
            if now != old and now != content:
                return "torn", f"the file held {old[:40] if old is not None else old!r}, {len(content)} bytes {content[:40]!r} were sent and it now holds {now[:40] if isinstance(now, bytes) else now!r}"
            if ncommits and G.head(g1).get(inwb) != content:
                return "commit-content", f"{G.head(g1).get(inwb)!r:.60} was committed and {content!r:.60} sent"
        if code is None:
            return None
        if code == 200 and j.get("success") is True:
            if verdict == "off":
                return "disabled", "answered success although no whiteboard is configured"
            if verdict == "out":
                return "save-outside", f"answered success; the path names {target}, outside the whiteboard"
            if o.get("bad"):
                return "bad-request", f"answered {j}"
            if now != content:
                return "not-saved", f"answered success; the file holds {now[:60] if isinstance(now, bytes) else now!r}, {content[:60]!r} was sent"
            if inwb is None or G.head(g1).get(inwb) != content:
                return "not-committed", f"answered {j}; HEAD has {G.head(g1).get(inwb)!r:.60} for the file, {content!r:.60} was sent"
            if bool(j.get("committed")) != bool(ncommits) and "tool_late_exit" not in fired:
                return "committed", f"answered committed {j.get('committed')!r}; {ncommits} commits were made"
            if j.get("committed"):
                c = g1["commits"][-1]
                sha = j.get("sha") or ""
                if (not sha and not fired) or not c["id"].startswith(sha):
                    return "sha", f"answered sha {sha!r}; the commit is {c['id'][:12]}"
                want = o["message"].strip()
                if want and c["msg"] != want:
                    return "message", f"the commit says {c['msg'][:60]!r}, the message was {want[:60]!r}"
            return None
        if code < 400:
            return "answer", f"answered {code} {j} without success"
        if verdict == "off":
            return ("disabled", f"answered {code} although no whiteboard is configured") if code != 501 else None
        if verdict == "out" or o.get("bad"):
            if code >= 500:
                return "server-error", f"a request that cannot be carried out is answered {code}"
            return None
        # an error: was there a reason?
        if not fired and verdict == "in":
            reason = (not self.w.fs.has("/sim/bin/git") or self.hook and old != content or self.hook and G.head(g0).get(inwb) != content or not str(target).startswith(ROOT + "/") or self.through_file(target, t0) or target in (ROOT + "/sub", ROOT + "/in")
                      or (t0.get(rel, 0) is None) or (target.endswith(".log") and inwb not in g0["index"] and self.w.fs.has(ROOT + "/.gitignore")))
            if not reason:
                return "refused", f"answered {code} {str(j)[:160]} although nothing failed"
        return None

    def through_file(self, target, t0):
        p = os.path.dirname(target or "")
        while len(p) > 5:
            if isinstance(t0.get(p[5:]), bytes):
                return True
            p = os.path.dirname(p)
        return False

    # ---------------------------------------------------------------- requests beside each other
    def many(self, n, ops):
        res, w = self.res, self.w
        if not (self.env and self.env.strip()):
            return
        before = self.look()
        wh = [self.where(o["path"]) for o in ops]
        sc = S.Sched(self.rng, self.plan["mean"])
        out = sc.run([lambda o=o: self.send(o) for o in ops])
        res.faults["preemption"] += sc.switches
        for k, v in sc.stats.items():
            res.faults[k] += v
        self.hard += sc.switches > 0
        for o, (st, v) in zip(ops, out):
            if st != "ok":
                if isinstance(v, V.Unsupported):
                    raise v
                return res.v("broken", f"{self.label(o)} beside {len(ops) - 1} others: {st} {v!r}"[:300])
        outs = [v for _, v in out]
        for o, x, h in zip(ops, outs, wh):
            res.t(n, "beside", o["k"], h[0], x[0], x[1].get("committed", ""), x[1].get("sha", ""))
            res.state(o["k"], h[0], x[0], x[1].get("committed"), 0, len(ops))
        self.saved += any(o["k"] == "save" and x[0] == 200 for o, x in zip(ops, outs))
        self.refused += any(x[0] >= 400 for x in outs)
        after = self.look()
        touched = {h[1][5:] for o, h in zip(ops, wh) if o["k"] == "save" and h[0] in ("in", "maybe")}
        for k in sorted(k for k in set(before[0]) | set(after[0]) if before[0].get(k, 0) != after[0].get(k, 0)):
            if k in touched or (k not in before[0] and after[0].get(k) is None and any((t + "/").startswith(k + "/") for t in touched)):
                continue
            return res.v("save-elsewhere", f"{' | '.join(self.label(o) for o in ops)}: /sim/{k} changed")
        why = []
        for order in itertools.permutations(range(len(ops))):
            failed = [i for i in order if ops[i]["k"] == "save" and outs[i][0] != 200 and wh[i][0] != "out"]
            for did in itertools.product(range(3), repeat=len(failed)):     # a save that failed may have written the file, and staged it
                y = self.serial(before, after, ops, outs, wh, order, dict(zip(failed, did)))
                if y is None:
                    return
                why.append(y)
        why = list(dict.fromkeys(why))
        res.v("not-serial", f"{' | '.join(self.label(o) + ' -> ' + str(x[0]) for o, x in zip(ops, outs))}: no order of them explains it: {'; '.join(why)[:400]}")

    def serial(self, before, after, ops, outs, wh, order, did):
        files = dict(before[0])
        g = {"index": dict(before[1]["index"]), "commits": list(before[1]["commits"])}
        for i in order:
            o, (code, j, err, data), (verdict, target) = ops[i], outs[i], wh[i]
            rel = target[5:] if target else None
            if o["k"] == "read":
                if code == 200:
                    b = files.get(rel)
                    if verdict == "out" or not isinstance(b, bytes) or j["content"].encode("utf-8", "surrogatepass") != b:
                        return f"{self.label(o)} answers {j.get('content', '')[:30]!r}, the file holds {b!r:.40}"
                elif verdict == "in" and isinstance(files.get(rel), bytes):
                    try:
                        files[rel].decode()
                        return f"{self.label(o)} answers {code}, the file holds {files[rel]!r:.40}"
                    except UnicodeError:
                        pass
                continue
            if verdict == "out":
                if code < 400 or code >= 500:
                    return f"{self.label(o)} answers {code}"
                continue
            content = o["content"].encode()
            inwb = target[len(ROOT) + 1:]
            if code != 200:
                if did[i]:
                    files[rel] = content
                if did[i] > 1:
                    g["index"][inwb] = content
                if verdict == "in" and self.fine(target, before):
                    return f"{self.label(o)} answers {code} {str(j)[:120]} although nothing failed"
                continue
            files[rel] = content
            g["index"][inwb] = content
            tree = {k: v for k, v in G.head(g).items() if not k.startswith(inwb + "/")}
            g["index"] = {k: v for k, v in g["index"].items() if not k.startswith(inwb + "/")}
            if bool(j.get("committed")) != (tree.get(inwb) != content):
                return f"{self.label(o)} answers committed {j.get('committed')}, HEAD had {tree.get(inwb)!r:.40}"
            if j.get("committed"):
                tree[inwb] = content
                c = next((c for c in after[1]["commits"] if c["tree"] == tree and (not o["message"].strip() or c["msg"] == o["message"].strip()) and c["id"].startswith(j.get("sha") or "?")), None)
                if c is None:
                    return f"{self.label(o)} answers sha {j.get('sha')!r}, which names no commit of just this file"
                g["commits"].append(c)
        for k in set(files) | set(after[0]):
            if isinstance(files.get(k), bytes) and files[k] != after[0].get(k):
                return f"/sim/{k} holds {after[0].get(k)!r:.40}, not {files[k]!r:.40}"
        if [c["id"] for c in g["commits"]] != [c["id"] for c in after[1]["commits"]]:
            return f"{len(after[1]['commits']) - len(before[1]['commits'])} commits were made, {len(g['commits']) - len(before[1]['commits'])} are accounted for"
        if g["index"] != after[1]["index"]:
            return f"staged now: {sorted(k for k in set(g['index']) | set(after[1]['index']) if g['index'].get(k) != after[1]['index'].get(k))} differ"
        return None

    def fine(self, target, before):
        return (self.w.fs.has("/sim/bin/git") and not self.hook and target.startswith(ROOT + "/") and not self.through_file(target, before[0]) and before[0].get(target[5:], 0) is not None
                and not (target.endswith(".log") and self.w.fs.has(ROOT + "/.gitignore")))


CHECK = C19()
