"""A simulated git: one repository per working tree, its state in <root>/.git/state (what `add`, `commit`, `status` and friends do to paths)."""
import base64
import fnmatch
import hashlib
import json
import os

from .viewsim import Unsupported

STATE = ".git/state"


def _b(x):
    return base64.b64encode(x).decode()


def load(fs, root):
    p = f"{root}/{STATE}"
    if not fs.has(p):
        return None
    s = json.loads(bytes(fs.get(p)).decode())
    return {"index": {k: base64.b64decode(v) for k, v in s["index"].items()},
            "commits": [dict(c, tree={k: base64.b64decode(v) for k, v in c["tree"].items()}) for c in s["commits"]]}


def save(fs, root, st):
    s = {"index": {k: _b(v) for k, v in st["index"].items()}, "commits": [dict(c, tree={k: _b(v) for k, v in c["tree"].items()}) for c in st["commits"]]}
    fs.put(f"{root}/{STATE}", json.dumps(s, sort_keys=True).encode())


def init(fs, root):
    fs.mkdirs(root + "/.git")
    save(fs, root, {"index": {}, "commits": []})


def head(st):
    return st["commits"][-1]["tree"] if st["commits"] else {}


def commit(st, tree, msg):
    par = st["commits"][-1]["id"] if st["commits"] else ""
    i = hashlib.sha1(repr((par, msg, sorted(tree.items()))).encode()).hexdigest()
    st["commits"].append({"id": i, "msg": msg, "tree": dict(tree)})
    return i


def work_files(fs, root):
    return {k: b for k, b in ((k, bytes(b)) for k, b in fs.files(root).items()) if not k.startswith(".git/")}


def make_git(w, hook):
    """hook() -> True when a commit hook refuses."""
    fs = w.fs

    def run(argv, stdin, cwd, env, tx):
        a = list(argv[1:])
        literal = (env or os.environ).get("GIT_LITERAL_PATHSPECS") == "1"
        here = cwd or "/sim/work"
        while a and a[0].startswith("-"):
            o = a.pop(0)
            if o == "--literal-pathspecs":
                literal = True
            elif o == "-C":
                here = os.path.join(here, a.pop(0))
            elif o == "-c":
                a.pop(0)
            elif o not in ("--no-pager", "--no-optional-locks"):
                raise Unsupported(f"git {o}")
        real = os.path.realpath(here)
        if not fs.has(real):
            return 128, b"", b"fatal: cannot change directory\n"
        root = real
        while not fs.has(root + "/.git/state"):
            root = os.path.dirname(root)
            if len(root) < 5:
                return 128, b"", b"fatal: not a git repository (or any of the parent directories): .git\n"
        st = load(fs, root)
        if not a:
            raise Unsupported("git")
        cmd, a = a[0], a[1:]
        opts, paths, msg = [], [], []
        while a:
            t = a.pop(0)
            if t == "--":
                paths += a
                break
            if t in ("-m", "--message"):
                msg.append(a.pop(0))
            elif t.startswith("--message="):
                msg.append(t[10:])
            elif t.startswith("-m") and cmd == "commit" and len(t) > 2:
                msg.append(t[2:])
            elif t.startswith("-"):
                opts.append(t)
            else:
                paths.append(t)

        def rel(p):
            """Path in the working tree, or an error."""
            q = os.path.normpath(os.path.join(real, p))
            if not (q + "/").startswith(root + "/"):
                up = os.path.dirname(q)
                q = os.path.join(os.path.realpath(up), os.path.basename(q)) if q != "/" else q
                if not (q + "/").startswith(root + "/"):
                    raise Fatal(128, f"fatal: {p}: '{p}' is outside repository at '{root}'\n")
            r = q[len(root) + 1:]
            parts = r.split("/")
            for i in range(1, len(parts)):
                if os.path.islink(root + "/" + "/".join(parts[:i])):
                    raise Fatal(128, f"fatal: pathspec '{p}' is beyond a symbolic link\n")
            return r

        def matches(spec, name):
            if spec == "" or name == spec or name.startswith(spec + "/"):
                return True
            return not literal and any(c in spec for c in "*?[") and fnmatch.fnmatchcase(name, spec)

        ignored = []
        if fs.has(root + "/.gitignore"):
            ignored = [x for x in bytes(fs.get(root + "/.gitignore")).decode("utf-8", "replace").split() if x]
        is_ignored = lambda n: any(fnmatch.fnmatchcase(os.path.basename(n), g) for g in ignored)
        work = work_files(fs, root)
        try:
            if cmd not in ("rev-parse", "log", "rev-list"):
                specs = [rel(p) for p in paths]
            if cmd == "add":
                if any(o not in ("-A", "--all", "-f", "--force", "-v") for o in opts):
                    raise Unsupported(f"git add {opts}")
                if not paths and not opts:
                    return 0, b"", b"Nothing specified, nothing added.\n"
                for p, s in zip(paths, specs) if paths else [(".", "")]:
                    if ".git" in s.split("/"):
                        continue
                    hit = [n for n in sorted(set(work) | set(st["index"])) if matches(s, n)]
                    if not hit:
                        raise Fatal(128, f"fatal: pathspec '{p}' did not match any files\n")
                    for n in hit:
                        if is_ignored(n) and n not in st["index"] and not set(opts) & {"-f", "--force"}:
                            if n == s:
                                raise Fatal(1, "The following paths are ignored by one of your .gitignore files:\n" + n + "\n")
                            continue
                        if n in work:
                            st["index"][n] = work[n]
                        else:
                            st["index"].pop(n, None)
                save(fs, root, st)
                return 0, b"", b""
            if cmd == "commit":
                if any(o not in ("-q", "--quiet", "-o", "--only", "--no-verify", "-n", "--no-gpg-sign", "-i", "--include", "-a", "--no-edit") for o in opts) or not msg:
                    raise Unsupported(f"git commit {opts}")
                m = "\n\n".join(x.strip() for x in msg)
                tree = dict(head(st))
                index = dict(st["index"])
                if "-a" in opts:
                    for n in list(index):
                        index.pop(n)
                        if n in work:
                            index[n] = work[n]
                for p, s in zip(paths, specs):
                    hit = [n for n in sorted(set(index) | set(tree)) if matches(s, n)]
                    if not hit:
                        raise Fatal(1, f"error: pathspec '{p}' did not match any file(s) known to git\n")
                    for n in hit:
                        for t in (tree, index):
                            t.pop(n, None)
                            if n in work:
                                t[n] = work[n]
                if not paths or set(opts) & {"-i", "--include"}:
                    tree = dict(index)
                if tree == head(st):
                    if paths:
                        st["index"] = index
                        save(fs, root, st)
                    return 1, b"On branch main\nnothing to commit, working tree clean\n", b""
                if not m:
                    return 1, b"", b"Aborting commit due to empty commit message.\n"
                if hook() and not set(opts) & {"--no-verify", "-n"}:
                    return 1, b"", b"pre-commit: refused\n"
                first = not st["commits"]
                st["index"] = index
                i = commit(st, tree, m)
                save(fs, root, st)
                line = m.split("\n")[0]
                out = f"[main {'(root-commit) ' if first else ''}{i[:7]}] {line}\n 1 file changed\n"
                return 0, b"" if set(opts) & {"-q", "--quiet"} else out.encode("utf-8", "replace"), b""
            if cmd == "status":
                if not any(o.startswith("--porcelain") or o in ("-s", "--short") for o in opts):
                    raise Unsupported(f"git status {opts}")
                out = []
                for n in sorted(set(work) | set(st["index"]) | set(head(st))):
                    if paths and not any(matches(s, n) for s in specs):
                        continue
                    h, i, k = head(st).get(n), st["index"].get(n), work.get(n)
                    if i is None and k is not None and h is None:
                        if not is_ignored(n):
                            out.append(f"?? {n}")
                        continue
                    x = " " if h == i else ("A" if h is None else "D" if i is None else "M")
                    y = " " if i == k else ("D" if k is None else "?" if i is None else "M")
                    if x + y != "  ":
                        out.append(f"{x}{y} {n}")
                return 0, "".join(x + "\n" for x in out).encode("utf-8", "surrogateescape"), b""
            if cmd == "diff":
                if not set(opts) & {"--cached", "--staged"} or set(opts) - {"--cached", "--staged", "--quiet", "--name-only", "--exit-code"}:
                    raise Unsupported(f"git diff {opts}")
                d = [n for n in sorted(set(st["index"]) | set(head(st))) if st["index"].get(n) != head(st).get(n) and (not paths or any(matches(s, n) for s in specs))]
                return (1 if d and set(opts) & {"--quiet", "--exit-code"} else 0), b"" if "--quiet" in opts else "".join(n + "\n" for n in d).encode(), b""
            if cmd == "rev-parse":
                if paths == ["HEAD"] and not set(opts) - {"--short", "--verify", "-q", "--quiet"}:
                    if not st["commits"]:
                        return 128, b"HEAD\n" if "--verify" not in opts else b"", b"fatal: ambiguous argument 'HEAD'\n"
                    i = st["commits"][-1]["id"]
                    return 0, (i[:7] if "--short" in opts else i).encode() + b"\n", b""
                if opts == ["--is-inside-work-tree"]:
                    return 0, b"true\n", b""
                if opts == ["--show-toplevel"]:
                    return 0, root.encode() + b"\n", b""
                raise Unsupported(f"git rev-parse {opts} {paths}")
            if cmd == "log":
                f = next((o.split("=", 1)[1] for o in opts if o.startswith(("--format=", "--pretty="))), None)
                if f not in ("%h", "%H", "%s", "format:%h", "format:%H") or not set(opts) & {"-1", "-n1"} or paths:
                    raise Unsupported(f"git log {opts}")
                if not st["commits"]:
                    return 128, b"", b"fatal: your current branch 'main' does not have any commits yet\n"
                c = st["commits"][-1]
                return 0, {"h": c["id"][:7], "H": c["id"], "s": c["msg"].split("\n")[0]}[f[-1]].encode() + b"\n", b""
            raise Unsupported(f"git {cmd}")
        except Fatal as e:
            return e.rc, b"", e.text.encode("utf-8", "surrogateescape")

    return run


class Fatal(Exception):
    def __init__(self, rc, text):
        self.rc, self.text = rc, text
