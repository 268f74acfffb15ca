"""C22: an assembly's operations are carried out in order, and a failed one is reported and spoils nothing else."""
import copy
import os
import random

from ..engine import Check, Result
from ..world import World, call

Y = {}
PARTS = ["plate", "Plate", "pin", "pin_1", "boss", "plug", "slot/2"]
GHOST = ["gone", "plate "]
STAGES = ["pre", "post", "final", "Post"]
KINDS = {"subtract": "difference", "intersect": "intersection", "union": "union"}
ERRORS = {"runtime": RuntimeError, "value": ValueError, "memory": MemoryError, "attribute": AttributeError, "import": ImportError, "key": KeyError, "os": OSError,
          "recursion": RecursionError, "type": TypeError, "index": IndexError, "zero": ZeroDivisionError, "assert": AssertionError, "stop": StopIteration}
ENV = [None, None, "basic", "BASIC", "Basic", "staged", "STAGED", "nope", "probe", "Probe", ""]
ENGINES = ["native", "trimesh", "occ", "trimesh:manifold"]


def gen_operation(rng, me, full=True):
    """Fields of an operation; missing ones take their defaults."""
    f = {"kind": rng.choice(["subtract", "subtract", "intersect", "union"]),
         "target_filter": rng.sample([p for p in PARTS + GHOST if p != me], rng.choice([0, 1, 1, 1, 2, 3, 4])) if full or rng.random() < 0.5 else None,
         "priority": rng.choice([None, None, 0, 10, 10, 10.4, 49.5, 50, 50.5, 51, -3, 80]), "consume": rng.choice([None, None, True, False, False]),
         "policy": rng.choice([None, "strict", "warn", "warn", "ignore"]), "stage": rng.choice([None] + STAGES + ["nowhere"])}
    if full and not f["target_filter"] and rng.random() < 0.9:
        f["target_filter"] = [rng.choice([p for p in PARTS if p != me])]
    if f["target_filter"] is None:
        del f["target_filter"]
    return {k: v for k, v in f.items() if v is not None}


def gen_op(rng):
    k = rng.choice(["part"] * 4 + ["remove"] * 2 + ["operate"] * 7 + ["amend"] * 4 + ["plain"] * 2 + ["dropmeta", "refused"] + ["resolver"] * 3 + ["stages", "registry"] + ["env"] * 3
                   + ["engine"] * 2 + ["resolve"] * 12 + ["again"] * 5 + ["adopt"] * 2 + ["spoil"] * 2)
    o = {"op": k, "d": rng.choice([0, 0, 0, 1]), "p": rng.choice(PARTS), "n": rng.randrange(100)}
    if k in ("operate", "amend"):
        o.update(f=gen_operation(rng, o["p"], k == "operate"), raw=rng.random() < 0.3)
    elif k == "refused":
        o["f"] = {"kind": rng.choice(["cut", "", "Subtract"])} if rng.random() < 0.5 else {"kind": "union", "policy": "lenient", "priority": 1}
    elif k == "resolver":
        o["stages"] = rng.choice([None, [], ["pre"]] + [rng.sample(STAGES, rng.randint(1, 4)) for _ in range(5)])
    elif k == "env":
        o["v"] = rng.choice(ENV)
    elif k == "engine":
        o["v"] = [rng.choice([None, None, None] + ENGINES + ["magic"]), rng.choice([None, None] + ENGINES[:3] + ["magic"])]
    elif k == "resolve":
        o.update(how=rng.choice(["own", "given", "given", "env"]), engine=rng.choice([None, None, None, None] + ENGINES + ["magic"]), faults=gen_faults(rng))
    elif k == "again":
        o["faults"] = gen_faults(rng) if rng.random() < 0.3 else []
    return o


def gen_faults(rng):
    if rng.random() < 0.5:
        return []
    return [[rng.choice(PARTS + ["*"]), rng.choice(PARTS + ["*"]), rng.choice(sorted(ERRORS) * 2 + ["interrupt", "interrupt"])] for _ in range(rng.choice([1, 1, 2, 3]))]



class Interrupted(Exception):
    pass


class C22(Check):
    id = "C22"
    runs = {"quick": 14000, "thorough": 500000}
    batch = 40
    shrink_lists = ("ops",)
    rule = "a run with a new trace in which an assembly with operations was resolved again after a part, an operation, the resolver or the engine had changed"
    real = ["yapcad.assembly.resolver", "yapcad.metadata", "yapcad.geom3d.solid_boolean (choice of engine)", "yapcad.boolean.native (in some runs)"]
    stub = ["boolean engines native, trimesh and occ (a recorder that fails when told; real native engine in some runs)", "environment", "clock"]
    assumptions = ["an operation does not name its own part, nor a target twice", "stage names of one resolver differ"]
    states_measure = "distinct (operation, resolver kind, number of cutters applied, policies that acted, outcome)"

    def preload(self):
        import logging
        logging.disable(logging.CRITICAL)
        import warnings
        warnings.simplefilter("ignore")
        from yapcad import geom3d, geom3d_util, metadata
        from yapcad.assembly import resolver
        from yapcad.boolean import native, trimesh_engine, occ_engine
        Y.update(R=resolver, G=geom3d, U=geom3d_util, M=metadata, native=native, trimesh=trimesh_engine, occ=occ_engine)

        class Probe(resolver.BasicResolver):
            pass
        Y["Probe"] = Probe

    def gen(self, rng, index, tier):
        real = rng.random() < 0.015
        ps = rng.sample(PARTS, rng.randint(2, 4 if real else 6))
        ops = [{"op": "part", "d": 0, "p": p, "n": rng.randrange(100)} for p in ps]
        if real or rng.random() < 0.8:
            cs = rng.sample(ps, rng.randint(1, max(1, len(ps) - 1)))
            for c in cs:
                f = gen_operation(rng, c)
                t = [p for p in ps if p != c]
                if rng.random() < 0.8:
                    f["target_filter"] = rng.sample(t, rng.randint(1, len(t)))
                ops.append({"op": "operate", "d": 0, "p": c, "n": 0, "f": f, "raw": rng.random() < 0.3})
        more = [gen_op(rng) for _ in range(rng.randint(4, 8) if real else rng.randint(4, 30 if tier == "quick" else 90))]
        if real:
            more = [o for o in more if o["op"] not in ("engine", "adopt")]
            for o in more:
                if o["op"] in ("resolve", "again"):
                    o["faults"] = []
                if "engine" in o:
                    o["engine"] = None
        return {"seed": rng.randrange(1 << 30), "real": real, "ops": ops + more}

    def run(self, plan):
        r = Result()
        R = Y["R"]
        with World(plan["seed"]) as w:
            self.w, self.r, self.plan = w, r, plan
            self.real_run = plan["real"]
            self.engine_was = {k: Y[k].solid_boolean for k in ("native", "trimesh", "occ")}
            registry = dict(R.RESOLVER_REGISTRY)
            try:
                if not self.real_run:
                    for k in self.engine_was:
                        w._set(Y[k], "solid_boolean", self.engine(k))
                self.made, self.hits, self.calls = 0, 0, 0
                self.parts, self.meta = [{}, {}], [{}, {}]                # what the caller holds
                self.label, self.ops = [{}, {}], [{}, {}]                 # the model of it
                self.faults, self.fired = {}, {}
                self.pool = [(R.BasicResolver(), None)]
                self.lists = []
                self.resolver = [0, 0]
                self.names = {}
                self.last = [None, None]
                self.changed, self.asked = False, 0
                for i, o in enumerate(plan["ops"]):
                    self.out = None
                    r.t(i, o["op"], o["d"], o["p"])
                    e = getattr(self, "do_" + o["op"])(o, o["d"])
                    r.t(self.out)
                    r.state(o["op"], self.pool[self.resolver[o["d"]]][1] and len(self.pool[self.resolver[o["d"]]][1]), str(self.out), e and e[0])
                    if e:
                        r.v(*e)
                        break
            finally:
                R.RESOLVER_REGISTRY.clear()
                R.RESOLVER_REGISTRY.update(registry)
            r.nontrivial = self.changed
            r.faults.update(self.fired)
        return r

    # -- the engine -------------------------------------------------------
    def engine(self, name):
        def solid_boolean(a, b, operation, *args, **k):
            """What an engine gives: a solid whose construction says what was made of what."""
            self.calls += 1
            x, y = self.read(a), self.read(b)
            f = self.fault(x, y)
            if f:
                self.fired["engine_" + f] = self.fired.get("engine_" + f, 0) + 1
                if f == "interrupt":
                    raise KeyboardInterrupt("simulated interrupt")
                raise ERRORS[f](self.reason(f, x, y))
            if operation not in KINDS.values():
                raise ValueError(f"unsupported operation {operation!r}")
            return self.solid(f"({x} {name}:{operation} {y})")
        return solid_boolean

    @staticmethod
    def reason(f, x, y):
        return f"simulated {f} failure of {x} with {y}"

    def fault(self, x, y):
        """The fault an operation on geometry x with y meets: by the parts they began as."""
        a, b = (z.lstrip("(").split("#")[0] for z in (x, y))
        for k in ((a, b), (a, "*"), ("*", b), ("*", "*")):
            if k in self.faults:
                return self.faults[k]
        return None

    def solid(self, label):
        return ["solid", [], [], ["sim", label]]

    def read(self, s):
        """The label of a stand-in solid, or the triangles of a real one."""
        if self.real_run and isinstance(s, list) and s[1]:
            return [[[round(c, 9) for c in v[:3]] for v in (x[1][j] for j in f)] for x in s[1] for f in x[3]]
        if not (isinstance(s, list) and len(s) > 3 and s[0] == "solid"):
            return f"no solid: {s!r}"
        return [] if self.real_run else s[3][1]

    # -- the caller's parts and metadata ----------------------------------
    def change(self):
        if self.asked:
            self.changed = True

    def do_part(self, o, d):
        self.made += 1
        p = o["p"]
        if self.real_run:
            n = o["n"]
            g = Y["G"].translatesolid(Y["U"].prism(4 + n % 3, 4.5 + n % 4, 5.25 + n % 2), Y["G"].point((n * 7 % 11) * 0.613, (n * 5 % 13) * 0.517, (n * 3 % 7) * 0.713))
        else:
            g = self.solid(f"{p}#{self.made}")
        self.parts[d][p] = g
        self.label[d][p] = self.read(g)
        if p not in self.meta[d]:
            self.meta[d][p] = [{}, {"schema": "metadata-namespace-v1.1", "tags": ["a"], "layer": "default"}][o["n"] % 2]
            self.ops[d][p] = None
        self.change()

    def do_remove(self, o, d):
        self.parts[d].pop(o["p"], None)
        self.label[d].pop(o["p"], None)
        if o["n"] % 2:
            self.meta[d].pop(o["p"], None)
            self.ops[d].pop(o["p"], None)
        self.change()

    def do_operate(self, o, d):
        """A part becomes an operation: a whole new section, or fields set on the present one."""
        p, f = o["p"], copy.deepcopy(o["f"])
        if p not in self.meta[d]:
            self.meta[d][p], self.ops[d][p] = {}, None
        m = self.meta[d][p]
        if o["raw"] or o["op"] == "operate":
            m.pop("operation", None)
            self.ops[d][p] = {}
        if o["raw"]:
            m["operation"] = f
        else:
            st, v = call(Y["M"].set_operation, m, **f)
            if st != "ok" or v is not m.get("operation"):
                return "set-operation-wrong", f"{f}: {v!r}"
            f.get("target_filter", []).append("Plate")          # the list stays the caller's
        self.ops[d][p] = {**(self.ops[d][p] or {}), **copy.deepcopy(o["f"])}
        got = Y["M"].get_operation_metadata(m)
        if got != self.ops[d][p]:
            return "operation-not-kept", f"{got!r} != {self.ops[d][p]!r}"
        self.change()

    def do_amend(self, o, d):
        return self.do_operate({**o, "raw": False}, d)

    def do_plain(self, o, d):
        """A part is no operation any more, or its section names no kind."""
        m = self.meta[d].get(o["p"])
        if m is None:
            return
        m.pop("operation", None)
        self.ops[d][o["p"]] = None
        if o["n"] % 3 == 0:
            m["operation"] = {"priority": 3, "target_filter": ["plate"]}
            self.ops[d][o["p"]] = dict(m["operation"])
        self.change()

    def do_dropmeta(self, o, d):
        self.meta[d].pop(o["p"], None)
        self.ops[d].pop(o["p"], None)
        self.change()

    def do_refused(self, o, d):
        m = self.meta[d].get(o["p"])
        if m is None:
            return
        before = copy.deepcopy(m)
        st, v = call(Y["M"].set_operation, m, **o["f"])
        if st == "ok" or not isinstance(v, ValueError):
            return "bad-operation-accepted", f"{o['f']}: {v!r}"
        if m != before:
            return "refused-operation-left", f"{m!r} != {before!r}"

    # -- resolvers --------------------------------------------------------
    def do_resolver(self, o, d):
        R = Y["R"]
        s = o["stages"]
        if s is None:
            x = R.BasicResolver()
        else:
            mine = list(s)
            st, x = call(R.StagedResolver, mine if o["n"] % 2 else stages_kw(mine)) if o["n"] % 4 < 3 else call(R.StagedResolver, stages=mine)
            if not s:
                return None if st != "ok" and isinstance(x, ValueError) else ("no-stages-accepted", f"{x!r}")
            if st != "ok":
                return "stages-refused", f"{s}: {x!r}"
            self.lists.append(mine)
        if len(self.pool) < 6:
            self.pool.append((x, s and list(s)))
        else:
            self.pool[1 + o["n"] % 5] = x, s and list(s)
        self.resolver[d] = self.pool.index(next(q for q in self.pool if q[0] is x))
        self.change()

    def do_stages(self, o, d):
        """The lists resolvers were made from belong to the caller."""
        for x in self.lists:
            x.reverse()
            x.append("later")

    def do_registry(self, o, d):
        n = ["probe", "Probe"][o["n"] % 2]
        R = Y["R"]
        if n in self.names:
            del self.names[n], R.RESOLVER_REGISTRY[n]
        else:
            self.names[n] = R.RESOLVER_REGISTRY[n] = Y["Probe"]
        for k in ("basic", "staged", "probe", "Probe", "kinematic", "nope"):
            want = {"basic": R.BasicResolver, "staged": R.StagedResolver}.get(k, self.names.get(k))
            st, v = call(R.get_resolver, k)
            if st != "ok" or v is not want:
                return "registry-wrong", f"{k}: {v!r}"

    def do_env(self, o, d):
        os.environ.pop("YAPCAD_ASSEMBLY_RESOLVER", None)
        if o["v"] is not None:
            os.environ["YAPCAD_ASSEMBLY_RESOLVER"] = o["v"]

    def do_engine(self, o, d):
        for k, v in zip(("YAPCAD_BOOLEAN_ENGINE", "YAPCAD_MESH_BOOLEAN_ENGINE"), o["v"]):
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        self.change()

    def chosen(self):
        """The resolver the environment names: 'basic' or None when it is refused."""
        v = os.environ.get("YAPCAD_ASSEMBLY_RESOLVER", "basic")
        if v in self.names or v.lower() in self.names:
            return "basic"
        return "basic" if v.lower() == "basic" else None

    # -- the model --------------------------------------------------------
    def boolean(self, x, y, kind, engine):
        """(label, None) or (None, reason)."""
        e = engine or os.environ.get("YAPCAD_BOOLEAN_ENGINE") or os.environ.get("YAPCAD_MESH_BOOLEAN_ENGINE", "native")
        name = e.split(":")[0]
        if name not in self.engine_was:
            return None, "magic"
        f = self.fault(x, y)
        if f == "interrupt":
            raise Interrupted()
        if f:
            return None, self.reason(f, x, y)
        return f"({x} {name}:{KINDS[kind]} {y})", None

    def basic(self, parts, ops, engine):
        cutters = {p: f for p, f in ops.items() if f and f.get("kind")}
        out = {}
        for p, x in parts.items():
            todo = [(f.get("priority", 50), c) for c, f in cutters.items() if p in f["target_filter"]]
            if not todo and p in cutters and cutters[p].get("consume", True):
                continue
            rep = {"x": x, "applied": [], "kept": [], "tried": [], "warnings": [], "errors": []}
            for _, c in sorted(todo, key=lambda t: t[0]):
                f = cutters[c]
                if c not in parts:
                    y, why = None, ""
                else:
                    y, why = self.cut(rep["x"], parts[c], f["kind"], engine)
                    if not f.get("consume", True):
                        rep["tried"].append(c)
                if why is None:
                    rep["x"] = y
                    rep["applied"].append(c)
                    if not f.get("consume", True):
                        rep["kept"].append(c)
                else:
                    w = {"strict": "errors", "warn": "warnings"}.get(f.get("policy", "strict"))
                    self.acted.add(w)
                    if w:
                        rep[w].append((c, p, why))
            out[p] = rep
        return out

    def cut(self, x, y, kind, engine):
        if not self.real_run:
            return self.boolean(x, y, kind, engine)
        try:
            return Y["G"].solid_boolean(x, y, KINDS[kind]), None
        except Exception as e:
            return None, str(e)

    def expect(self, d, stages, engine):
        """{part: report}, or None when an operation names no targets."""
        ops = self.ops[d]
        parts = copy.deepcopy(self.parts[d]) if self.real_run else self.label[d]
        self.acted = set()
        if any(f and f.get("kind") and not f.get("target_filter") for f in ops.values()):
            return None
        if stages is None:
            return self.basic(parts, ops, engine)
        total = {}
        for s in stages:
            now = {p: f for p, f in ops.items() if f and f.get("kind") and (f.get("stage") if f.get("stage") in stages else stages[-1]) == s}
            if not now:
                continue
            res = self.basic(parts, now, engine)
            for p, q in res.items():
                t = total.setdefault(p, {k: [] for k in ("applied", "kept", "tried", "warnings", "errors")})
                for k in t:
                    t[k] += q[k]
            parts = {p: q["x"] for p, q in res.items()}
        none = {k: [] for k in ("applied", "kept", "tried", "warnings", "errors")}
        out = {p: {**total.get(p, none), "x": x} for p, x in parts.items()}
        lost = {p: q for p, q in total.items() if p not in out}
        self.lost = [e for q in lost.values() for e in q["errors"]]
        return out

    def frozen(self, d):
        return {p: self.read(g) for p, g in self.parts[d].items()}, copy.deepcopy(self.meta[d]), list(self.parts[d]), list(self.meta[d])

    # -- resolving --------------------------------------------------------
    def do_resolve(self, o, d):
        R = Y["R"]
        self.faults = {(a, b): k for a, b, k in o["faults"]}
        self.lost = []
        x, stages = self.pool[self.resolver[d]]
        how, engine = o["how"], o["engine"]
        if how == "env":
            stages = None
        interrupted = refused = False
        want = None
        if how == "env" and self.chosen() is None:
            refused = True
        else:
            try:
                want = self.expect(d, stages, engine)
            except Interrupted:
                interrupted = True
        before, calls = self.frozen(d), self.calls
        self.last[d] = {**o, "op": "resolve"}
        if self.asked == 0 and not any(f and f.get("kind") for f in self.ops[d].values()):
            pass
        else:
            self.asked += 1
        fn = {"own": lambda: x.resolve(self.parts[d], self.meta[d], boolean_engine=engine),
              "given": lambda: R.resolve_assembly(self.parts[d], self.meta[d], resolver=x, boolean_engine=engine),
              "env": lambda: R.resolve_assembly(self.parts[d], self.meta[d], boolean_engine=engine)}[how]
        try:
            st, v = call(fn)
        except KeyboardInterrupt:
            st, v = "interrupt", None
        self.faults = {}
        if self.frozen(d) != before:
            return "input-changed", f"{self.frozen(d)!r} != {before!r}"
        what = f"{how} {stages} {engine}: {self.label[d] if not self.real_run else list(self.parts[d])} {self.ops[d]}"
        if refused:
            self.out = "refused"
            return None if st == "exc" and isinstance(v, ValueError) else ("resolver-name-accepted", f"{os.environ.get('YAPCAD_ASSEMBLY_RESOLVER')!r}: {v!r}")
        if interrupted:
            self.out = "interrupted"
            return None if st == "interrupt" else ("interrupt-swallowed", f"{what}: {v!r}")
        if st != "ok":
            return "resolve-raised", f"{what}: {v!r}"
        self.result = v
        return self.judge(d, v, want, what, calls)

    def do_again(self, o, d):
        """The last question about this assembly, once more, with its faults or others."""
        return self.do_resolve({**self.last[d], "faults": o["faults"]}, d) if self.last[d] else None

    def judge(self, d, v, want, what, calls):
        if want is None:
            self.out = "invalid"
            if v.success or not v.errors:
                return "invalid-accepted", f"{what}: {v!r}"
            if self.calls != calls or list(v.parts) != list(self.parts[d]) or any(self.read(q.geometry) != self.read(self.parts[d][p]) or q.applied_operations for p, q in v.parts.items()):
                return "invalid-applied", f"{what}: {v!r}"
            bad = [p for p, f in self.ops[d].items() if f and f.get("kind") and not f.get("target_filter")]
            if any(not any(f"'{p}'" in e or repr(p) in e for e in v.errors) for p in bad):
                return "invalid-not-named", f"{bad}: {v.errors}"
            return
        if set(v.parts) != set(want):
            return "parts-wrong", f"{what}: {sorted(v.parts)} != {sorted(want)}"
        errors = []
        for p, q in want.items():
            g = v.parts[p]
            got, exp = self.read(g.geometry), self.read(q["x"]) if self.real_run else q["x"]
            if got != exp:
                return "geometry-wrong", f"{what}: {p} {str(got)[:300]} != {str(exp)[:300]}"
            if g.part_id != p or g.applied_operations != q["applied"]:
                return "applied-wrong", f"{what}: {p} {g.part_id} {g.applied_operations} != {q['applied']}"
            k = list(g.retained_cutters)
            if len(set(k)) != len(k) or not set(q["kept"]) <= set(k) <= set(q["tried"]):
                return "retained-wrong", f"{what}: {p} {k} != {q['kept']}"
            for f in ("warnings", "errors"):
                e = self.reports(getattr(g, f), q[f])
                if e:
                    return f"{f}-wrong", f"{what}: {p} {getattr(g, f)} != {q[f]} ({e})"
            errors += q["errors"]
            for c in q["applied"]:
                if not any(c in line and p in line for line in v.execution_log):
                    return "log-lacks", f"{what}: {c} on {p} in {v.execution_log}"
        errors += self.lost
        if v.success != (not errors):
            return "success-wrong", f"{what}: {v.success} {v.errors} != {errors}"
        left = list(v.errors)
        for m in [m for p in v.parts.values() for m in p.errors]:
            if m not in left:
                return "errors-wrong", f"{what}: {v.errors} lacks {m!r}"
            left.remove(m)
        if len(left) != len(self.lost) or not all(any(self.reports([m], [x]) is None for x in self.lost) for m in left):
            return "errors-wrong", f"{what}: {v.errors} != {errors}"
        self.out = f"{sum(len(q['applied']) for q in want.values())}{sorted(map(str, self.acted))}{v.success}"

    @staticmethod
    def reports(got, want):
        if len(got) != len(want):
            return "number"
        for m, (c, p, why) in zip(got, want):
            if c not in m or p not in m or why not in m:
                return f"{c} on {p}: {why}"
        return None

    def do_adopt(self, o, d):
        """The result of the last resolution becomes the assembly."""
        v = getattr(self, "result", None)
        if v is None or self.last[d] is None:
            return
        self.parts[d] = {p: q.geometry for p, q in v.parts.items()}
        self.label[d] = {p: self.read(g) for p, g in self.parts[d].items()}
        self.change()

    def do_spoil(self, o, d):
        """What callers do to a result changes nothing."""
        v = getattr(self, "result", None)
        if v is None:
            return
        for q in v.parts.values():
            for x in (q.applied_operations, q.retained_cutters, q.warnings, q.errors):
                x.append("spoilt")
        v.errors.append("spoilt")
        v.execution_log.clear()
        v.parts.clear()
        self.result = None


def stages_kw(x):
    return tuple(x)


CHECK = C22()
