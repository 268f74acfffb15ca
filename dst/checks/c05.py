"""C05: signatures vouch for exactly the signed content."""
import copy
import datetime
import json
import unicodedata
from pathlib import Path

from .. import pkgsim as P
from .. import tools as T
from ..engine import Check, Result
from ..explore import Explorer, gen_branch, gen_fault
from ..world import World, call

PKG = "/sim/work/pkg"
MAN = PKG + "/manifest.yaml"
AS = "/sim/home/allowed_signers"
KR = "/sim/home/extra-keyring.json"
SSHKEYS = [("k0", "idA", "alice@example.org"), ("k1", "idB", "alice@example.org"), ("k2", "idC", "bob smith"),
           ("k3", "idD", "a.very.long.name.indeed@example.org"), ("k4", "idE", "a.very.long.name.indeed@example.com"), ("k5", "idF", "")]
GPGKEYS = [("AAAA1111AAAA1111", "Alice A <alice@x>"), ("BBBB2222BBBB2222", "Bob \"B\" <bob@x>"), ("CCCC3333CCCC3333", "Carol <carol@x>")]

TAMPER = ["value", "value", "deep", "add_key", "del_key", "hash", "list_order", "type", "nested_signatures", "whitespace_value", "reorder",
          "restyle", "comment", "sig_flip", "sig_delete", "sig_swap", "sig_garbage", "sig_empty", "entry_dup", "entry_file_swap",
          "entry_method", "entry_drop", "entry_signer", "revert", "unicode", "bool_int", "validation", "materials",
          "any", "any", "any", "any", "sig_binary", "sig_dir", "entry_nofile"]


def gen_op(rng):
    k = rng.choice(["sign", "sign", "sign", "tamper", "tamper", "tamper", "trust", "tools", "disk", "swap"])
    o = {"op": k, "allowed": rng.random() < 0.8, "ring": rng.random() < 0.4}
    if k == "sign":
        o.update(method=rng.choice(["ssh", "gpg", "SSH"]), who=rng.randrange(6), add=rng.random() < 0.7,
                 name=rng.choice([None, None, "Release Bot"]),
                 branches=[dict(gen_branch(rng), tool=rng.choice([None, None, None, "exit", "signal", "late_exit", "late_signal"]), skip=rng.randrange(2))
                           for _ in range(rng.choice([1, 2, 3]))],
                 settle=rng.choice(["clean", "clean", "clean", "fault"]))
    elif k == "tamper":
        o.update(how=rng.choice(TAMPER), pos=rng.random(), pick=rng.random(), pick2=rng.random())
    elif k == "trust":
        o.update(keys=[i for i in range(6) if rng.random() < 0.5], gpg=[i for i in range(3) if rng.random() < 0.7],
                 extra=[i for i in range(3) if rng.random() < 0.4],
                 style=rng.choice(["plain", "plain", "comma", "wild", "star"]))
    elif k == "disk":       # the disk fails while signatures are verified
        o.update(faults=[gen_fault(rng, ["eio", "eio_write", "enospc", "eacces", "emfile", "disk_full", "short_write", "close_eio"])])
    elif k == "swap":       # another process puts an earlier version of the package in place meanwhile
        o.update(pick=rng.random(), at=rng.random())
    else:
        o.update(vfault=rng.choice([{"kind": "exit", "rc": 2}, {"kind": "exit", "rc": 255}, {"kind": "signal"}, {"kind": "exit", "rc": 1},
                                   {"kind": "late_exit", "rc": 2}, {"kind": "late_signal"}, {"kind": "late_exit", "rc": 1}]),
                 skip=rng.randrange(3), missing=rng.choice([None, None, "gpg", "ssh-keygen"]))
    return o


def typed(x):
    """Value identity including types and ignoring mapping order."""
    if isinstance(x, dict):
        return ("d", tuple(sorted(((repr(k), typed(v)) for k, v in x.items()))))
    if isinstance(x, (list, tuple)):
        return ("l", tuple(typed(v) for v in x))
    return (type(x).__name__, repr(x))


class C05(Check):
    id = "C05"
    runs = {"quick": 900, "thorough": 15000}
    batch = 12
    rule = "a run with a new trace in which at least one signature verified as trusted and one did not"
    real = ["yapcad.package.signing", "yapcad.package.core", "PyYAML", "hashlib/json"]
    stub = ["gpg and ssh-keygen (behavioural models written from observed runs of the real tools)", "filesystem", "clock", "entropy"]
    assumptions = ["signatures cannot be forged and digests do not collide",
                   "gpg and ssh-keygen themselves behave as recorded from the real tools"]

    def preload(self):
        P.preload()

    def gen(self, rng, index, tier):
        return {"seed": rng.randrange(1 << 30),
                "ops": [{"op": "trust", "keys": [0, 1, 2, 3, 4, 5], "gpg": [0, 1, 2], "extra": [], "style": "plain", "allowed": True, "ring": False}]
                + [gen_op(rng) for _ in range(rng.randint(3, 9 if tier == "quick" else 18))]}

    def simplify(self, plan):
        for i, op in enumerate(plan["ops"]):
            if op["op"] == "sign" and op["branches"]:
                for b in op["branches"] + [None]:
                    q = json.loads(json.dumps(plan))
                    q["ops"][i]["branches"] = [b] if b else []
                    if len(op["branches"]) > 1 or b is None:
                        yield q

    # ------------------------------------------------------------ world
    def trust(self, w, o):
        fs = w.fs
        lines = ["# trusted\n"]
        for i in o["keys"]:
            name, ident, comment = SSHKEYS[i]
            pr = {"plain": f"user{i}@example.org", "comma": f"user{i}@example.org,alt{i}@x", "wild": "*@example.org",
                  "star": "*"}[o["style"]]
            lines.append(T.allowed_line(pr, ident))
        fs.put(AS, "".join(lines))
        T.gpg_home(fs, [{"id": GPGKEYS[i][0], "uid": GPGKEYS[i][1], "secret": True} for i in o["gpg"]])
        T.gpg_home(fs, [{"id": GPGKEYS[i][0], "uid": GPGKEYS[i][1]} for i in o["extra"]], KR)
        self.ssh_ok = {SSHKEYS[i][1] for i in o["keys"]}
        self.gpg_ok = {GPGKEYS[i][0] for i in o["gpg"]}
        self.gpg_extra = {GPGKEYS[i][0] for i in o["extra"]}

    def body(self, fs):
        d = P.load_yaml(fs.get(MAN))
        return typed({k: v for k, v in d.items() if k != "signatures"})

    def entries(self, fs):
        return list((P.load_yaml(fs.get(MAN)).get("signatures") or []))

    def expect(self, fs, e, allowed, ring):
        m = e.get("method", "gpg")
        if m not in ("ssh", "gpg"):
            return "unknown-method"
        try:
            text = fs.get(f"{PKG}/{e.get('signature_file', '')}").decode()
        except (OSError, UnicodeDecodeError):
            return "ERROR"
        known = self.signed.get(T.canon(text))
        good = known is not None and known == self.body(fs)
        key = T.sig_key_of(text)
        if m == "ssh":
            if key is None or key[0] != "SSH" or not good:
                return "INVALID"
            return "VALID" if allowed and key[1] in self.ssh_ok else "VALID_UNTRUSTED"
        if key is None or key[0] != "PGP":
            return "INVALID"
        if key[1] not in self.gpg_ok and not (ring and key[1] in self.gpg_extra):
            return "UNCHECKABLE"
        return "VALID" if good else "INVALID"

    def check_verify(self, r, w, o, note, faulted=False):
        fs = w.fs
        before = fs.tree("/sim")
        ents = self.entries(fs)
        exp = [self.expect(fs, e, o["allowed"], o["ring"]) for e in ents]
        log0 = len(w.spawn_log)
        st, v = call(P.Y["signing"].verify_package, PKG, allowed_signers=AS if o["allowed"] else None,
                     gpg_keyring=KR if o["ring"] else None)
        if st != "ok":
            r.v("verify-raised", f"{note}: {st} {v!r}")
            return None
        got = [s.status.value for s in v.signatures]
        r.t("   verify", note, "expected", exp, "got", got, "valid" if v.is_valid else "", v.overall_status.value)
        r.state([x for x in exp], v.overall_status.value)
        exp2 = [x for x in exp if x != "unknown-method"]
        if len(got) != len(exp2):
            r.v("verify-signature-count", f"{note}: {len(exp2)} signatures recorded, {len(got)} reported")
            return None
        if faulted and w.spawn_faults and w.spawn_faults[0].get("done"):
            # the verdict on a signature whose gpg run failed must not be VALID, whatever it printed
            calls = w.spawn_log[log0:]
            hit = o["skip"]
            if hit < len(calls) and calls[hit][0] == "gpg":
                nth = sum(1 for c in calls[:hit] if c[0] == "gpg")
                with_file = [j for j, e in enumerate(x for x in ents if x.get("method", "gpg") in ("ssh", "gpg"))
                             if e.get("method", "gpg") == "gpg" and self.expect(fs, e, o["allowed"], o["ring"]) != "ERROR"]
                if nth < len(with_file) and got[with_file[nth]] == "VALID":
                    r.v("failed-tool-vouches", f"{note}: gpg failed on this signature, reported VALID")
                    return None
        for e, g in zip(exp2, got):
            if g == "VALID" and e != "VALID":
                r.v("vouched-for-unsigned-content", f"{note}: reported VALID where the truth is {e}")
                return None
            if faulted:
                continue
            if e == "UNCHECKABLE":
                if g not in ("VALID_UNTRUSTED", "ERROR", "INVALID"):
                    r.v("verify-status", f"{note}: key unknown, reported {g}")
                    return None
            elif g != e:
                r.v("verify-status", f"{note}: reported {g}, truth is {e}")
                return None
        if v.is_valid != ("VALID" in got) or v.trusted_signers != got.count("VALID"):
            r.v("verify-summary", f"{note}: statuses {got} but is_valid={v.is_valid} trusted={v.trusted_signers}")
            return None
        if v.overall_status.value == "VALID" and ("VALID" not in got or "unknown-method" in exp):
            r.v("verify-summary", f"{note}: overall VALID with statuses {got} {v.errors}")
            return None
        if fs.tree("/sim") != before:
            diff = sorted(set(fs.tree("/sim")) ^ set(before)) or "content"
            r.v("verify-changed-files", f"{note}: {diff}")
            return None
        return got

    # ------------------------------------------------------------ run
    def run(self, plan):
        r = Result()
        self.signed = {}
        bodies = []
        kinds = set()
        sg = P.Y["signing"]
        with World(plan["seed"]) as w:
            fs = w.fs
            w.tick = 0.01
            w.program("ssh-keygen", T.make_ssh_keygen(w))
            w.program("gpg", T.make_gpg(w))
            for n, ident, c in SSHKEYS:
                T.ssh_key(fs, n, ident, c)
            core = P.Y["core"]
            m = core.create_package_from_entities([P.build_shape({"k": "prism", "p": [1, 2, 3], "meta": {"tags": ["a", "b"]}})],
                                                  PKG, name="x", version="1", author="me", materials={
                                                      "al": {"source": {"type": "vendor"}, "visual": {"color": [0.1, 0.2, 0.3]}}})
            m.data["extra"] = {"signatures": ["fake"], "nested": {"flag": True, "n": 1, "s": "1"}, "list": [3, 1, 2], "who": "Ren\u00e9 \u2126", "words": ["b", "a"],
                               "files": [{"p": "z", "h": "1"}, {"p": "y", "h": "2"}], "empty": [], "none": None, "text": "a\nb", "x": 0.1}
            m.data["tags"] = ["steel", "bracket", "m6"]
            m.data["grades"] = {304: {"note": "austenitic"}, "A2": {"note": "bolts"}, True: 1}
            m.data["released"] = datetime.date(2026, 3, 1)
            m.data["validation"] = {"results": [{"plan": "p", "status": "failed"}]}
            m.save()
            first = fs.get(MAN)
            past = [first]
            ex = Explorer(w, r)
            for i, o in enumerate(plan["ops"]):
                note = f"step {i} {o['op']} {o.get('how', o.get('method', ''))}"
                if o["op"] == "trust":
                    self.trust(w, o)
                    r.t(i, "trust", o["keys"], o["gpg"], o["extra"], o["style"])
                elif o["op"] == "tamper":
                    self.tamper(fs, o, first)
                    r.t(i, "tamper", o["how"])
                elif o["op"] == "disk":
                    if not self.disk(r, w, o, note):
                        return self.fin(r, w, kinds)
                    continue
                elif o["op"] == "swap":
                    if not self.swap(r, w, o, note, past):
                        return self.fin(r, w, kinds)
                    continue
                elif o["op"] == "tools":
                    prog = o["missing"]
                    if prog:
                        fn = w.programs[prog]
                        w.remove_program(prog)
                        r.faults["tool_missing"] += 1
                    else:
                        w.spawn_faults = [dict(o["vfault"], skip=o["skip"])]
                    ok = self.check_verify(r, w, o, note + f" (tool fault {prog or o['vfault']})", faulted=True)
                    w.spawn_faults = []
                    if prog:
                        w.program(prog, fn)
                    if ok is None:
                        return self.fin(r, w, kinds)
                else:
                    if not self.sign(r, w, ex, o, i, note):
                        return self.fin(r, w, kinds)
                if o["op"] != "tools":
                    got = self.check_verify(r, w, o, note)
                    if got is None:
                        return self.fin(r, w, kinds)
                    kinds |= set(got)
                past.append(fs.get(MAN))
                st, l = call(sg.list_signatures, PKG)
                if st != "ok" or [x.signature_file for x in l] != [e.get("signature_file", "") for e in self.entries(fs)]:
                    r.v("list-signatures", f"{note}: {st} {l!r}"[:300])
                    return self.fin(r, w, kinds)
            if fs.escapes:
                r.v("escape", f"{fs.escapes[:3]}")
        return self.fin(r, w, kinds)

    def verify(self, o):
        return call(P.Y["signing"].verify_package, PKG, allowed_signers=AS if o["allowed"] else None, gpg_keyring=KR if o["ring"] else None)

    def disk(self, r, w, o, note):
        """Verification while the disk fails: no false verdict, nothing changed, no temporary file kept."""
        fs = w.fs
        exp = [x for x in (self.expect(fs, e, o["allowed"], o["ring"]) for e in self.entries(fs)) if x != "unknown-method"]
        before = fs.tree("/sim")
        fs.arm([])
        self.verify(o)
        n = fs.ops
        before_f = dict(fs.fired)
        plan = []
        for f in o["faults"]:
            g = dict(f)
            g["at"] = min(max(0, n - 1), int(g.pop("frac") * n)) if n else 0
            plan.append(g)
        log0 = len(fs.log)
        fs.arm(plan)
        try:
            st, v = self.verify(o)
        finally:
            fs.reset_faults()
        tried = {x.split(" ", 1)[1] for x in fs.log[log0:] if x.startswith("unlink ")}
        r.faults.update({k: c - before_f.get(k, 0) for k, c in fs.fired.items() if c != before_f.get(k, 0)})
        got = [x.status.value for x in v.signatures] if st == "ok" else st
        r.t("   verify", note, json.dumps(o["faults"]), "expected", exp, "got", got if st == "ok" else f"{st} {type(v).__name__}")
        r.state("disk", got, sorted(f["kind"] for f in o["faults"]))
        if st == "ok" and any(g == "VALID" and (i >= len(exp) or e != "VALID") for i, (g, e) in enumerate(zip(got, exp + [None] * len(got)))):
            r.v("vouched-for-unsigned-content", f"{note} with {o['faults']}: reported {got} where the truth is {exp}")
            return False
        now = fs.tree("/sim")
        # a file whose removal the disk refused may stay
        if any(now.get(k) != x for k, x in before.items()) or {"/sim/" + k for k in set(now) - set(before)} - tried:
            r.v("verify-changed-files", f"{note} with {o['faults']}: {sorted(set(now) ^ set(before)) or 'content'}")
            return False
        return True

    def swap(self, r, w, o, note, past):
        """Another process puts another version of the manifest in place during verification: the
        verdict is that of the one or the other version."""
        fs = w.fs
        cur, other = fs.get(MAN), past[int(o["pick"] * len(past))]
        judge = lambda: [x for x in (self.expect(fs, e, o["allowed"], o["ring"]) for e in self.entries(fs)) if x != "unknown-method"]
        a = judge()
        fs.put(MAN, other)
        b = judge()
        fs.put(MAN, cur)
        fs.arm([])
        st, v = self.verify(o)
        n = fs.ops
        fs.disarm()
        if st != "ok":
            r.v("verify-raised", f"{note}: {st} {v!r}")
            return False
        tmp0 = set(fs.tree("/sim/tmp"))
        at, seen = int(o["at"] * n), [0]

        def hook(cls, path):
            if seen[0] == at:
                fs.quiet += 1
                try:
                    fs.put(MAN + ".new", other)
                    fs.rename(MAN + ".new", MAN)
                finally:
                    fs.quiet -= 1
                r.faults["other_version_put_in_place"] += 1
            seen[0] += 1
        w.extra_on_op = hook
        try:
            st, v = self.verify(o)
        finally:
            w.extra_on_op = None
        got = [x.status.value for x in v.signatures] if st == "ok" else st
        r.t("   verify", note, "swap at", at, "of", n, "expected", a, "or", b, "got", got)
        r.state("swap", got, a, b)
        same = lambda e: len(e) == len(got) and all(g == x or x == "UNCHECKABLE" and g != "VALID" for x, g in zip(e, got))
        if st != "ok" or not (same(a) or same(b)):
            r.v("verdict-of-neither-version", f"{note}: manifest replaced at step {at} of {n}: reported {got}, truth is {a} before and {b} after")
            return False
        if set(fs.tree("/sim/tmp")) - tmp0:
            r.v("temporary-files-left", f"{note}: {sorted(set(fs.tree('/sim/tmp')) - tmp0)}")
            return False
        fs.put(MAN, cur)
        return True

    def fin(self, r, w, kinds):
        r.sim_time = w.sim_time
        r.faults.update({k: v for k, v in w.fired.items() if k.startswith("tool_")})
        r.nontrivial = "VALID" in kinds and len(kinds) > 1
        return r

    def do_sign(self, o):
        sg = P.Y["signing"]
        if o["method"].lower() == "ssh":
            return lambda mem: sg.sign_package(PKG, method=o["method"], key_path=f"/sim/home/.ssh/{SSHKEYS[o['who']][0]}",
                                               add=o["add"], signer_name=o["name"])
        return lambda mem: sg.sign_package(PKG, method="gpg", key_id=GPGKEYS[o["who"] % 3][0], add=o["add"], signer_name=o["name"])

    def learn(self, fs):
        """Remember what each signature text in the package was made over (from the simulated tools' own record)."""
        cur = self.body(fs)
        return cur

    def statuses(self, fs):
        return [self.expect(fs, e, True, True) for e in self.entries(fs)]

    def sign(self, r, w, ex, o, i, note):
        fs = w.fs
        op = self.do_sign(o)
        gpg_missing = o["method"] == "gpg" and GPGKEYS[o["who"] % 3][0] not in self.gpg_ok
        snap = ex.snapshot()
        body = self.body(fs)
        pre = self.entries(fs)
        pre_text = {e.get("signature_file"): _get(fs, f"{PKG}/{e.get('signature_file')}") for e in pre}
        pre_status = self.statuses(fs)
        man0 = fs.get(MAN)
        tmp0 = fs.tree("/sim/tmp")
        valid0 = P.Y["validator"].validate_package(PKG)[0]
        st, v, n, _ = ex.clean(snap, op)
        r.t(i, "sign", o["method"], o["who"], "add" if o["add"] else "replace", "->", st, type(v).__name__ if st == "exc" else "", "ops", n)
        if fs.tree("/sim/tmp") != tmp0:
            r.v("temporary-files-left", f"{note}: {sorted(set(fs.tree('/sim/tmp')) - set(tmp0))}")
            return False
        if gpg_missing:
            if st == "ok":
                r.v("signed-without-key", note)
                return False
            if not isinstance(v, P.Y["signing"].SigningError) or fs.get(MAN) != man0:
                r.v("failed-signing-changed-package", f"{note}: {v!r}")
                return False
            return True
        if st != "ok":
            r.v("signing-failed", f"{note}: {st} {v!r}")
            return False
        ents = self.entries(fs)
        new_text = _get(fs, f"{PKG}/{ents[-1].get('signature_file')}") if ents else None
        want_key = ("SSH", SSHKEYS[o["who"]][1]) if o["method"].lower() == "ssh" else ("PGP", GPGKEYS[o["who"] % 3][0])
        if self.body(fs) != body:
            r.v("signing-changed-content", note)
            return False
        if new_text is None or T.sig_key_of(new_text.decode()) != want_key:
            r.v("signature-not-stored", f"{note}: last entry {ents[-1:]}")
            return False
        self.signed[T.canon(new_text.decode())] = body
        if len(ents) != (len(pre) + 1 if o["add"] else 1):
            r.v("signature-entries", f"{note}: {len(pre)} entries before, {len(ents)} after (add={o['add']})")
            return False
        if o["add"]:
            for e, s, in zip(pre, pre_status):
                if e not in ents or _get(fs, f"{PKG}/{e.get('signature_file')}") != pre_text[e.get("signature_file")]:
                    if s in ("VALID", "VALID_UNTRUSTED"):
                        r.v("adding-lost-signature", f"{note}: earlier signature {e.get('signature_file')} was replaced")
                        return False
        if v.signature_file != ents[-1].get("signature_file") or (o["name"] and v.signer != o["name"]):
            r.v("signature-info-wrong", f"{note}: {v}")
            return False
        if valid0 and not P.Y["validator"].validate_package(PKG)[0]:
            r.v("signing-broke-package", note)
            return False
        after = fs.clone_tree()
        now, mono = w.now, w.mono
        for b in o["branches"]:
            sf = [{"kind": b["tool"], "rc": 3, "skip": b["skip"]}] if b.get("tool") else ()
            faults = [] if b.get("tool") else b["faults"]
            log0 = len(fs.log)
            st2, v2, fired, _ = ex.faulty(snap, op, faults, n, b["restart"], b["rs"], spawn_faults=sf,
                                          late=b.get("late", False) and not b.get("tool"))
            tried = {x.split(" ", 1)[1] for x in fs.log[log0:] if x.startswith("unlink ")}
            r.t("  branch", json.dumps(faults), b.get("tool"), b["restart"], "->", st2, type(v2).__name__ if st2 == "exc" else "")
            r.state("sign", st2, sorted(fired), o["method"], o["add"])
            raw, cur = P.manifest_or_none(fs, PKG)
            if not isinstance(cur, dict):
                r.v("interrupted-signing-lost-manifest", f"{note} with {faults or b['tool']}: manifest {raw!r:.100}")
                return False
            if typed({k: x for k, x in cur.items() if k != "signatures"}) != body:
                r.v("interrupted-signing-changed-content", f"{note} with {faults or b['tool']}")
                return False
            kept = cur.get("signatures") or []
            # the disk refused to confirm what was completely stored
            unconfirmed = st2 == "exc" and {"eio", "eio_write"} & set(fired) and len(kept) == len(ents) and (
                _get(fs, f"{PKG}/{kept[-1].get('signature_file')}") == new_text)
            if (o["add"] or st2 == "exc") and not unconfirmed:
                want = pre
                for e, s in zip(want, pre_status):
                    if s in ("VALID", "VALID_UNTRUSTED"):
                        now_s = self.expect(fs, e, True, True) if e in kept else "gone"
                        if now_s not in ("VALID", "VALID_UNTRUSTED"):
                            # replacing one's own signature file may have stored the new signature already
                            t = _get(fs, f"{PKG}/{e.get('signature_file')}")
                            if not (not o["add"] and t == new_text and e in kept):
                                r.v("interrupted-signing-lost-signature", f"{note} with {faults or b['tool']} ended {st2}: earlier signature "
                                    f"{e.get('signature_file')} was {s}, now {now_s}")
                                return False
            if st2 == "ok" and not b.get("late"):
                ok_t = _get(fs, f"{PKG}/{kept[-1].get('signature_file')}") if kept else None
                if ok_t != new_text:
                    r.v("signing-reported-success-but-incomplete", f"{note} with {faults}")
                    return False
            if st2 == "exc" and {"/sim/tmp/" + k for k in set(fs.tree("/sim/tmp")) - set(tmp0)} - tried:
                r.v("temporary-files-left", f"{note} with {b.get('tool') or b['faults']}: {sorted(set(fs.tree('/sim/tmp')) - set(tmp0))}")
                return False
            if st2 == "exc" and b.get("tool") and fs.get(MAN) != man0:
                r.v("failed-signing-changed-package", f"{note} with tool {b['tool']}")
                return False
            if self.check_verify(r, w, o, note + " after fault") is None:
                return False
        if o["settle"] == "clean":
            fs.restore_tree(after)
            fs.disarm()
            w.now, w.mono = now, mono
        else:
            st3, v3 = call(op, None)
            if st3 != "ok":
                r.v("signing-impossible-after-fault", f"{note}: {v3!r}")
                return False
            ents = self.entries(fs)
            t = _get(fs, f"{PKG}/{ents[-1].get('signature_file')}")
            self.signed[T.canon(t.decode())] = body
        return True

    def tamper(self, fs, o, first):
        try:
            self.tamper_(fs, o, first)
        except (KeyError, TypeError, IndexError, AttributeError):     # an earlier change took away what this one changes
            self.tamper_(fs, dict(o, how="any"), first)

    def tamper_(self, fs, o, first):
        how = o["how"]
        d = P.load_yaml(fs.get(MAN))
        sigs = d.get("signatures") or []
        dump = lambda **k: fs.put(MAN, P.Y["yaml"].safe_dump(d, **dict(dict(sort_keys=False), **k)))
        pick = sigs[int(o["pick"] * len(sigs))] if sigs else None
        pick2 = sigs[int(o["pick2"] * len(sigs))] if sigs else None
        if how == "value":
            d["version"] = str(d.get("version", "")) + "x" if o["pos"] < 0.7 else d.get("version")
        elif how == "deep":
            d["extra"]["nested"]["n"] += 1
        elif how == "add_key":
            d["added"] = None
        elif how == "del_key":
            d.pop("units", None)
        elif how == "hash":
            h = d["geometry"]["primary"]["hash"]
            d["geometry"]["primary"]["hash"] = h[:-1] + ("0" if h[-1] != "0" else "1")
        elif how == "list_order":
            d["extra"]["list"] = list(reversed(d["extra"]["list"]))
        elif how == "type":
            d["extra"]["nested"]["s"] = 1 if d["extra"]["nested"]["s"] == "1" else "1"
        elif how == "bool_int":
            d["extra"]["nested"]["flag"] = 1 if d["extra"]["nested"]["flag"] is True else True
        elif how == "nested_signatures":
            d["extra"]["signatures"] = d["extra"]["signatures"] + ["z"]
        elif how == "whitespace_value":
            d["name"] = d["name"] + " "
        elif how == "unicode":
            d["description"] = "\u00e9" if d.get("description") != "\u00e9" else "e\u0301"
        elif how == "any":
            mutate(d, o["pick"], o["pick2"], o["pos"])
        elif how == "validation":
            d["validation"]["results"][0]["status"] = "passed"
        elif how == "materials":
            d["materials"]["al"]["visual"]["color"][1] = 0.9
        elif how == "reorder":
            d = dict(reversed(list(d.items())))
        elif how == "restyle":
            fs.put(MAN, P.Y["yaml"].safe_dump(d, default_flow_style=True, width=40))
            return
        elif how == "comment":
            fs.put(MAN, b"# reviewed\n" + fs.get(MAN))
            return
        elif how == "revert":
            f = P.load_yaml(first)
            f["signatures"] = sigs
            d = f
            if not sigs:
                d.pop("signatures")
        elif pick is not None:
            p = f"{PKG}/{pick.get('signature_file')}"
            if how.startswith("sig_") and how != "sig_dir" and _get(fs, p) is None:
                how = "sig_none"
            if how == "sig_flip" and fs.has(p):
                b = bytearray(fs.get(p))
                k = int(o["pos"] * len(b))
                if b:
                    b[min(k, len(b) - 1)] ^= 1
                fs.put(p, bytes(b))
            elif how == "sig_delete" and fs.has(p):
                fs.rm(p)
            elif how == "sig_none":
                return
            elif how == "sig_garbage":
                fs.put(p, "-----BEGIN SSH SIGNATURE-----\nAAAA\n-----END SSH SIGNATURE-----\n")
            elif how == "sig_binary":
                fs.put(p, b"\xff\xfe\x80" + (_get(fs, p) or b""))
            elif how == "sig_dir":
                pick["signature_file"] = "signatures"
                dump()
            elif how == "entry_nofile":
                pick.pop("signature_file", None)
                dump()
            elif how == "sig_empty":
                fs.put(p, "")
            elif how == "sig_swap":
                q = f"{PKG}/{pick2.get('signature_file')}"
                if _get(fs, p) is not None and _get(fs, q) is not None:
                    a, b = fs.get(p), fs.get(q)
                    fs.put(p, b)
                    fs.put(q, a)
            elif how == "entry_dup":
                sigs.append(dict(pick))
                dump()
            elif how == "entry_file_swap":
                a, b = pick.pop("signature_file", None), pick2.pop("signature_file", None)
                pick.update({} if b is None else {"signature_file": b})
                pick2.update({} if a is None else {"signature_file": a})
                dump()
            elif how == "entry_method":
                pick["method"] = {"ssh": "gpg", "gpg": "ssh"}.get(pick.get("method"), "ssh") if o["pos"] < 0.6 else "pigeon"
                dump()
            elif how == "entry_drop":
                sigs.remove(pick)
                dump()
            elif how == "entry_signer":
                pick["signer"] = "Mallory"
                dump()
            return
        dump()


def mutate(d, a, b, c):
    """Change one node of the manifest, chosen by a, in one way, chosen by b."""
    nodes = []

    def walk(x):
        for k in (list(x) if isinstance(x, dict) else range(len(x))):
            if x is d and k == "signatures":
                continue
            nodes.append((x, k))
            if isinstance(x[k], (dict, list)):
                walk(x[k])
    walk(d)
    x, k = nodes[int(a * len(nodes))]
    v = x[k]
    ways = [lambda: x.pop(k)]
    if isinstance(x, dict):
        ways += [lambda: x.__setitem__(str(k) if not isinstance(k, str) else k + "x", x.pop(k))] * 2
    put = lambda new: lambda: x.__setitem__(k, new)
    if isinstance(v, str):
        n = int(c * len(v))
        ways += [put(v[:n] + "~" + v[n + 1:]), put(v.swapcase()), put(v + " "), put("\n" + v), put(v.encode().decode("latin-1")),
                 put(unicodedata.normalize("NFD", v)), put(unicodedata.normalize("NFKC", v)), put(""), put(None), put([v]), put(v * 2)]
    elif isinstance(v, bool) or v is None:
        ways += [put(not v), put(str(v)), put("null"), put(0 if not v else 1), put([])]
    elif isinstance(v, (int, float)):
        ways += [put(v + 1), put(-v), put(str(v)), put(float(v) if isinstance(v, int) else round(v, 6) + 1e-12), put(None), put(v * 10)]
    elif isinstance(v, datetime.date):
        ways += [put(str(v)), put(v.replace(year=v.year + 1)), put(datetime.datetime(v.year, v.month, v.day))]
    elif isinstance(v, list):
        ways += [put(v[::-1]), put(v + v[:1]), put(v[:-1]), put(v[1:]), put(v + [None]), put(tuple(sorted(map(str, v)))), put([])]
    elif isinstance(v, dict):
        ways += [put(dict(v, extra="")), put(list(v.items())), put({str(q): y for q, y in v.items()}), put({}),
                 put(dict(zip(v, list(v.values())[1:] + list(v.values())[:1])))]
    ways[int(b * len(ways))]()


def _get(fs, p):
    try:
        return fs.get(p)
    except OSError:
        return None


CHECK = C05()
