"""Simulated helper programs: gpg, ssh-keygen, ccx (behaviour copied from the real tools)."""
from __future__ import annotations

import base64
import fnmatch
import hashlib
import json

HOME = "/sim/home"


def _mac(secret, content):
    return hashlib.sha256(b"sim-sig:" + secret.encode() + b":" + content).hexdigest()


def _armor(kind, obj):
    b = base64.b64encode(json.dumps(obj, sort_keys=True).encode()).decode()
    lines = "\n".join(b[i:i + 64] for i in range(0, len(b), 64))
    return f"-----BEGIN {kind} SIGNATURE-----\n{lines}\n-----END {kind} SIGNATURE-----\n"


def _dearmor(kind, text):
    a, z = f"-----BEGIN {kind} SIGNATURE-----", f"-----END {kind} SIGNATURE-----"
    t = text.strip()
    if not (t.startswith(a) and t.endswith(z)):
        return None
    try:
        o = json.loads(base64.b64decode("".join(t[len(a):-len(z)].split()), validate=True))
    except Exception:
        return None
    want = ("key", "mac", "ns") if kind == "SSH" else ("key", "mac")
    return o if isinstance(o, dict) and all(isinstance(o.get(k), str) for k in want) else None


def canon(text):
    """Identity of a signature regardless of armour spelling (base64 padding bits, line breaks)."""
    for kind in ("SSH", "PGP"):
        o = _dearmor(kind, text)
        if o is not None:
            return json.dumps(o, sort_keys=True)
    return text


# ------------------------------------------------------------------ ssh
def ssh_key(fs, name, ident, comment):
    fs.put(f"{HOME}/.ssh/{name}", f"SIMKEY {ident} {comment}\n", mode=0o600)
    fs.put(f"{HOME}/.ssh/{name}.pub", f"ssh-ed25519 {ident} {comment}\n")
    return f"{HOME}/.ssh/{name}"


def allowed_line(principals, ident):
    return f"{principals} ssh-ed25519 {ident}\n"


def _match(pattern_list, literal):
    ok = False
    for p in pattern_list.split(","):
        neg = p.startswith("!")
        if fnmatch.fnmatchcase(literal, p[1:] if neg else p):
            if neg:
                return False
            ok = True
    return ok


def make_ssh_keygen(w):
    fs = w.fs

    def allowed(path, ns):
        for line in fs.get(path).decode("utf-8", "replace").splitlines():
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            parts = line.split()
            if len(parts) >= 3:
                yield parts[0], parts[2]

    def run(argv, stdin, cwd, env, tx):
        a = argv[1:]
        opt = {}
        pos = []
        i = 0
        while i < len(a):
            t = a[i]
            if t == "-lf":
                opt["-l"] = True
                opt["-f"] = a[i + 1]
                i += 2
            elif t == "-l":
                opt["-l"] = True
                i += 1
            elif t in ("-Y", "-f", "-n", "-I", "-s", "-O", "-r", "-E"):
                opt[t] = a[i + 1]
                i += 2
            elif t.startswith("-"):
                i += 1
            else:
                pos.append(t)
                i += 1
        if opt.get("-l"):
            try:
                parts = fs.get(opt["-f"]).decode().split(None, 2)
                assert parts[0] in ("SIMKEY", "ssh-ed25519")
            except Exception:
                return 255, b"", b"is not a public key file.\n"
            comment = parts[2].strip() if len(parts) > 2 and parts[2].strip() else "no comment"
            return 0, f"256 SHA256:{parts[1]} {comment} (ED25519)\n".encode(), b""
        y = opt.get("-Y")
        ns = opt.get("-n", "")
        if y == "sign":
            try:
                parts = fs.get(opt["-f"]).decode().split(None, 2)
                assert parts[0] == "SIMKEY"
            except Exception:
                return 255, b"", b"Couldn't load key: invalid format\n"
            content = fs.get(pos[0]) if pos else stdin
            sig = _armor("SSH", {"key": parts[1], "ns": ns, "mac": _mac(f"{parts[1]}/{ns}", content)})
            if tx.get("kind") == "garbage":
                sig = "not a signature\n"
            if pos:
                fs.put(pos[0] + ".sig", sig, durable=False)
                return 0, b"", b"Signing file\n"
            return 0, sig.encode(), b""
        if y in ("verify", "check-novalidate", "find-principals", "match-principals"):
            try:
                sig = _dearmor("SSH", fs.get(opt["-s"]).decode("utf-8", "replace"))
            except OSError as e:
                return 255, b"", f"Couldn't read signature file {opt.get('-s')}: {e}\n".encode()
            if sig is None:
                return 255, b"", (b"Couldn't parse signature: missing header\n"
                                  + (b"Could not verify signature.\n" if y != "find-principals" else b"No principal matched.\n"))
            if y == "find-principals":
                out = []
                for pl, key in allowed(opt["-f"], ns):
                    if key == sig["key"]:
                        out += pl.split(",")
                        break
                if not out:
                    return 255, b"", b"No principal matched.\n"
                return 0, ("\n".join(out) + "\n").encode(), b""
            good = sig["ns"] == ns and sig["mac"] == _mac(f"{sig['key']}/{ns}", stdin)
            if not good:
                return 255, b"Could not verify signature.\n", b"Signature verification failed: incorrect signature\n"
            if y == "check-novalidate":
                return 0, f'Good "{ns}" signature with ED25519 key SHA256:{sig["key"]}\n'.encode(), b""
            try:
                for pl, key in allowed(opt["-f"], ns):
                    if key == sig["key"] and _match(pl, opt.get("-I", "")):
                        return 0, f'Good "{ns}" signature for {opt["-I"]}\n'.encode(), b""
            except OSError:
                return 255, b"", b"Unable to open allowed keys file\n"
            return 255, b"Could not verify signature.\n", b""
        return 1, b"", b"usage: ssh-keygen\n"
    return run


# ------------------------------------------------------------------ gpg
def gpg_home(fs, keys, path=None):
    """keys: list of {"id","uid","secret"}"""
    fs.put(path or f"{HOME}/.gnupg/keys.json", json.dumps(keys))


def make_gpg(w):
    fs = w.fs

    def ring(paths):
        out = []
        for p in paths:
            try:
                out += json.loads(fs.get(p))
            except (OSError, ValueError):
                pass
        return out

    def run(argv, stdin, cwd, env, tx):
        a = argv[1:]
        flags, pos, i = {}, [], 0
        keyrings = [f"{HOME}/.gnupg/keys.json"]
        valued = {"--local-user", "-u", "--keyring", "--output", "-o", "--status-fd", "--homedir",
                  "--trust-model", "--default-key"}
        while i < len(a):
            t = a[i]
            if t.startswith("-") and t != "-" and not pos:
                if t in valued:
                    if t == "--keyring":
                        keyrings.append(a[i + 1])
                    flags[t] = a[i + 1]
                    i += 2
                    continue
                if "=" in t and t.split("=")[0] in valued:
                    k, v = t.split("=", 1)
                    flags[k] = v
                    if k == "--keyring":
                        keyrings.append(v)
                    i += 1
                    continue
                if t == "--no-default-keyring":
                    keyrings = [k for k in keyrings if not k.endswith(".gnupg/keys.json")]
                flags[t] = True
                i += 1
                continue
            pos.append(t)
            i += 1

        def find(spec, keys):
            for k in keys:
                if not spec or spec in k["id"] or spec.lower() in k["uid"].lower():
                    return k
            return None
        if "--list-keys" in flags or "-k" in flags:
            spec = pos[0] if pos else None
            if spec == "":
                return 2, b"", b"gpg: error reading key: Invalid user ID\n"
            k = find(spec, ring(keyrings))
            if k is None:
                return 2, b"", b"gpg: error reading key: No public key\n"
            out = (f"tru::1:1:0:3:1:5\npub:u:255:22:{k['id']}:1:2::u:::scESC:::::ed25519:::0:\n"
                   f"fpr:::::::::FFFF{k['id']}:\nuid:u::::1::ABCD::{k['uid']}::::::::::0:\n")
            return 0, out.encode(), b""
        if "--detach-sign" in flags or "-b" in flags:
            k = find(flags.get("--local-user") or flags.get("-u"),
                     [x for x in ring(keyrings[:1]) if x.get("secret")])
            if k is None:
                return 2, b"", b"gpg: signing failed: No secret key\n"
            content = fs.get(pos[0]) if pos else stdin
            sig = _armor("PGP", {"key": k["id"], "mac": _mac(k["id"], content)})
            if tx.get("kind") == "garbage":
                sig = "not a signature\n"
            out = flags.get("--output") or flags.get("-o")
            if out:
                fs.put(out, sig, durable=False)
                return 0, b"", b""
            if pos:
                fs.put(pos[0] + ".asc", sig, durable=False)
                return 0, b"", b""
            return 0, sig.encode(), b""
        if "--verify" in flags:
            try:
                sig = _dearmor("PGP", fs.get(pos[0]).decode("utf-8", "replace"))
                if len(pos) > 2:
                    return 2, b"", b"gpg: can't open signed data '" + pos[2].encode() + b"'\n"
                content = fs.get(pos[1]) if len(pos) > 1 and pos[1] != "-" else stdin
            except (OSError, IndexError) as e:
                return 2, b"", f"gpg: can't open: {e}\n".encode()
            if sig is None:
                return 2, b"", b"gpg: no valid OpenPGP data found.\ngpg: the signature could not be verified.\n"
            head = f"gpg: Signature made\ngpg:                using EDDSA key {sig['key']}\n"
            k = next((x for x in ring(keyrings) if x["id"] == sig["key"]), None)
            if k is None:
                return 2, b"", (head + "gpg: Can't check signature: No public key\n").encode()
            if sig["mac"] != _mac(sig["key"], content):
                return 1, b"", (head + f'gpg: BAD signature from "{k["uid"]}" [unknown]\n').encode()
            return 0, b"", (head + f'gpg: Good signature from "{k["uid"]}" [unknown]\n').encode()
        return 2, b"", b"gpg: no command\n"
    return run


def sig_key_of(text):
    """(kind, key id) a signature text was made by, or None."""
    for kind in ("SSH", "PGP"):
        o = _dearmor(kind, text)
        if o is not None:
            return kind, o["key"]
    return None


def sig_good(text, content, ns="ycpkg"):
    """Did some key really sign this content (reference judgement)?"""
    o = _dearmor("SSH", text)
    if o is not None:
        return o["ns"] == ns and o["mac"] == _mac(f"{o['key']}/{ns}", content)
    o = _dearmor("PGP", text)
    if o is not None:
        return o["mac"] == _mac(o["key"], content)
    return False


# ------------------------------------------------------------------ ccx
def make_ccx(w, script):
    """script: mutable dict {"disp": float, "mode": "ok|nodat|truncated|garbage"}"""
    fs = w.fs

    def run(argv, stdin, cwd, env, tx):
        base = argv[-1]
        d = str(cwd) if cwd is not None else (fs.cwd or "/sim")
        inp = f"{d}/{base}.inp"
        if not fs.has(inp):
            return 201, b"", b"*ERROR in openfile: could not open input\n"
        script.setdefault("seen_inp", []).append(fs.get(inp))
        mode = script.get("mode", "ok")
        if mode == "nodat":
            return 0, b" Job finished\n", b""
        v = script["disp"]
        lines = [" displacements (vx,vy,vz) for set N_INNER and time  0.1000000E+01\n\n"]
        for i in range(1, 4):
            lines.append(f"  {i:8d}  1.000000E-04 {-v * i / 3.0: .6E}  0.000000E+00\n")
        if mode == "empty":
            lines = [""]
        fs.put(f"{d}/{base}.dat", "".join(lines), durable=False)
        fs.put(f"{d}/{base}.frd", "frd\n", durable=False)
        fs.put(f"{d}/{base}.sta", "sta\n", durable=False)
        if mode == "rc":
            return script.get("rc", 1), b"", b"*ERROR\n"
        return 0, b" Job finished\n", b""
    return run
