"""Deterministic in-memory filesystem mounted at a virtual prefix.

Everything Python code does to paths below ``/sim`` is served from memory by
patched ``os`` / ``io`` / ``builtins`` entry points; nothing below the prefix
exists on the real disk.  Every mutating or reading call is one numbered
operation, and a fault plan can make any numbered operation fail, be short, be
torn, or be the last thing the process ever does (crash).

Two restart models are provided after a crash:

* ``kill``  - the process died, the kernel survived: everything handed to the
  kernel is there, user-space buffers are lost.
* ``power`` - power loss: data that was not fsynced may be old, missing or
  torn, and directory operations that were not forced may not have happened
  (they survive in order, as a journalled filesystem would keep them).

Mutations aimed at real paths while a simulation is active never reach the
disk: they are recorded as escapes and refused.
"""
from __future__ import annotations

import builtins
import errno
import io
import os
import random
import stat as _stat
import threading

PREFIX = "/sim"
FD_BASE = 1_000_000


class SimCrash(BaseException):
    """The simulated process died here."""


class SimEscape(PermissionError):
    """Code under test tried to change the real filesystem."""


def _oserr(code, path=None, path2=None):
    if path2 is not None:
        return OSError(code, os.strerror(code), path, None, path2)
    if path is None:
        return OSError(code, os.strerror(code))
    return OSError(code, os.strerror(code), path)


class Node:
    __slots__ = ("ino", "kind", "data", "durable", "ever_synced", "entries",
                 "target", "mode", "mtime_ns", "nlink")

    def __init__(self, ino, kind, mode, mtime_ns):
        self.ino = ino
        self.kind = kind            # 'f', 'd', 'l'
        self.data = bytearray() if kind == "f" else None
        self.durable = b"" if kind == "f" else None
        self.ever_synced = False
        self.entries = {} if kind == "d" else None
        self.target = None
        self.mode = mode
        self.mtime_ns = mtime_ns
        self.nlink = 1


FAULT_KINDS = {
    # kind: applies to operation classes
    "crash": None,              # any operation: die before it happens
    "crash_after": None,        # any operation: die after it happened
    "torn_crash": {"write"},    # die with only part of this write done
    "eio": {"open", "read", "write", "stat", "fsync", "rename", "unlink", "mkdir",
            "listdir", "close", "truncate", "utime", "chmod"},
    "eio_write": {"write", "fsync"},
    "eio_read": {"read"},
    "enospc": {"write", "mkdir", "create"},
    "eacces": {"open", "create", "mkdir", "unlink", "rename"},
    "emfile": {"open", "create"},
    "close_eio": {"close"},
    "short_write": {"write"},
}

_ERRNO = {"eio": errno.EIO, "eio_write": errno.EIO, "eio_read": errno.EIO,
          "enospc": errno.ENOSPC, "eacces": errno.EACCES, "emfile": errno.EMFILE,
          "close_eio": errno.EIO}


class SimFS:
    def __init__(self, clock=None, on_op=None):
        self.clock = clock or (lambda: 1_700_000_000.0)
        self.on_op = on_op
        self._ino = 1
        self.root = self._new("d", 0o755)       # node for PREFIX
        self.fds = {}
        self._next_fd = FD_BASE
        self.cwd = None                          # virtual cwd or None
        self.reset_faults()
        self.fired = {}
        self.escapes = []
        self.dirlog = []                         # pending directory ops
        self.frozen = False
        self.op_count_total = 0
        self.log = []
        self.capacity = None
        self.mtime_granularity_ns = 1
        self.quiet = 0
        self.thread_ids = None

    # ------------------------------------------------------------ plumbing
    def _new(self, kind, mode):
        n = Node(self._ino, kind, mode, self._now_ns())
        self._ino += 1
        return n

    def _now_ns(self):
        ns = int(round(self.clock() * 1e9))
        g = getattr(self, "mtime_granularity_ns", 1)
        return ns - ns % g

    def reset_faults(self):
        self.faults = []
        self.ops = 0
        self.disk_full = False

    def arm(self, faults):
        """faults: list of {"at": n, "kind": k, "cut": f?}; counts from now."""
        self.faults = [dict(f) for f in faults]
        self.ops = 0

    def disarm(self):
        self.faults = []
        self.disk_full = False

    def _fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def _op(self, cls, path):
        """Account one operation; returns a fault dict that the caller must honour."""
        if self.quiet:
            return None
        if self.frozen:
            raise SimCrash()
        n = self.ops
        self.ops += 1
        self.op_count_total += 1
        self.log.append(f"{cls} {path}")
        if self.on_op is not None:
            self.on_op(cls, path)
            if self.frozen:
                raise SimCrash()
        if self.disk_full and cls in ("write", "mkdir", "create"):
            self._fire("disk_full")
            raise _oserr(errno.ENOSPC, path)
        for f in self.faults:
            if f.get("done"):
                continue
            m = f.get("match")
            if m is not None:
                if m not in path:
                    continue
            if "seen" in f or m is not None:
                f["seen"] = f.get("seen", -1) + 1
                idx = f["seen"]
            else:
                idx = n
            if idx < f["at"]:
                continue
            kind = f["kind"]
            applies = FAULT_KINDS.get(kind)
            if kind == "disk_full":
                f["done"] = True
                self.disk_full = True
                if cls in ("write", "mkdir", "create"):
                    self._fire("disk_full")
                    raise _oserr(errno.ENOSPC, path)
                continue
            if applies is not None and cls not in applies:
                continue                # waits for the next eligible operation
            f["done"] = True
            if kind == "crash":
                if not f.get("quiet_count"):
                    self._fire(kind)
                self.crash()
            if kind in ("crash_after", "torn_crash", "short_write"):
                self._fire(kind)
                if kind == "crash_after":      # if the operation itself has no "after" hook
                    self.faults.append({"at": n + 1, "kind": "crash", "quiet_count": True})
                return f
            self._fire(kind)
            raise _oserr(_ERRNO[kind], path)
        return None

    def crash(self):
        self.frozen = True
        raise SimCrash()

    def _post(self, fault):
        if fault is not None and fault["kind"] == "crash_after":
            self.crash()

    # ------------------------------------------------------------ paths
    def norm(self, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/") and self.cwd is not None:
            p = self.cwd + "/" + p
        return p

    def owns(self, path):
        if isinstance(path, int):
            return path >= FD_BASE
        try:
            p = self.norm(path)
        except TypeError:
            return False
        if not p.startswith("/"):
            return False
        q = os.path.normpath(p)
        return q == PREFIX or q.startswith(PREFIX + "/")

    def _split(self, path):
        p = self.norm(path)
        if "\0" in p:
            raise ValueError("embedded null byte")
        return [c for c in p.split("/") if c not in ("", ".")]

    def _walk(self, path, follow_last=True, want_parent=False, _depth=0):
        """Return node, or (parent, name, node|None) if want_parent."""
        if _depth > 20:
            raise _oserr(errno.ELOOP, str(path))
        parts = self._split(path)
        p0 = self.norm(path)
        # the leading component(s) before the prefix: resolve '..' lexically there
        lead = os.path.normpath(p0)
        if not (lead == PREFIX or lead.startswith(PREFIX + "/")):
            raise _oserr(errno.ENOENT, p0)
        pre = PREFIX.strip("/").split("/")
        # walk with a stack so that '..' works on resolved directories
        stack = []
        node = None
        i = 0
        virtual = []      # components above/at prefix
        cur = []          # list of (name,node) below prefix
        inside = False
        n = len(parts)
        while i < n:
            c = parts[i]
            last = i == n - 1
            if not inside:
                if c == "..":
                    if virtual:
                        virtual.pop()
                else:
                    virtual.append(c)
                if virtual == pre:
                    inside = True
                    cur = [("", self.root)]
                i += 1
                continue
            here = cur[-1][1]
            if c == "..":
                if len(cur) > 1:
                    cur.pop()
                else:
                    inside = False
                    virtual = pre[:-1]
                i += 1
                continue
            if here.kind != "d":
                raise _oserr(errno.ENOTDIR, p0)
            if len(c.encode("utf-8", "surrogateescape")) > 255:
                raise _oserr(errno.ENAMETOOLONG, p0)
            nxt = here.entries.get(c)
            if nxt is None:
                if last and want_parent:
                    return here, c, None
                raise _oserr(errno.ENOENT, p0)
            if nxt.kind == "l" and (not last or follow_last):
                base = PREFIX + "".join("/" + nm for nm, _ in cur[1:])
                tgt = nxt.target if nxt.target.startswith("/") else base + "/" + nxt.target
                rest = "/".join(parts[i + 1:])
                return self._walk(tgt + ("/" + rest if rest else ""), follow_last,
                                  want_parent, _depth + 1)
            if last and want_parent:
                return here, c, nxt
            cur.append((c, nxt))
            i += 1
        if not inside:
            raise _oserr(errno.ENOENT, p0)
        node = cur[-1][1]
        if want_parent:
            if len(cur) == 1:
                return self.root, "", self.root
            return cur[-2][1], cur[-1][0], node
        return node

    # ------------------------------------------------------------ raw (unfaulted) helpers
    def put(self, path, data, mode=0o644, durable=True):
        """Create/replace a file without faults (harness use)."""
        if isinstance(data, str):
            data = data.encode()
        d, name = os.path.split(os.path.normpath(str(path)))
        self.mkdirs(d)
        parent, nm, node = self._walk(str(path), want_parent=True)
        if node is None:
            node = self._new("f", mode)
            parent.entries[nm] = node
        node.data = bytearray(data)
        node.mtime_ns = self._now_ns()
        node.mode = mode
        if durable:
            node.durable = bytes(data)
            node.ever_synced = True
        return node

    def get(self, path):
        n = self._walk(str(path))
        if n.kind != "f":
            raise _oserr(errno.EISDIR, str(path))
        return bytes(n.data)

    def has(self, path):
        try:
            self._walk(str(path))
            return True
        except OSError:
            return False

    def rm(self, path):
        parent, nm, node = self._walk(str(path), follow_last=False, want_parent=True)
        if node is not None and nm:
            del parent.entries[nm]

    def mkdirs(self, path):
        q = os.path.normpath(str(path))
        assert q == PREFIX or q.startswith(PREFIX + "/"), q
        node = self.root
        for c in [c for c in q[len(PREFIX):].split("/") if c]:
            nxt = node.entries.get(c)
            if nxt is None:
                nxt = self._new("d", 0o755)
                node.entries[c] = nxt
            node = nxt
        return node

    def tree(self, path=PREFIX, node=None):
        """{relative path: bytes|None(dir)} of everything below path."""
        if node is None:
            try:
                node = self._walk(str(path))
            except OSError:
                return {}
        out = {}

        def rec(nd, pre):
            for k in sorted(nd.entries):
                c = nd.entries[k]
                p = f"{pre}/{k}" if pre else k
                if c.kind == "d":
                    out[p + "/"] = None
                    rec(c, p)
                elif c.kind == "f":
                    out[p] = bytes(c.data)
                else:
                    out[p] = ("->", c.target)
        if node.kind == "d":
            rec(node, "")
        return out

    def files(self, path=PREFIX):
        return {k: v for k, v in self.tree(path).items() if isinstance(v, bytes)}

    def sync_all(self):
        seen = set()

        def rec(nd):
            if nd.ino in seen:
                return
            seen.add(nd.ino)
            if nd.kind == "f":
                nd.durable = bytes(nd.data)
                nd.ever_synced = True
            elif nd.kind == "d":
                for c in nd.entries.values():
                    rec(c)
        rec(self.root)
        self.dirlog = []

    def clone_tree(self):
        def rec(nd):
            m = Node(nd.ino, nd.kind, nd.mode, nd.mtime_ns)
            m.target = nd.target
            m.nlink = nd.nlink
            m.ever_synced = nd.ever_synced
            if nd.kind == "f":
                m.data = bytearray(nd.data)
                m.durable = nd.durable
            elif nd.kind == "d":
                m.entries = {k: rec(v) for k, v in nd.entries.items()}
            return m
        return rec(self.root)

    def restore_tree(self, root):
        self.root = root
        self.fds = {}
        self.dirlog = []

    # ------------------------------------------------------------ restart
    def restart(self, model, rng):
        """Bring the machine back after a crash; returns description."""
        self.frozen = False
        self.fds = {}
        self.reset_faults()
        note = model
        if model == "power":
            # directory operations: keep an ordered prefix (renames are one unit)
            total = len(self.dirlog)
            keep = rng.randint(0, total) if total else 0
            undone = self.dirlog[keep:]
            for e in reversed(undone):
                _undo(e)
            torn = 0
            seen = set()

            def rec(nd):
                nonlocal torn
                if nd.ino in seen:
                    return
                seen.add(nd.ino)
                if nd.kind == "f":
                    if bytes(nd.data) != nd.durable or not nd.ever_synced:
                        c = rng.random()
                        cur = bytes(nd.data)
                        if c < 0.3:
                            nd.data = bytearray(nd.durable)
                        elif c < 0.6:
                            pass
                        elif c < 0.85:
                            cut = rng.randint(0, len(cur))
                            nd.data = bytearray(cur[:cut])
                        else:
                            cut = rng.randint(0, len(cur))
                            nd.data = bytearray(cur[:cut] + b"\0" * (len(cur) - cut))
                        if bytes(nd.data) != cur:
                            torn += 1
                elif nd.kind == "d":
                    for k in sorted(nd.entries):
                        rec(nd.entries[k])
            rec(self.root)
            if torn:
                self._fire("power_lost_data")
            if undone:
                self._fire("power_lost_dirop")
            note = f"power kept={keep}/{total} torn={torn}"
        self.sync_all()
        return note

    def _dirset(self, parent, name, new):
        old = parent.entries.get(name)
        self.dirlog.append((parent, name, old, new))
        if new is None:
            parent.entries.pop(name, None)
        else:
            parent.entries[name] = new
        parent.mtime_ns = self._now_ns()

    # ------------------------------------------------------------ os.* calls
    def _path_of(self, p, dir_fd=None):
        if dir_fd is not None and not os.path.isabs(os.fspath(p)):
            raise NotImplementedError("dir_fd")
        return self.norm(p)

    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return self.fstat(path)
        p = self._path_of(path, dir_fd)
        self._op("stat", p)
        return self._st(self._walk(p, follow_last=follow_symlinks))

    def lstat(self, path, *, dir_fd=None):
        p = self._path_of(path, dir_fd)
        self._op("stat", p)
        return self._st(self._walk(p, follow_last=False))

    def _st(self, n):
        fmt = {"f": _stat.S_IFREG, "d": _stat.S_IFDIR, "l": _stat.S_IFLNK}[n.kind]
        size = len(n.data) if n.kind == "f" else (len(n.target) if n.kind == "l" else 4096)
        s = n.mtime_ns // 10**9
        mt = n.mtime_ns / 1e9
        return os.stat_result((fmt | n.mode, n.ino, 77, n.nlink, os.getuid(), os.getgid(),
                               size, s, s, s),
                              {"st_atime": mt, "st_mtime": mt, "st_ctime": mt,
                               "st_atime_ns": n.mtime_ns, "st_mtime_ns": n.mtime_ns,
                               "st_ctime_ns": n.mtime_ns, "st_blksize": 4096,
                               "st_blocks": (size + 511) // 512, "st_rdev": 0})

    def fstat(self, fd):
        return self._st(self._fd(fd).node)

    def access(self, path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
        p = self._path_of(path, dir_fd)
        self._op("stat", p)
        try:
            n = self._walk(p, follow_last=follow_symlinks)
        except OSError:
            return False
        if mode & os.X_OK and n.kind == "f" and not n.mode & 0o111:
            return False
        if mode & os.R_OK and n.kind == "f" and not n.mode & 0o444:
            return False
        if mode & os.W_OK and not n.mode & 0o222:
            return False
        return True

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        p = self._path_of(path, dir_fd)
        f = self._op("mkdir", p)
        parent, nm, node = self._walk(p, want_parent=True, follow_last=False)
        if node is not None or not nm:
            raise _oserr(errno.EEXIST, p)
        self._dirset(parent, nm, self._new("d", mode & 0o755))
        self._post(f)

    def rmdir(self, path, *, dir_fd=None):
        p = self._path_of(path, dir_fd)
        f = self._op("unlink", p)
        parent, nm, node = self._walk(p, want_parent=True, follow_last=False)
        if node is None:
            raise _oserr(errno.ENOENT, p)
        if node.kind != "d":
            raise _oserr(errno.ENOTDIR, p)
        if node.entries:
            raise _oserr(errno.ENOTEMPTY, p)
        self._dirset(parent, nm, None)
        self._post(f)

    def unlink(self, path, *, dir_fd=None):
        p = self._path_of(path, dir_fd)
        f = self._op("unlink", p)
        parent, nm, node = self._walk(p, want_parent=True, follow_last=False)
        if node is None:
            raise _oserr(errno.ENOENT, p)
        if node.kind == "d":
            raise _oserr(errno.EISDIR, p)
        self._dirset(parent, nm, None)
        node.nlink -= 1
        self._post(f)

    def rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        s, d = self.norm(src), self.norm(dst)
        f = self._op("rename", d)
        sp, sn, snode = self._walk(s, want_parent=True, follow_last=False)
        if snode is None:
            raise _oserr(errno.ENOENT, s, d)
        dp, dn, dnode = self._walk(d, want_parent=True, follow_last=False)
        if dnode is not None and dnode is not snode:
            if dnode.kind == "d" and snode.kind != "d":
                raise _oserr(errno.EISDIR, s, d)
            if snode.kind == "d" and dnode.kind != "d":
                raise _oserr(errno.ENOTDIR, s, d)
            if dnode.kind == "d" and dnode.entries:
                raise _oserr(errno.ENOTEMPTY, s, d)
        if dnode is snode:
            return
        # one atomic journal record pair: treat as two entries kept together
        old_s, old_d = sp.entries.get(sn), dp.entries.get(dn)
        self.dirlog.append(_Rename(sp, sn, dp, dn, old_s, old_d))
        sp.entries.pop(sn, None)
        dp.entries[dn] = snode
        self._post(f)

    replace = rename

    def link(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
        s, d = self.norm(src), self.norm(dst)
        f = self._op("create", d)
        snode = self._walk(s)
        dp, dn, dnode = self._walk(d, want_parent=True, follow_last=False)
        if dnode is not None:
            raise _oserr(errno.EEXIST, s, d)
        self._dirset(dp, dn, snode)
        snode.nlink += 1
        self._post(f)

    def symlink(self, src, dst, target_is_directory=False, *, dir_fd=None):
        d = self.norm(dst)
        f = self._op("create", d)
        dp, dn, dnode = self._walk(d, want_parent=True, follow_last=False)
        if dnode is not None:
            raise _oserr(errno.EEXIST, d)
        n = self._new("l", 0o777)
        n.target = os.fspath(src)
        self._dirset(dp, dn, n)
        self._post(f)

    def readlink(self, path, *, dir_fd=None):
        n = self._walk(self.norm(path), follow_last=False)
        if n.kind != "l":
            raise _oserr(errno.EINVAL, self.norm(path))
        return n.target

    def listdir(self, path="."):
        p = self.norm(path)
        self._op("listdir", p)
        n = self._walk(p)
        if n.kind != "d":
            raise _oserr(errno.ENOTDIR, p)
        return self._order(list(n.entries))

    # directory order is unspecified by POSIX; the simulator picks one
    dir_order_seed = 0

    def _order(self, names):
        names = sorted(names)
        if self.dir_order_seed:
            random.Random(f"{self.dir_order_seed}:{len(names)}").shuffle(names)
        return names

    def scandir(self, path="."):
        if path is None:
            path = "."
        p = self.norm(path)
        self._op("listdir", p)
        n = self._walk(p)
        if n.kind != "d":
            raise _oserr(errno.ENOTDIR, p)
        return _ScanIter([_DirEntry(self, os.fspath(path), k, n.entries[k])
                          for k in self._order(list(n.entries))])

    def utime(self, path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            n = self._fd(path).node
        else:
            p = self.norm(path)
            self._op("utime", p)
            n = self._walk(p)
        if ns is not None:
            n.mtime_ns = ns[1]
        elif times is not None:
            n.mtime_ns = int(times[1] * 1e9)
        else:
            n.mtime_ns = self._now_ns()

    def chmod(self, path, mode, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            self._fd(path).node.mode = mode & 0o7777
            return
        p = self.norm(path)
        self._op("chmod", p)
        self._walk(p).mode = mode & 0o7777

    def chown(self, path, uid, gid, **kw):
        return None

    def truncate(self, path, length):
        if isinstance(path, int):
            return self.ftruncate(path, length)
        p = self.norm(path)
        f = self._op("truncate", p)
        n = self._walk(p)
        _resize(n, length)
        self._post(f)

    # ------------------------------------------------------------ fds
    def _fd(self, fd):
        h = self.fds.get(fd)
        if h is None:
            raise _oserr(errno.EBADF)
        return h

    def open_fd(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self._path_of(path, dir_fd)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        creat = bool(flags & os.O_CREAT)
        f = self._op("create" if creat else "open", p)
        try:
            parent, nm, node = self._walk(
                p, want_parent=True,
                follow_last=not (creat and flags & os.O_EXCL))
        except OSError:
            raise
        if p.endswith("/") and node is not None and node.kind != "d":
            raise _oserr(errno.ENOTDIR, p)
        if node is None:
            if not creat:
                raise _oserr(errno.ENOENT, p)
            node = self._new("f", mode & 0o777)
            self._dirset(parent, nm, node)
        else:
            if creat and flags & os.O_EXCL:
                raise _oserr(errno.EEXIST, p)
            if node.kind == "d" and acc != os.O_RDONLY:
                raise _oserr(errno.EISDIR, p)
            if acc != os.O_RDONLY and not node.mode & 0o222:
                raise _oserr(errno.EACCES, p)
            if node.kind == "f" and acc != os.O_WRONLY and not node.mode & 0o444:
                raise _oserr(errno.EACCES, p)
            if flags & os.O_TRUNC and node.kind == "f" and acc != os.O_RDONLY:
                node.data = bytearray()
                node.mtime_ns = self._now_ns()
        fd = self._next_fd
        self._next_fd += 1
        self.fds[fd] = _Handle(node, p, acc, bool(flags & os.O_APPEND))
        self._post(f)
        return fd

    def close_fd(self, fd):
        if self.frozen:
            self.fds.pop(fd, None)
            return
        h = self._fd(fd)
        try:
            f = None
            if h.acc != os.O_RDONLY and not self.quiet:
                f = self._op("close", h.path)
        finally:
            self.fds.pop(fd, None)
        self._post(f)

    def read_fd(self, fd, n):
        h = self._fd(fd)
        if h.node.kind == "d":
            raise _oserr(errno.EISDIR, h.path)
        if h.acc == os.O_WRONLY:
            raise _oserr(errno.EBADF)
        self._op("read", h.path)
        b = bytes(h.node.data[h.pos:h.pos + n])
        h.pos += len(b)
        return b

    def write_fd(self, fd, b):
        if self.frozen:
            return len(b)
        h = self._fd(fd)
        if h.acc == os.O_RDONLY:
            raise _oserr(errno.EBADF)
        b = bytes(b)
        f = self._op("write", h.path)
        if self.capacity is not None:
            used = sum(len(v) for v in self.files().values())
            room = max(0, self.capacity - used)
            if len(b) > room:
                if room == 0:
                    self._fire("capacity_enospc")
                    raise _oserr(errno.ENOSPC, h.path)
                self._fire("capacity_short")
                b = b[:room]
        if f is not None and f["kind"] in ("torn_crash", "short_write"):
            k = int(len(b) * f.get("cut", 0.5))
            if f["kind"] == "short_write":
                k = max(1, min(k, len(b) - 1)) if len(b) > 1 else len(b)
            self._do_write(h, b[:k])
            if f["kind"] == "torn_crash":
                self.crash()
            return k
        self._do_write(h, b)
        self._post(f)
        return len(b)

    def _do_write(self, h, b):
        d = h.node.data
        if h.append:
            h.pos = len(d)
        if h.pos > len(d):
            d.extend(b"\0" * (h.pos - len(d)))
        d[h.pos:h.pos + len(b)] = b
        h.pos += len(b)
        h.node.mtime_ns = self._now_ns()

    def lseek(self, fd, off, how):
        h = self._fd(fd)
        if how == 0:
            h.pos = off
        elif how == 1:
            h.pos += off
        else:
            h.pos = len(h.node.data) + off
        if h.pos < 0:
            h.pos = 0
            raise _oserr(errno.EINVAL)
        return h.pos

    def ftruncate(self, fd, length):
        h = self._fd(fd)
        f = self._op("truncate", h.path)
        _resize(h.node, length)
        h.node.mtime_ns = self._now_ns()
        self._post(f)

    def fsync(self, fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        h = self._fd(fd)
        f = self._op("fsync", h.path)
        if h.node.kind == "f":
            h.node.durable = bytes(h.node.data)
            h.node.ever_synced = True
        elif h.node.kind == "d":
            self.dirlog = []          # journal commit
        self._post(f)

    def dup(self, fd):
        h = self._fd(fd)
        nfd = self._next_fd
        self._next_fd += 1
        self.fds[nfd] = h
        return nfd

    # ------------------------------------------------------------ open()
    def open_file(self, file, mode="r", buffering=-1, encoding=None, errors=None,
                  newline=None, closefd=True, opener=None):
        modes = set(mode)
        if modes - set("axrwb+t") or len(mode) > len(modes):
            raise ValueError(f"invalid mode: {mode!r}")
        creating, reading, writing, appending = ("x" in modes, "r" in modes, "w" in modes, "a" in modes)
        updating, text, binary = "+" in modes, "t" in modes, "b" in modes
        if creating + reading + writing + appending != 1:
            raise ValueError("must have exactly one of create/read/write/append mode")
        if text and binary:
            raise ValueError("can't have text and binary mode at once")
        if binary and (encoding is not None or errors is not None or newline is not None):
            raise ValueError("binary mode doesn't take an encoding/errors/newline argument")
        flags = os.O_RDWR if updating else (os.O_RDONLY if reading else os.O_WRONLY)
        if creating:
            flags |= os.O_CREAT | os.O_EXCL
        elif writing:
            flags |= os.O_CREAT | os.O_TRUNC
        elif appending:
            flags |= os.O_CREAT | os.O_APPEND
        if isinstance(file, int):
            fd = file
            name = file
        else:
            name = file
            if opener is not None:
                fd = opener(file, flags | getattr(os, "O_CLOEXEC", 0))
            else:
                fd = self.open_fd(file, flags, 0o666)
            h = self._fd(fd)
            if h.node.kind == "d":
                self.fds.pop(fd, None)
                raise _oserr(errno.EISDIR, self.norm(file))
        raw = SimRaw(self, fd, name, reading or updating, not reading or updating,
                     closefd, appending,
                     ("ab" if appending else "xb" if creating else "rb+" if updating and not writing
                      else "wb" if writing else "rb"))
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = 8192 if buffering in (-1, 1) else buffering
        if updating:
            buf = io.BufferedRandom(raw, size)
        elif not reading:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        tw = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
        tw.mode = mode
        return tw


def _resize(n, length):
    d = n.data
    if length < len(d):
        del d[length:]
    else:
        d.extend(b"\0" * (length - len(d)))


class _Rename(tuple):
    """Journal entry for a rename, undone as a unit."""
    def __new__(cls, sp, sn, dp, dn, old_s, old_d):
        return tuple.__new__(cls, (sp, sn, dp, dn, old_s, old_d))


def _undo(entry):
    if isinstance(entry, _Rename):
        sp, sn, dp, dn, old_s, old_d = entry
        if old_d is None:
            dp.entries.pop(dn, None)
        else:
            dp.entries[dn] = old_d
        if old_s is not None:
            sp.entries[sn] = old_s
    else:
        parent, name, old, new = entry
        if old is None:
            parent.entries.pop(name, None)
        else:
            parent.entries[name] = old


class _Handle:
    __slots__ = ("node", "path", "acc", "append", "pos")

    def __init__(self, node, path, acc, append):
        self.node, self.path, self.acc, self.append, self.pos = node, path, acc, append, 0


class _DirEntry(os.PathLike):
    def __init__(self, fs, base, name, node):
        self._fs, self.name, self._n = fs, name, node
        self.path = os.path.join(base, name)

    def __fspath__(self):
        return self.path

    def _res(self, follow):
        if follow and self._n.kind == "l":
            try:
                return self._fs._walk(self.path)
            except OSError:
                return None
        return self._n

    def is_dir(self, *, follow_symlinks=True):
        n = self._res(follow_symlinks)
        return n is not None and n.kind == "d"

    def is_file(self, *, follow_symlinks=True):
        n = self._res(follow_symlinks)
        return n is not None and n.kind == "f"

    def is_symlink(self):
        return self._n.kind == "l"

    def is_junction(self):
        return False

    def inode(self):
        return self._n.ino

    def stat(self, *, follow_symlinks=True):
        n = self._res(follow_symlinks)
        if n is None:
            raise _oserr(errno.ENOENT, self.path)
        return self._fs._st(n)


class _ScanIter:
    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


class SimRaw(io.RawIOBase):
    def __init__(self, fs, fd, name, readable, writable, closefd, append, mode):
        self._fs, self._fd_, self.name = fs, fd, name
        self._r, self._w, self._closefd = readable, writable, closefd
        self.mode = mode
        self.closefd = closefd
        if append:
            h = fs.fds.get(fd)
            if h is not None:
                h.pos = len(h.node.data)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd_

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        data = self._fs.read_fd(self._fd_, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        return self._fs.write_fd(self._fd_, b)

    def seek(self, off, how=0):
        if self._fs.frozen:
            return 0
        return self._fs.lseek(self._fd_, off, how)

    def tell(self):
        if self._fs.frozen:
            return 0
        return self._fs.lseek(self._fd_, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._fs.ftruncate(self._fd_, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._closefd:
                fd, self._closefd = self._fd_, False
                if fd in self._fs.fds or not self._fs.frozen:
                    try:
                        self._fs.close_fd(fd)
                    except OSError as e:
                        if e.errno == errno.EBADF and fd not in self._fs.fds:
                            pass
                        else:
                            raise

    def __del__(self):
        try:
            if not self.closed:
                self._fs.quiet += 1
                try:
                    self.close()
                finally:
                    self._fs.quiet -= 1
        except BaseException:
            pass


# ---------------------------------------------------------------- patching
class Mount:
    """Install a SimFS behind the process's filesystem entry points."""

    def __init__(self, fs, allow_real_writes=("/dev/null", "/dev/tty", "/dev/stdout", "/dev/stderr")):
        self.fs = fs
        self.allow = tuple(allow_real_writes)
        self.saved = []

    def _set(self, obj, name, val):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def _refuse(self, what, path):
        p = str(path)
        self.fs.escapes.append(f"{what} {p}")
        raise SimEscape(errno.EACCES, "refused by simulator", p)

    def __enter__(self):
        fs = self.fs
        import shutil
        import tempfile
        real = {n: getattr(os, n) for n in (
            "stat", "lstat", "mkdir", "rmdir", "unlink", "remove", "rename", "replace",
            "listdir", "scandir", "utime", "chmod", "chown", "truncate", "access", "readlink",
            "symlink", "link", "open", "close", "read", "write", "fsync", "fdatasync", "fstat",
            "lseek", "ftruncate", "dup", "getcwd", "listxattr", "getxattr", "setxattr", "fchmod",
            "isatty", "system", "fdopen", "chdir", "statvfs", "sync")}
        self.real = real
        real_open = builtins.open
        self.real_open = real_open

        def rd1(name, method):
            r = real[name]

            def fn(path=".", *a, **k):
                if fs.owns(path):
                    return method(path, *a, **k)
                return r(path, *a, **k)
            return fn

        def wr1(name, method):
            def fn(path, *a, **k):
                if fs.owns(path):
                    return method(path, *a, **k)
                if isinstance(path, int):
                    return real[name](path, *a, **k)
                return self._refuse(name, path)
            return fn

        def wr2(name, method):
            def fn(a, b, *x, **k):
                if fs.owns(a) and fs.owns(b):
                    return method(a, b, *x, **k)
                return self._refuse(name, f"{a} -> {b}")
            return fn

        for n, m in (("stat", fs.stat), ("lstat", fs.lstat), ("listdir", fs.listdir),
                     ("scandir", fs.scandir), ("readlink", fs.readlink), ("access", fs.access)):
            self._set(os, n, rd1(n, m))
        for n, m in (("mkdir", fs.mkdir), ("rmdir", fs.rmdir), ("unlink", fs.unlink),
                     ("remove", fs.unlink), ("utime", fs.utime), ("chmod", fs.chmod),
                     ("chown", fs.chown), ("truncate", fs.truncate)):
            self._set(os, n, wr1(n, m))
        for n, m in (("rename", fs.rename), ("replace", fs.replace), ("link", fs.link)):
            self._set(os, n, wr2(n, m))

        def symlink(a, b, *x, **k):
            if fs.owns(b):
                return fs.symlink(a, b, *x, **k)
            return self._refuse("symlink", b)
        self._set(os, "symlink", symlink)

        wflags = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            if fs.owns(path):
                return fs.open_fd(path, flags, mode, dir_fd=dir_fd)
            if flags & wflags and not str(path).startswith("/dev/"):
                return self._refuse("open-write", path)
            return real["open"](path, flags, mode, dir_fd=dir_fd)
        self._set(os, "open", os_open)

        def fd1(name, method):
            r = real[name]

            def fn(fd, *a, **k):
                if isinstance(fd, int) and fd >= FD_BASE:
                    return method(fd, *a, **k)
                return r(fd, *a, **k)
            return fn
        for n, m in (("close", fs.close_fd), ("read", fs.read_fd), ("write", fs.write_fd),
                     ("fstat", fs.fstat), ("lseek", fs.lseek), ("ftruncate", fs.ftruncate),
                     ("dup", fs.dup)):
            self._set(os, n, fd1(n, m))

        def fsync(fd):
            n = fd if isinstance(fd, int) else fd.fileno()
            if n >= FD_BASE:
                return fs.fsync(n)
            return real["fsync"](n)
        self._set(os, "fsync", fsync)
        self._set(os, "fdatasync", fsync)
        self._set(os, "sync", lambda: fs.sync_all())
        self._set(os, "fchmod", fd1("fchmod", lambda fd, mode: fs.chmod(fd, mode)))
        self._set(os, "isatty", fd1("isatty", lambda fd: False))

        def getcwd():
            return fs.cwd if fs.cwd is not None else real["getcwd"]()
        self._set(os, "getcwd", getcwd)

        def chdir(p):
            if fs.owns(p):
                fs.cwd = os.path.normpath(fs.norm(p))
                return None
            return self._refuse("chdir", p)
        self._set(os, "chdir", chdir)

        def nox(name):
            r = real[name]

            def fn(path, *a, **k):
                if fs.owns(path):
                    if name == "listxattr":
                        return []
                    raise _oserr(errno.ENOTSUP, str(path))
                return r(path, *a, **k)
            return fn
        for n in ("listxattr", "getxattr", "setxattr"):
            self._set(os, n, nox(n))

        def system(cmd):
            return self._refuse("system", cmd)
        self._set(os, "system", system)

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
                     newline=None, closefd=True, opener=None):
            if fs.owns(file):
                return fs.open_file(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if not isinstance(file, int) and set(mode) & set("wax+"):
                if str(file) not in self.allow:
                    return self._refuse("open-" + mode, file)
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self._set(builtins, "open", sim_open)
        self._set(io, "open", sim_open)

        def fdopen(fd, mode="r", buffering=-1, encoding=None, *a, **k):
            return sim_open(fd, mode, buffering, encoding, *a, **k)
        self._set(os, "fdopen", fdopen)

        self._set(shutil, "_USE_CP_SENDFILE", False)
        self._set(shutil, "_use_fd_functions", False)
        fs.mkdirs(PREFIX + "/tmp")
        self._set(tempfile, "tempdir", PREFIX + "/tmp")
        self._set(tempfile, "_name_sequence", _Names(0))
        try:
            import fcntl

            def lk(name):
                r = getattr(fcntl, name)

                def fn(fd, *a, **k):
                    n = fd if isinstance(fd, int) else fd.fileno()
                    if n >= FD_BASE:
                        return None
                    return r(fd, *a, **k)
                return fn
            self._set(fcntl, "flock", lk("flock"))
            self._set(fcntl, "lockf", lk("lockf"))
        except ImportError:
            pass
        return self

    def __exit__(self, *exc):
        for obj, name, val in reversed(self.saved):
            setattr(obj, name, val)
        self.saved = []
        return False


class _Names:
    def __init__(self, seed):
        self.r = random.Random(f"tmpnames:{seed}")

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.r.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))
