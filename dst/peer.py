"""A second interpreter (another hash seed, other addresses) that runs one side of a comparison in a forked child per request."""
from __future__ import annotations

import json
import os
import select
import signal
import socket
import subprocess
import sys


class Peer:
    def __init__(self, check_id, hashseed):
        self.addr = f"\0dst-{check_id}-{os.getpid()}-{hashseed}-{os.urandom(6).hex()}"
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        r, w = os.pipe()
        self.keep = w                                  # closes when we end: the peer leaves
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "dst.peer", check_id, self.addr[1:]], stdin=r, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        os.close(r)

    def ready(self):
        return self.p.stdout.readline().strip() == b"ready"

    def ask(self, req):
        s = socket.socket(socket.AF_UNIX)
        s.connect(self.addr)
        s.sendall(json.dumps(req).encode())
        s.shutdown(socket.SHUT_WR)
        buf = b""
        while True:
            d = s.recv(1 << 20)
            if not d:
                break
            buf += d
        s.close()
        if not buf:
            raise RuntimeError("peer did not answer")
        return json.loads(buf)


def main():
    cid, addr = sys.argv[1:3]
    from . import engine
    engine.setup_paths()
    check = engine.load_check(cid)
    out = os.dup(1)
    dn = os.open("/dev/null", os.O_WRONLY)
    os.dup2(dn, 1)
    check.preload_peer()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind("\0" + addr)
    srv.listen(64)
    os.write(out, b"ready\n")
    while True:
        r, _, _ = select.select([srv, 0], [], [])
        if 0 in r and os.read(0, 1) == b"":
            return
        if srv not in r:
            continue
        c, _ = srv.accept()
        if os.fork() == 0:
            code = 0
            try:
                import resource
                resource.setrlimit(resource.RLIMIT_CPU, (check.cpu_limit, check.cpu_limit + 5))
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                srv.close()
                buf = b""
                while True:
                    d = c.recv(1 << 20)
                    if not d:
                        break
                    buf += d
                c.sendall(json.dumps(check.side(json.loads(buf))).encode())
                c.close()
            except BaseException:
                code = 70
            finally:
                os._exit(code)
        c.close()


if __name__ == "__main__":
    main()
