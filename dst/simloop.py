"""Virtual-time asyncio: one thread, every timer, worker thread and network delivery decided by the simulator."""
from __future__ import annotations

import asyncio
import asyncio.base_events
import contextvars
import functools
import heapq
import json

FRAME = contextvars.ContextVar("dst_frame", default=None)     # which client message is being handled
HANG = float("inf")


class SimStuck(Exception):
    """Nothing will ever happen again but the scenario is not over."""


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        if timeout is None:
            raise SimStuck("no timer and no ready callback")
        if timeout > 0:
            self.loop.world.advance(timeout)
        return []

    def register(self, *a, **k):
        return None

    unregister = modify = register

    def get_map(self):
        return {}

    def close(self):
        pass


class SimLoop(asyncio.base_events.BaseEventLoop):
    """Event loop whose clock is the world's and whose worker threads are simulated."""

    def __init__(self, world, duration):
        super().__init__()
        self.world = world
        self.duration = duration            # fn(frame) -> virtual seconds of work for a worker job
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9
        self.jobs = 0
        self.running_jobs = 0
        self.max_jobs = 0
        self.abandoned = 0
        self.in_job = 0
        self.job_tag = None
        self.blocked = 0
        self.errors = []
        self.set_exception_handler(lambda loop, ctx: self.errors.append(str(ctx.get("exception") or ctx.get("message"))))

    def time(self):
        return self.world.mono

    def _process_events(self, ev):
        pass

    def _write_to_self(self):
        pass

    # -------------------------------------------------------- worker threads
    def submit(self, func, future):
        """Run func 'in a worker thread'. It runs at once; its result is delivered after the virtual time its work takes."""
        self.jobs += 1
        self.running_jobs += 1
        self.max_jobs = max(self.max_jobs, self.running_jobs)
        self.job_tag = None
        self.in_job += 1
        try:
            try:
                res, exc = func(), None
            except BaseException as e:      # noqa: what a worker thread does
                if isinstance(e, StopIteration):
                    e = RuntimeError("coroutine raised StopIteration")
                res, exc = None, e
        finally:
            self.in_job -= 1
        dur = self.duration(self.job_tag if self.job_tag is not None else FRAME.get())
        self.job_tag = None

        def done():
            self.running_jobs -= 1
            if future.cancelled():
                self.abandoned += 1
                return
            if exc is not None:
                future.set_exception(exc)
            else:
                future.set_result(res)
        if dur != HANG:
            self.call_later(dur, done)

    def touched(self, tag):
        """The code under test starts working on the program with this tag."""
        if self.in_job:
            self.job_tag = tag
        else:                               # work done on the event loop itself: nothing else can happen meanwhile
            self.blocked += 1
            d = self.duration(tag)
            self.world.advance(1e5 if d == HANG else d)

    def run_in_executor(self, executor, func, *args):
        future = self.create_future()
        ctx = contextvars.copy_context()
        self.submit(functools.partial(ctx.run, func, *args), future)
        return future

    def set_default_executor(self, executor):
        pass

    async def shutdown_default_executor(self, timeout=None):
        pass


async def _sim_run_sync(cls, func, args, abandon_on_cancel=False, limiter=None):
    """anyio's run_sync_in_worker_thread over a simulated thread (same cancellation rules)."""
    from anyio import CancelScope
    await cls.checkpoint()
    async with limiter or cls.current_default_thread_limiter():
        with CancelScope(shield=not abandon_on_cancel):
            loop = asyncio.get_running_loop()
            future = loop.create_future()
            ctx = contextvars.copy_context()
            loop.submit(functools.partial(ctx.run, func, *args), future)
            return await future


class Patch:
    def __enter__(self):
        import anyio._backends._asyncio as b
        self.b = b.AsyncIOBackend
        self.keep = self.b.__dict__["run_sync_in_worker_thread"]
        self.b.run_sync_in_worker_thread = classmethod(_sim_run_sync)
        return self

    def __exit__(self, *a):
        self.b.run_sync_in_worker_thread = self.keep


def run(world, duration, main):
    """Run coroutine function main(loop) to completion in virtual time; returns (value, loop)."""
    loop = SimLoop(world, duration)
    with Patch():
        try:
            val = loop.run_until_complete(main(loop))
        finally:
            for t in asyncio.all_tasks(loop):
                t.cancel()
            for _ in range(50):
                if not asyncio.all_tasks(loop):
                    break
                loop.call_soon(loop.stop)
                loop.run_forever()
            loop.close()
    return val, loop


# ------------------------------------------------------------------ ASGI clients
class Http:
    """One HTTP exchange with the app, with scripted body chunks and delays."""

    def __init__(self, app, method, path, body=b"", chunks=1, delay=0.0, drop_at=None, ctype="application/json", lag=0.0, frame=None):
        self.app, self.method, self.path, self.body = app, method, path, body
        self.chunks, self.delay, self.drop_at, self.lag, self.frame = max(1, chunks), delay, drop_at, lag, frame
        self.ctype = ctype
        self.starts = 0
        self.status = None
        self.parts = []
        self.complete = False
        self.after_complete = 0
        self.crash = None
        self.t_sent = self.t_done = self.t_start = None

    async def go(self):
        loop = asyncio.get_running_loop()
        FRAME.set(self.frame)
        n = self.chunks
        size = max(1, -(-len(self.body) // n))
        pieces = [self.body[i:i + size] for i in range(0, len(self.body), size)] or [b""]
        t0 = loop.time()
        forever = loop.create_future()
        drop = None if self.drop_at is None else t0 + self.drop_at

        async def receive():
            if pieces:
                if self.delay:
                    await asyncio.sleep(self.delay)
                if drop is not None and loop.time() >= drop:
                    return {"type": "http.disconnect"}
                p = pieces.pop(0)
                if not pieces:
                    self.t_sent = loop.time()
                return {"type": "http.request", "body": p, "more_body": bool(pieces)}
            if drop is not None:
                await asyncio.sleep(max(0.0, drop - loop.time()))
                return {"type": "http.disconnect"}
            await forever

        async def send(m):
            if self.complete:
                self.after_complete += 1
                return
            if m["type"] == "http.response.start":
                self.starts += 1
                self.t_start = loop.time()
                self.status = m["status"]
                self.headers = m.get("headers", [])
            elif m["type"] == "http.response.body":
                self.parts.append(m.get("body", b""))
                if not m.get("more_body"):
                    self.complete = True
                    self.t_done = loop.time()
            if self.lag:
                await asyncio.sleep(self.lag)
        scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": self.method, "scheme": "http",
                 "path": self.path, "raw_path": self.path.encode(), "query_string": b"", "root_path": "",
                 "headers": [(b"host", b"sim"), (b"content-type", self.ctype.encode()), (b"content-length", str(len(self.body)).encode())],
                 "client": ("10.0.0.1", 1), "server": ("sim", 80), "state": {}}
        try:
            await self.app(scope, receive, send)
        except Exception as e:
            self.crash = e
        return self

    def json(self):
        return json.loads(b"".join(self.parts).decode("utf-8"), parse_constant=_no_const)


def _no_const(c):
    raise ValueError(f"{c} is not JSON")


class Ws:
    """One WebSocket connection: frames = [(send_time, kind, payload, tag)], close_at."""

    def __init__(self, app, path, frames, close_at, lag=0.0, start=0.0):
        self.app, self.path, self.frames, self.close_at, self.lag, self.start = app, path, list(frames), close_at, lag, start
        self.sent = []              # (t, text) the client receives
        self.got = []               # (t, index) frames the server took
        self.accepted = False
        self.closed_by_server = None
        self.crash = None
        self.t_close = None         # client gone
        self.t_drop = None          # server told about the disconnect
        self.sent_after_close = 0
        self.returned = None

    async def go(self):
        loop = asyncio.get_running_loop()
        await asyncio.sleep(self.start)
        t0 = loop.time()
        todo = sorted(self.frames, key=lambda f: f[0])
        close_t = self.t_close = t0 + self.close_at
        first = True

        async def receive():
            nonlocal first
            if first:
                first = False
                return {"type": "websocket.connect"}
            if todo and t0 + todo[0][0] < close_t:
                await asyncio.sleep(max(0.0, t0 + todo[0][0] - loop.time()))
                f = todo.pop(0)
                self.got.append((loop.time(), f[3]))
                FRAME.set(f[3])
                if f[1] == "bytes":
                    return {"type": "websocket.receive", "bytes": f[2]}
                return {"type": "websocket.receive", "text": f[2]}
            await asyncio.sleep(max(0.0, close_t - loop.time()))
            if self.t_drop is None:
                self.t_drop = loop.time()
            return {"type": "websocket.disconnect", "code": 1006}

        async def send(m):
            if m["type"] == "websocket.accept":
                self.accepted = True
                return
            if m["type"] == "websocket.close":
                self.closed_by_server = (loop.time(), m.get("code"))
                return
            if loop.time() >= close_t or self.t_drop is not None:
                self.sent_after_close += 1
                raise OSError("client disconnected")
            text = m.get("text")
            if text is not None:
                text.encode("utf-8")
            self.sent.append((loop.time(), text if text is not None else m.get("bytes")))
            if self.lag:
                await asyncio.sleep(self.lag)
        scope = {"type": "websocket", "asgi": {"version": "3.0"}, "http_version": "1.1", "scheme": "ws", "path": self.path,
                 "raw_path": self.path.encode(), "query_string": b"", "root_path": "", "headers": [(b"host", b"sim")],
                 "client": ("10.0.0.1", 1), "server": ("sim", 80), "subprotocols": [], "state": {}}
        try:
            await self.app(scope, receive, send)
        except Exception as e:
            self.crash = e
        self.returned = loop.time()
        return self
