"""HTTP between the real client and the real applications, in process and under control.

The client half implements pyqwest's transport interfaces; the server half drives ASGI and
WSGI applications the way servers do.  Between them sit the monitors of the ASGI and WSGI
contracts, a tap of the wire bytes, and the injected behaviour: re-chunking, delays, faults,
disconnects, cancellation."""
from __future__ import annotations

from . import vtime  # isort: skip

import asyncio
import contextlib
import contextvars
import io
import re
import zlib
from dataclasses import dataclass, field
from urllib.parse import unquote, urlsplit

from pyqwest import (
    Headers as HH,
    HTTPVersion,
    ReadError,
    Request,
    Response,
    SyncRequest,
    SyncResponse,
    SyncTransport,
    Transport,
    WriteError,
)
from pyqwest._pyqwest import _BrotliDecompressor, _ZstdDecompressor, get_sync_timeout

from . import vloop

TOKEN = re.compile(rb"^[!#$%&'*+\-.^_`|~0-9a-z]+$")
TOKEN_CI = re.compile(r"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")
HOP = {"connection", "keep-alive", "proxy-authenticate", "proxy-authorization", "te", "trailers",
       "trailer", "transfer-encoding", "upgrade"}


# --------------------------------------------------------------------------- monitors
class AsgiMonitor:
    """Online checker of the ASGI HTTP response grammar."""

    def __init__(self, trailers_ext: bool) -> None:
        self.ext = trailers_ext
        self.state = "idle"  # idle -> body -> (trailers) -> done
        self.announced = False
        self.bad: list[str] = []
        self.status: int | None = None
        self.headers: list[tuple[bytes, bytes]] = []
        self.trailers: list[tuple[bytes, bytes]] | None = None
        self.body = bytearray()
        self.n = 0

    def _headers(self, hs, what: str) -> None:
        try:
            hs = list(hs)
        except TypeError:
            self.bad.append(f"{what}: headers not iterable")
            return
        for h in hs:
            try:
                k, v = h
            except Exception:
                self.bad.append(f"{what}: header is not a pair: {h!r}")
                continue
            if type(k) is not bytes or type(v) is not bytes:
                self.bad.append(f"{what}: header not bytes: {h!r}")
                continue
            if not TOKEN.match(k):
                self.bad.append(f"{what}: header name not a lowercase token: {k!r}")
            if b"\r" in v or b"\n" in v or b"\0" in v:
                self.bad.append(f"{what}: control character in header {k!r}: {v!r}")
            if k in (b"content-type", b"content-length", b"content-encoding") and sum(1 for x in hs if x[0] == k) > 1:
                self.bad.append(f"{what}: duplicate {k!r}")

    def on_send(self, ev) -> None:
        self.n += 1
        t = ev.get("type")
        if t == "http.response.start":
            if self.state != "idle":
                self.bad.append(f"second response start (state {self.state})")
                return
            st = ev.get("status")
            if type(st) is not int or not 200 <= st <= 599:
                self.bad.append(f"bad status {st!r}")
            self.status = st
            self.headers = list(ev.get("headers", []))
            self._headers(self.headers, "start")
            tr = ev.get("trailers", False)
            if type(tr) is not bool:
                self.bad.append(f"trailers flag {tr!r}")
            self.announced = bool(tr)
            if self.announced and not self.ext:
                self.bad.append("trailers announced without server support")
            self.state = "body"
        elif t == "http.response.body":
            if self.state != "body":
                self.bad.append(f"body in state {self.state}")
                return
            b = ev.get("body", b"")
            if type(b) is not bytes:
                self.bad.append(f"body of type {type(b).__name__}")
            self.body += b
            if not ev.get("more_body", False):
                self.state = "trailers" if self.announced else "done"
        elif t == "http.response.trailers":
            if self.state != "trailers":
                self.bad.append(f"trailers in state {self.state}")
                return
            hs = list(ev.get("headers", []))
            self._headers(hs, "trailers")
            self.trailers = (self.trailers or []) + hs
            if not ev.get("more_trailers", False):
                self.state = "done"
        else:
            self.bad.append(f"unknown event {t!r}")

    @property
    def complete(self) -> bool:
        return self.state == "done"


class WsgiMonitor:
    """Online checker of PEP 3333 for one request."""

    def __init__(self) -> None:
        self.bad: list[str] = []
        self.started = 0
        self.status_line = ""
        self.status: int | None = None
        self.headers: list[tuple[str, str]] = []
        self.trailers: list[tuple[str, str]] | None = None
        self.trailer_calls = 0
        self.body = bytearray()
        self.body_started = False
        self.finished = False
        self.closed = 0

    def start_response(self, status, headers, exc_info=None):
        self.started += 1
        if self.started > 1 and not exc_info:
            self.bad.append("start_response called again without exc_info")
        if self.finished:
            self.bad.append("start_response after the end")
        if exc_info and self.body_started:
            raise exc_info[1].with_traceback(exc_info[2])
        if type(status) is not str or not re.match(r"^\d{3} .+$", status):
            self.bad.append(f"status {status!r}")
        if type(headers) is not list:
            self.bad.append(f"headers of type {type(headers).__name__}")
        for h in headers:
            if type(h) is not tuple or len(h) != 2 or type(h[0]) is not str or type(h[1]) is not str:
                self.bad.append(f"header {h!r}")
                continue
            k, v = h
            if not TOKEN_CI.match(k):
                self.bad.append(f"header name {k!r}")
            if k.lower() in HOP:
                self.bad.append(f"hop-by-hop header {k!r}")
            if any(c in v for c in "\r\n\0"):
                self.bad.append(f"control character in header {k!r}")
            try:
                v.encode("latin-1")
            except UnicodeEncodeError:
                self.bad.append(f"header {k!r} not latin-1")
            if k.lower() in ("content-type", "content-length", "content-encoding") and \
                    sum(1 for x in headers if x[0].lower() == k.lower()) > 1:
                self.bad.append(f"duplicate {k!r}")
        self.status_line = status
        self.status = int(str(status)[:3]) if str(status)[:3].isdigit() else None
        self.headers = list(headers)

        def write(data):
            self.on_chunk(data)
            self.written.append(data)

        return write

    written: list = []

    def send_trailers(self, hs) -> None:
        self.trailer_calls += 1
        if self.trailer_calls > 1:
            self.bad.append("trailers sent twice")
        if not self.started:
            self.bad.append("trailers before start_response")
        if self.finished:
            self.bad.append("trailers after the end")
        if type(hs) is not list:
            self.bad.append(f"trailers of type {type(hs).__name__}")
        for h in hs:
            if type(h) is not tuple or len(h) != 2 or type(h[0]) is not str or type(h[1]) is not str:
                self.bad.append(f"trailer {h!r}")
            elif not TOKEN_CI.match(h[0]) or any(c in h[1] for c in "\r\n\0"):
                self.bad.append(f"trailer {h!r}")
        self.trailers = (self.trailers or []) + list(hs)

    def on_chunk(self, c) -> None:
        if type(c) is not bytes:
            self.bad.append(f"body item of type {type(c).__name__}")
            return
        if not self.started:
            self.bad.append("body before start_response")
        if c:
            self.body_started = True
        self.body += c


# --------------------------------------------------------------------------- plans
class Plan:
    """What the network between client and server does.  The default is a perfect network."""

    def __init__(self, rng=None, *, req_mode: str = "asis", resp_mode: str = "asis", delay: float = 0.0,
                 window: int = 0, on_close: str = "disconnect", content_length: bool | None = None,
                 http_version: str = "2", empty_chunks: bool = False, short_reads: bool = False) -> None:
        self.rng, self.req_mode, self.resp_mode = rng, req_mode, resp_mode
        self.delay, self.window, self.on_close = delay, window, on_close
        self.content_length, self.http_version = content_length, http_version
        self.empty_chunks, self.short_reads = empty_chunks, short_reads
        self.terse = empty_chunks != short_reads  # leave out what has its default value in ASGI events
        self.mount = ""  # prefix the application is mounted at
        self.mount_style = "root_path"
        self.scope_extra: dict = {}
        self.environ_extra: dict = {}
        self.trailers_ext = True
        self.client: tuple[str, int] | None = ("127.0.0.1", 111)

    @classmethod
    def random(cls, rng) -> "Plan":
        modes = ["asis", "asis", "bytes", "random", "prefix"]
        return cls(rng, req_mode=rng.choice(modes), resp_mode=rng.choice(modes),
                   delay=rng.choice([0, 0, 0.001, 0.05]), window=rng.choice([0, 0, 1, 3]),
                   content_length=rng.choice([None, True, False]),
                   empty_chunks=rng.random() < 0.3, short_reads=rng.random() < 0.5)

    def split(self, data: bytes, mode: str) -> list[bytes]:
        if not data:
            return [data]
        if mode == "asis":
            out = [data]
        elif mode == "bytes" and len(data) <= 3000:
            out = [data[i:i + 1] for i in range(len(data))]
        elif mode == "prefix":
            # cuts inside the five byte prefix
            k = self.rng.randint(1, 5)
            out = [data[:k], data[k:]]
        else:
            n = self.rng.randint(1, min(12, len(data)))
            cuts = sorted(self.rng.randrange(0, len(data) + 1) for _ in range(n))
            out, p = [], 0
            for c in [*cuts, len(data)]:
                out.append(data[p:c])
                p = c
        out = [c for c in out if c]
        if self.empty_chunks:
            res = []
            for c in out:
                if self.rng.random() < 0.3 and len(res) < 40:
                    res.append(b"")
                res.append(c)
            out = res
        return out

    def chunk_event(self, body: bytes, more: bool) -> dict:
        ev = {"type": "http.request", "body": body, "more_body": more}
        if self.terse:
            # both keys are optional
            if not body:
                del ev["body"]
            if not more:
                del ev["more_body"]
        return ev

    async def pause(self) -> None:
        if self.delay:
            await asyncio.sleep(self.rng.choice([0, 0, self.delay * self.rng.random()]))


@dataclass
class Exchange:
    """One HTTP exchange as seen on the wire."""
    method: str = ""
    url: str = ""
    req_headers: list = field(default_factory=list)
    req_body: bytearray = field(default_factory=bytearray)
    req_complete: bool = False
    monitor: object = None
    app_exc: BaseException | None = None
    app_done: bool = False
    app_task: object = None
    timeout: float | None = None
    slack: float = 0.0
    client_closed: bool = False
    t_start: float = 0.0
    t_headers: float | None = None
    wsgi_errors: str = ""
    report: object = None
    steps: list = field(default_factory=list)

    def resp(self) -> tuple[int, list[tuple[str, str]], bytes, list[tuple[str, str]] | None]:
        m = self.monitor
        if isinstance(m, AsgiMonitor):
            dec = lambda hs: [(k.decode("latin-1"), v.decode("latin-1")) for k, v in hs]  # noqa: E731
            return m.status, dec(m.headers), bytes(m.body), None if m.trailers is None else dec(m.trailers)
        return m.status, [(k.lower(), v) for k, v in m.headers], bytes(m.body), m.trailers


class _Gzip:
    def __init__(self) -> None:
        self.d = zlib.decompressobj(wbits=zlib.MAX_WBITS | 16)

    def feed(self, data: bytes, *, end: bool) -> bytes:
        out = self.d.decompress(data)
        if end:
            out += self.d.flush()
        return out


class _Ident:
    def feed(self, data: bytes, *, end: bool) -> bytes:
        return data


def _decomp(name: str | None):
    match name:
        case "gzip":
            return _Gzip()
        case "br":
            return _BrotliDecompressor()
        case "zstd":
            return _ZstdDecompressor()
    return _Ident()


def _target(plan: Plan, url: str) -> tuple[str, str, str, str, str, int | None]:
    u = urlsplit(url)
    return u.scheme, u.netloc.rpartition("@")[2], u.hostname or "", u.path or "/", u.query, u.port


def make_scope(plan: Plan, method: str, url: str, headers: list[tuple[str, str]]) -> dict:
    scheme, netloc, host, raw_path, query, port = _target(plan, url)
    hs = [(k.lower().encode(), v.encode("utf-8")) for k, v in headers]
    if not any(k == b"host" for k, _ in hs):
        hs.append((b"host", netloc.encode()))
    path = unquote(raw_path)
    scope = {
        "type": "http", "asgi": {"version": "3.0", "spec_version": "2.5"}, "http_version": plan.http_version,
        "method": method, "scheme": scheme, "path": path, "raw_path": raw_path.encode(),
        "query_string": query.encode(), "headers": hs,
        "server": (host, port or (443 if scheme == "https" else 80)), "client": plan.client,
        "extensions": {"http.response.trailers": {}} if plan.trailers_ext else {},
        "state": {}, "root_path": plan.mount if plan.mount_style == "root_path" else "",
    }
    scope.update(plan.scope_extra)
    return scope


def make_environ(plan: Plan, method: str, url: str, headers: list[tuple[str, str]], inp, errors) -> dict:
    scheme, netloc, host, raw_path, query, port = _target(plan, url)
    path = unquote(raw_path).encode().decode("latin-1")
    script = ""
    if plan.mount and path.startswith(plan.mount):
        script, path = plan.mount, path[len(plan.mount):]
    env = {
        "REQUEST_METHOD": method, "SCRIPT_NAME": script, "PATH_INFO": path,
        "QUERY_STRING": query.encode().decode("latin-1"), "SERVER_NAME": host,
        "SERVER_PORT": str(port or (443 if scheme == "https" else 80)),
        "SERVER_PROTOCOL": "HTTP/1.1" if plan.http_version.startswith("1") else "HTTP/2",
        "wsgi.version": (1, 0), "wsgi.url_scheme": scheme, "wsgi.multithread": True,
        "wsgi.multiprocess": False, "wsgi.run_once": False, "wsgi.input": inp, "wsgi.errors": errors,
    }
    if plan.client:
        env["REMOTE_ADDR"], env["REMOTE_PORT"] = plan.client[0], str(plan.client[1])
    for k, v in headers:
        k = k.lower()
        if k == "content-type":
            env["CONTENT_TYPE"] = v
        elif k == "content-length":
            env["CONTENT_LENGTH"] = v
        else:
            name = "HTTP_" + k.upper().replace("-", "_")
            env[name] = f"{env[name]},{v}" if name in env else v
    env.setdefault("HTTP_HOST", netloc)
    env.update(plan.environ_extra)
    for k in [k for k, v in env.items() if v is None]:
        del env[k]
    if isinstance(inp, _Input):
        # what the application may read without waiting for bytes that never come
        cl = env.get("CONTENT_LENGTH", "")
        if cl.isascii() and cl.isdigit():
            inp.limit = int(cl)
        elif method == "GET" and str(env.get("SERVER_PROTOCOL", "")).startswith("HTTP/1") and "HTTP_TRANSFER_ENCODING" not in env:
            inp.limit = 0
    return env


class Cut(Exception):
    """Marker put in a fault plan."""


# --------------------------------------------------------------------------- async client -> ASGI
class AsgiBridge(Transport):
    def __init__(self, app, plan: Plan | None = None, plan_fn=None, h2: bool = True) -> None:
        self.app, self.plan, self.plan_fn, self.h2 = app, plan or Plan(), plan_fn, h2
        self.exchanges: list[Exchange] = []
        self.tasks: set = set()

    async def execute(self, request: Request) -> Response:
        plan = self.plan_fn(request) if self.plan_fn else self.plan
        headers = list(request.headers.items())
        ex = Exchange(method=request.method, url=request.url, req_headers=headers, t_start=asyncio.get_running_loop().time())
        self.exchanges.append(ex)
        mon = ex.monitor = AsgiMonitor(plan.trailers_ext)
        scope = make_scope(plan, request.method, request.url, headers)
        inq: asyncio.Queue = asyncio.Queue(plan.window)
        outq: asyncio.Queue = asyncio.Queue(plan.window)
        state = {"closed": False}
        gone = asyncio.Event()
        await plan.pause()

        async def pump() -> None:
            content = request.content
            try:
                if isinstance(content, bytes):
                    for c in plan.split(content, plan.req_mode):
                        ex.req_body += c
                        await inq.put(c)
                else:
                    async for c in content:
                        ex.req_body += c
                        for part in plan.split(bytes(c), plan.req_mode):
                            await plan.pause()
                            await inq.put(part)
                ex.req_complete = True
                await inq.put(None)
            except Exception as e:  # the request iterator failed: the stream is reset
                state["closed"] = True
                state["req_error"] = e
                gone.set()
                with contextlib.suppress(asyncio.QueueFull):
                    inq.put_nowait(e)
                with contextlib.suppress(asyncio.QueueFull):
                    outq.put_nowait(WriteError(f"Request failed: {e}"))
            finally:
                aclose = getattr(content, "aclose", None)
                if aclose is not None:
                    await aclose()

        ended = {"v": False}

        async def receive():
            if not ended["v"]:
                getter = asyncio.ensure_future(inq.get())
                closer = asyncio.ensure_future(gone.wait())
                try:
                    await asyncio.wait({getter, closer}, return_when=asyncio.FIRST_COMPLETED)
                finally:
                    closer.cancel()
                    if not getter.done():
                        getter.cancel()
                if getter.done() and not getter.cancelled() and not gone.is_set():
                    c = getter.result()
                    if c is None:
                        ended["v"] = True
                        return plan.chunk_event(b"", False)
                    if not isinstance(c, Exception):
                        return plan.chunk_event(c, True)
                return {"type": "http.disconnect"}
            await gone.wait()
            return {"type": "http.disconnect"}

        async def send(ev) -> None:
            if state["closed"] and plan.on_close == "oserror":
                raise OSError("client disconnected")
            mon.on_send(ev)
            if state["closed"]:
                return
            if ev["type"] == "http.response.body":
                body = bytes(ev.get("body", b""))
                parts = plan.split(body, plan.resp_mode) if body else [body]
                for i, p in enumerate(parts):
                    await plan.pause()
                    await _put(("b", p, ev.get("more_body", False) or i < len(parts) - 1))
            else:
                await plan.pause()
                await _put(("e", ev, None))

        async def _put(x) -> None:
            if not plan.window:
                outq.put_nowait(x)
                return
            # back pressure, but never block on a client that is gone
            p = asyncio.ensure_future(outq.put(x))
            g = asyncio.ensure_future(gone.wait())
            try:
                await asyncio.wait({p, g}, return_when=asyncio.FIRST_COMPLETED)
            finally:
                g.cancel()
                if not p.done():
                    p.cancel()

        async def run_app() -> None:
            try:
                await self.app(scope, receive, send)
            except BaseException as e:  # noqa: BLE001
                ex.app_exc = e
            finally:
                ex.app_done = True
                # the server answers disconnect to anything still waiting once it is over
                if plan.window:
                    while True:
                        try:
                            outq.put_nowait(("x", ex.app_exc, None))
                            break
                        except asyncio.QueueFull:
                            if state["closed"]:
                                break
                            await asyncio.sleep(0.001)
                else:
                    outq.put_nowait(("x", ex.app_exc, None))

        loop = asyncio.get_running_loop()
        pump_task = loop.create_task(pump(), name="bridge-pump")
        app_task = loop.create_task(run_app(), name="bridge-app", context=contextvars.Context())
        ex.app_task = app_task
        self.tasks |= {pump_task, app_task}

        async def stop_pump() -> None:
            pump_task.cancel()
            await asyncio.shield(_join(pump_task))

        async def close(how: str | None = None) -> None:
            if state["closed"]:
                await stop_pump()
                return
            state["closed"] = True
            ex.client_closed = True
            gone.set()
            if (how or plan.on_close) == "cancel":
                app_task.cancel()
            await stop_pump()

        try:
            first = await outq.get()
        except BaseException:
            await close()
            raise
        if isinstance(first, Exception):
            await close()
            raise first
        kind, ev, _ = first
        if kind == "x" or ev["type"] != "http.response.start":
            await close()
            return Response(status=500, headers=HH([("content-type", "text/plain")]), content=b"Internal Server Error")
        ex.t_headers = loop.time()
        hs = HH([(k.decode("utf-8"), v.decode("utf-8")) for k, v in ev["headers"]])
        trailers = HH()
        want_trailers = self.h2 and request.headers.get("te") == "trailers"
        dec = _decomp(hs.get("content-encoding"))
        announced = ev.get("trailers", False)
        content = _Content(outq, dec, trailers, want_trailers, announced, close, ex)
        return Response(status=ev["status"], headers=hs, content=content, trailers=trailers)


async def _join(t) -> None:
    with contextlib.suppress(BaseException):
        await t


class _Content:
    def __init__(self, q, dec, trailers, want_trailers, announced, close, ex) -> None:
        self.q, self.dec, self.trailers, self.want = q, dec, trailers, want_trailers
        self.announced, self._close, self.ex = announced, close, ex
        self.done = False

    def __aiter__(self):
        return self

    async def __anext__(self):
        while True:
            if self.done:
                raise StopAsyncIteration
            try:
                x = await self.q.get()
            except BaseException:
                raise
            if isinstance(x, Exception):
                self.done = True
                raise x
            kind, v, more = x
            if kind == "b":
                if not more and not self.announced:
                    await self._end()
                data = self.dec.feed(v, end=not more)
                if data:
                    return data
            elif kind == "e":
                if v["type"] == "http.response.trailers":
                    if self.want:
                        for k, val in v.get("headers", []):
                            self.trailers.add(k.decode("utf-8"), val.decode("utf-8"))
                    if not v.get("more_trailers", False):
                        await self._end()
            else:  # application ended without completing the response
                self.done = True
                raise ReadError("Error reading response body")

    async def _end(self) -> None:
        self.done = True
        await self._close("end")

    async def aclose(self) -> None:
        if not self.done:
            self.done = True
        await self._close()


# --------------------------------------------------------------------------- sync client -> WSGI
class _Input:
    """wsgi.input over a bytes object or the client's request iterator."""

    def __init__(self, content, plan: Plan, ex: Exchange, cctx) -> None:
        self.it = iter([content]) if isinstance(content, bytes) else content
        self.plan, self.ex, self.cctx = plan, ex, cctx
        self.pending: list[bytes] = []
        self.buf = bytearray()
        self.eof = False
        self.reads = 0
        self.limit: int | None = None
        self.given = 0

    def _next(self) -> bytes | None:
        while not self.pending:
            if self.eof:
                return None
            try:
                c = self.cctx.run(next, self.it)
            except StopIteration:
                self.eof = True
                self.ex.req_complete = True
                return None
            except Exception as e:
                self.eof = True
                raise OSError(f"request failed: {e}") from e
            self.ex.req_body += c
            self.pending = [p for p in self.plan.split(bytes(c), self.plan.req_mode) if p]
        return self.pending.pop(0)

    def read(self, n: int = -1) -> bytes:
        self.reads += 1
        if self.limit is not None and n != 0 and (n is None or n < 0 or n > self.limit - self.given) and not self.eof:
            # Servers need not simulate the end of the input: such a read may wait for ever.
            m = self.ex.monitor
            if m is not None and not any("past CONTENT_LENGTH" in b for b in m.bad):
                m.bad.append(f"wsgi.input read past CONTENT_LENGTH ({n} asked, {self.limit - self.given} left)")
        out = self._read(n)
        self.given += len(out)
        return out

    def _read(self, n: int) -> bytes:
        if n is None or n < 0:
            while (c := self._next()) is not None:
                self.buf += c
            out = bytes(self.buf)
            self.buf.clear()
            return out
        # never wait for more than is there, as servers that stream do
        if not self.buf and n:
            c = self._next()
            if c is not None:
                self.buf += c
        if not self.plan.short_reads and isinstance(self.it, type(iter([]))):
            while len(self.buf) < n and (c := self._next()) is not None:
                self.buf += c
        out = bytes(self.buf[:n])
        del self.buf[:n]
        return out

    def readline(self, n: int = -1) -> bytes:
        return self.read(n)

    def readlines(self, hint: int = -1):
        return [self.read()]

    def __iter__(self):
        while c := self.read(4096):
            yield c

    def close(self) -> None:
        self.eof = True
        c = getattr(self.it, "close", None)
        if c:
            with contextlib.suppress(ValueError):
                c()


class WsgiRun:
    """Drives one WSGI request step by step in its own context."""

    def __init__(self, app, environ: dict, ex: Exchange, trailers_ext: bool = True) -> None:
        self.ex = ex
        self.mon = ex.monitor = WsgiMonitor()
        self.mon.written = []
        self.ctx = contextvars.Context()
        self.errors: io.StringIO = environ["wsgi.errors"]
        if trailers_ext:
            environ["wsgi.ext.http.send_trailers"] = self.mon.send_trailers
        self.app, self.environ = app, environ
        self.it = None
        self.result = None
        self.over = False

    def start(self) -> None:
        try:
            self.result = self.ctx.run(self.app, self.environ, self.mon.start_response)
            self.it = iter(self.result)
        except BaseException as e:
            self.ex.app_exc = e
            self.over = True
            self._finish()
            raise

    def next(self) -> bytes | None:
        if self.over:
            return None
        try:
            c = self.ctx.run(next, self.it)
        except StopIteration:
            self.over = True
            self._finish()
            if not self.mon.started:
                self.mon.bad.append("start_response never called")
            return None
        except BaseException as e:
            self.ex.app_exc = e
            self.over = True
            self._finish()
            raise
        self.mon.on_chunk(c)
        return bytes(c) if isinstance(c, (bytes, bytearray, memoryview)) else b""

    def _finish(self) -> None:
        if self.ex.app_done:
            return
        self.ex.app_done = True
        c = getattr(self.result, "close", None)
        if c:
            try:
                self.ctx.run(c)
            except BaseException as e:  # noqa: BLE001
                self.ex.app_exc = self.ex.app_exc or e
        self.mon.finished = True
        self.ex.wsgi_errors = self.errors.getvalue()

    def close(self) -> None:
        self.over = True
        self._finish()


class WsgiBridge(SyncTransport):
    def __init__(self, app, plan: Plan | None = None, plan_fn=None, h2: bool = True) -> None:
        self.app, self.plan, self.plan_fn, self.h2 = app, plan or Plan(), plan_fn, h2
        self.exchanges: list[Exchange] = []

    def execute_sync(self, request: SyncRequest) -> SyncResponse:
        plan = self.plan_fn(request) if self.plan_fn else self.plan
        headers = list(request.headers.items())
        t, slack = vtime.sync_timeout(get_sync_timeout())
        ex = Exchange(method=request.method, url=request.url, req_headers=headers, t_start=vtime.monotonic(), timeout=t, slack=slack)
        self.exchanges.append(ex)
        cctx = contextvars.copy_context()
        inp = _Input(request.content, plan, ex, cctx)
        if isinstance(request.content, bytes) and plan.content_length is not False and request.method != "GET":
            headers = [*headers, ("content-length", str(len(request.content)))]
        env = make_environ(plan, request.method, request.url, headers, inp, io.StringIO())
        run = WsgiRun(self.app, env, ex, plan.trailers_ext)
        deadline = ex.t_start + ex.timeout if ex.timeout is not None else None

        def late() -> bool:
            return deadline is not None and vtime.monotonic() >= deadline

        try:
            run.start()
            chunk = run.next()
            while chunk is not None and not chunk:
                chunk = run.next()
        except Exception:
            inp.close()
            if late():
                raise TimeoutError("request timed out")
            return SyncResponse(status=500, headers=HH([("content-type", "text/plain")]), content=b"Internal Server Error")
        if late():
            run.close()
            inp.close()
            raise TimeoutError("request timed out")
        hs = HH([(k, v) for k, v in run.mon.headers])
        trailers = HH()
        want = self.h2 and request.headers.get("te") == "trailers"
        dec = _decomp(hs.get("content-encoding"))
        content = _SyncContent(run, inp, chunk, dec, trailers, want, plan, late, ex)
        return SyncResponse(status=run.mon.status, headers=hs, content=content, trailers=trailers)


class _SyncContent:
    def __init__(self, run, inp, first, dec, trailers, want, plan, late, ex) -> None:
        self.run, self.inp, self.dec, self.trailers, self.want = run, inp, dec, trailers, want
        self.plan, self.late, self.ex = plan, late, ex
        self.pending: list[bytes] = plan.split(first, plan.resp_mode) if first else []
        self.done = False

    def __iter__(self):
        return self

    def __next__(self) -> bytes:
        while True:
            if self.pending:
                d = self.dec.feed(self.pending.pop(0), end=False)
                if d:
                    return d
                continue
            if self.done:
                raise StopIteration
            try:
                c = self.run.next()
            except Exception as e:
                self.done = True
                self.inp.close()
                raise ReadError("Error reading response body") from e
            if self.late():
                self.done = True
                self.run.close()
                self.inp.close()
                raise TimeoutError("response timed out")
            if c is None:
                self.done = True
                if self.want and self.run.mon.trailers:
                    for k, v in self.run.mon.trailers:
                        self.trailers.add(k, v)
                self.inp.close()
                rest = self.dec.feed(b"", end=True)
                if rest:
                    return rest
                raise StopIteration
            if c:
                self.pending = self.plan.split(c, self.plan.resp_mode)

    def close(self) -> None:
        if self.done:
            return
        self.done = True
        self.ex.client_closed = True
        self.run.close()
        self.inp.close()


# --------------------------------------------------------------------------- half duplex crossings
class AsyncToWsgi(Transport):
    """Asynchronous client, synchronous application.  The request is sent completely first."""

    def __init__(self, app, plan: Plan | None = None, h2: bool = True) -> None:
        self.app, self.plan, self.h2 = app, plan or Plan(), h2
        self.exchanges: list[Exchange] = []

    async def execute(self, request: Request) -> Response:
        plan = self.plan
        headers = list(request.headers.items())
        ex = Exchange(method=request.method, url=request.url, req_headers=headers)
        self.exchanges.append(ex)
        body = request.content if isinstance(request.content, bytes) else b"".join([bytes(c) async for c in request.content])
        if plan.content_length is not False and request.method != "GET" and isinstance(request.content, bytes):
            headers = [*headers, ("content-length", str(len(body)))]
        inp = _Input(body, plan, ex, contextvars.copy_context())
        env = make_environ(plan, request.method, request.url, headers, inp, io.StringIO())
        run = WsgiRun(self.app, env, ex, plan.trailers_ext)
        try:
            run.start()
            first = run.next()
        except Exception:
            return Response(status=500, headers=HH([("content-type", "text/plain")]), content=b"Internal Server Error")
        hs = HH([(k, v) for k, v in run.mon.headers])
        trailers = HH()
        want = self.h2 and request.headers.get("te") == "trailers"
        dec = _decomp(hs.get("content-encoding"))

        async def content():
            try:
                c = first
                while c is not None:
                    for p in plan.split(c, plan.resp_mode) if c else []:
                        if d := dec.feed(p, end=False):
                            yield d
                        await plan.pause()
                    try:
                        c = run.next()
                    except Exception as e:
                        raise ReadError("Error reading response body") from e
                if want and run.mon.trailers:
                    for k, v in run.mon.trailers:
                        trailers.add(k, v)
                if rest := dec.feed(b"", end=True):
                    yield rest
            finally:
                run.close()

        return Response(status=run.mon.status, headers=hs, content=content(), trailers=trailers)


class SyncToAsgi(SyncTransport):
    """Synchronous client, asynchronous application.  Both bodies are sent completely."""

    def __init__(self, app, plan: Plan | None = None, h2: bool = True) -> None:
        self.app, self.plan, self.h2 = app, plan or Plan(), h2
        self.exchanges: list[Exchange] = []

    def execute_sync(self, request: SyncRequest) -> SyncResponse:
        plan = self.plan
        headers = list(request.headers.items())
        body = request.content if isinstance(request.content, bytes) else b"".join(bytes(c) for c in request.content)
        ex = asgi_once(self.app, request.method, request.url, headers, body, plan)
        self.exchanges.append(ex)
        mon: AsgiMonitor = ex.monitor
        if mon.status is None:
            return SyncResponse(status=500, headers=HH([("content-type", "text/plain")]), content=b"Internal Server Error")
        hs = HH([(k.decode("utf-8"), v.decode("utf-8")) for k, v in mon.headers])
        trailers = HH()
        dec = _decomp(hs.get("content-encoding"))

        def content():
            for p in plan.split(bytes(mon.body), plan.resp_mode) if mon.body else []:
                if d := dec.feed(p, end=False):
                    yield d
            if not mon.complete:
                raise ReadError("Error reading response body")
            if self.h2 and request.headers.get("te") == "trailers":
                for k, v in mon.trailers or []:
                    trailers.add(k.decode("utf-8"), v.decode("utf-8"))
            if rest := dec.feed(b"", end=True):
                yield rest

        return SyncResponse(status=mon.status, headers=hs, content=content(), trailers=trailers)


# --------------------------------------------------------------------------- raw requests
def asgi_once(app, method: str, url: str, headers, body: bytes, plan: Plan, *, scope: dict | None = None,
              chunks: list | None = None, end: str = "final", limit: float = 10000.0, cancel_at: int | None = None,
             send_fail_at: int | None = None, settle: float = 0.0, do_gc: bool = False, disconnect_at: float | None = None,
             cancel_time: float | None = None, after=None) -> Exchange:
    """One raw request to an ASGI application in a loop of its own.

    cancel_at: the application's task is cancelled during its n-th receive or send.
    cancel_time, disconnect_at: the same, or the client's disconnect, at a virtual time.
    send_fail_at: the n-th send raises OSError, and all later ones.
    chunks: the body parts to deliver, or callables giving them (default: plan's split of `body`).
    end: 'final' (normal end), 'disconnect' (client goes away after the chunks)."""
    ex = Exchange(method=method, url=url, req_headers=list(headers))
    mon = ex.monitor = AsgiMonitor(plan.trailers_ext)
    scope = scope if scope is not None else make_scope(plan, method, url, headers)
    parts = chunks if chunks is not None else plan.split(body, plan.req_mode)

    async def main() -> None:
        todo = list(parts)
        if chunks is None:
            ex.req_body += b"".join(todo)
        stage = {"n": 0}
        n_final = bool(todo) and plan.rng is not None and plan.rng.random() < 0.5

        gone = asyncio.Event()

        async def step(kind: str) -> None:
            ex.steps.append(kind)
            if cancel_at is not None and len(ex.steps) == cancel_at + 1:
                task.cancel()
                await asyncio.sleep(0)
            await plan.pause()

        async def receive():
            await step("receive")
            if gone.is_set():
                return {"type": "http.disconnect"}
            if todo:
                c = todo.pop(0)
                if callable(c):
                    c = c()
                    if hasattr(c, "__await__"):
                        c = await c
                last = not todo and n_final and end == "final"
                if last:
                    stage["n"] = 1
                return plan.chunk_event(c, not last)
            if end == "final" and stage["n"] == 0:
                stage["n"] = 1
                return plan.chunk_event(b"", False)
            if end == "final":
                await gone.wait()
            return {"type": "http.disconnect"}

        sends = 0

        async def send(ev) -> None:
            nonlocal sends
            sends += 1
            if send_fail_at is not None and sends > send_fail_at:
                ex.steps.append("send-fails")
                raise OSError("client disconnected")
            await step("send")
            mon.on_send(ev)

        loop = asyncio.get_running_loop()
        task = loop.create_task(app(scope, receive, send), context=contextvars.Context())
        if disconnect_at is not None:
            loop.call_later(disconnect_at, gone.set)
        if cancel_time is not None:
            loop.call_later(cancel_time, task.cancel)
        try:
            await task
        except BaseException as e:  # noqa: BLE001
            ex.app_exc = e
        ex.app_done = True
        if after is not None:
            after(ex)

    rep = vloop.run(main, limit=limit, settle=settle, do_gc=do_gc)
    ex.report = rep
    if rep.exc is not None:
        raise rep.exc
    return ex


def wsgi_once(app, method: str, url: str, headers, body: bytes, plan: Plan, *, environ: dict | None = None,
              chunks: list | None = None, end: str = "final") -> Exchange:
    """One raw request to a WSGI application.

    chunks: what successive reads of the input yield.  end: 'final', or 'disconnect' (the read
    after the chunks raises OSError, as servers do when the client goes away)."""
    ex = Exchange(method=method, url=url, req_headers=list(headers))

    def parts():
        for c in chunks if chunks is not None else [body]:
            yield c() if callable(c) else c
        if end == "disconnect":
            raise OSError("client disconnected")

    inp = _Input(body if chunks is None and end == "final" else parts(), plan, ex, contextvars.copy_context())
    env = environ if environ is not None else make_environ(plan, method, url, headers, inp, io.StringIO())
    if environ is not None:
        env.setdefault("wsgi.input", inp)
        env.setdefault("wsgi.errors", io.StringIO())
    run = WsgiRun(app, env, ex, plan.trailers_ext)
    try:
        run.start()
        while run.next() is not None:
            pass
    except Exception as e:
        ex.app_exc = e
    return ex
