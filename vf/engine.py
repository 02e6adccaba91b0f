"""Runs RPCs of the real library with scripted handlers and callers and records what happened."""
from __future__ import annotations

from . import vtime  # isort: skip

import asyncio
from dataclasses import dataclass, field

from connectrpc.client import ResponseMetadata
from connectrpc.code import Code
from connectrpc.codec import proto_binary_codec, proto_json_codec
from connectrpc.compression.brotli import BrotliCompression
from connectrpc.compression.gzip import GzipCompression
from connectrpc.compression.zstd import ZstdCompression
from connectrpc.errors import ConnectError
from connectrpc.protocol import ProtocolType
from connectrpc.request import Headers
from pyqwest import Client, SyncClient

from . import bridge, vloop
from .gen.verif_connect import (
    Probe,
    ProbeASGIApplication,
    ProbeClient,
    ProbeClientSync,
    ProbeSync,
    ProbeWSGIApplication,
)
from .gen.verif_pb import Msg, Out

BASE = "http://svc.test"
PKG = "/verif.v1.Probe/"
KINDS = ["unary", "get", "client_stream", "server_stream", "bidi"]
PATHS = {"unary": "Unary", "get": "Get", "idem": "Idem", "client_stream": "ClientStream",
         "server_stream": "ServerStream", "bidi": "Bidi", "watch": "Watch", "nothing": "Nothing"}
STREAM_OUT = {"server_stream", "bidi", "watch"}
STREAM_IN = {"client_stream", "bidi"}
PROTOS = {"connect": ProtocolType.CONNECT, "grpc": ProtocolType.GRPC, "grpcweb": ProtocolType.GRPC_WEB}
COMPS = {"gzip": GzipCompression, "br": BrotliCompression, "zstd": ZstdCompression}


class UserCompression:
    """An algorithm supplied by the user of the library; counts its uses."""

    NAME = ""

    def __init__(self) -> None:
        self.compressed = self.decompressed = 0

    def name(self) -> str:
        return self.NAME

    def compress(self, data):
        self.compressed += 1
        return ref_compression()[self.NAME][0](bytes(data))

    def decompress(self, data):
        self.decompressed += 1
        return ref_compression()[self.NAME][1](bytes(data))


def ref_compression():
    from . import ref
    return ref.CUSTOM


CUSTOM = ["x-xor", "xz", "deflate"]
for _n in CUSTOM:
    COMPS[_n] = type("User_" + _n.replace("-", "_"), (UserCompression,), {"NAME": _n})
CODECS = {"proto": proto_binary_codec, "json": proto_json_codec}


def comp(name: str | None):
    return None if name is None or name == "identity" else COMPS[name]()


class Boom(Exception):
    """An exception of the application that is not a ConnectError."""


class Denied(ConnectError):
    """A ConnectError of the application's own class."""

    def __init__(self, code, message, details=(), *, reason: str = "r") -> None:
        super().__init__(code, message, details)
        self.reason = reason


@dataclass
class Call:
    """One invocation of a handler."""
    method: str
    n: int
    headers: list = field(default_factory=list)
    http_method: str = ""
    timeout_ms: float | None = None
    server_address: str | None = None
    client_address: str | None = None
    info: object = None
    reqs: list = field(default_factory=list)
    recv_end: bool = False
    recv_error: BaseException | None = None
    events: list = field(default_factory=list)  # (t, what, n)
    cleanups: int = 0
    finished: str = ""
    cid: str = ""


@dataclass
class Log:
    calls: list = field(default_factory=list)
    events: list = field(default_factory=list)  # (t, who, what, info)

    def ev(self, who: str, what: str, info: object = None) -> None:
        self.events.append((vtime.monotonic(), who, what, info))


def _enter(log: Log, name: str, ctx) -> Call:
    c = Call(method=name, n=len(log.calls), headers=list(ctx.request_headers.allitems()), http_method=ctx.http_method,
             timeout_ms=ctx.timeout_ms, server_address=ctx.server_address, client_address=ctx.client_address, info=ctx.method)
    c.cid = ctx.request_headers.get("x-cid", "")
    log.calls.append(c)
    log.ev("h", "enter", (name, c.cid))
    return c


def mkerr(e):
    return e() if callable(e) and not isinstance(e, BaseException) else e


class PlainAsync:
    """An iterator that is not a generator: nothing but the iteration protocol."""

    __slots__ = ("_g",)

    def __init__(self, g) -> None:
        self._g = g

    def __aiter__(self):
        return self

    async def __anext__(self):
        return await self._g.__anext__()


class PlainSync:
    __slots__ = ("_g",)

    def __init__(self, g) -> None:
        self._g = g

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._g)


class AHandler(Probe):
    wrap = staticmethod(lambda g: g)

    def __init__(self, pick, log: Log) -> None:
        self.pick, self.log = pick, log

    async def _steps(self, name, request, ctx, single: bool):
        log = self.log
        c = _enter(log, name, ctx)
        ait = None
        if single:
            c.reqs.append(request)
            c.recv_end = True
        else:
            ait = request.__aiter__()

        async def recv():
            try:
                m = await ait.__anext__()
            except StopAsyncIteration:
                c.recv_end = True
                log.ev("h", "recv-end", c.cid)
                return None
            except BaseException as e:
                c.recv_error = e
                log.ev("h", "recv-error", (c.cid, type(e).__name__))
                raise
            c.reqs.append(m)
            log.ev("h", "recv", (c.cid, m.id if isinstance(m, (Msg, Out)) else None))
            return m

        sent = 0
        held: tuple = ()
        try:
            for step in self.pick(name, request if single else None, ctx):
                op = step[0]
                if op == "hold":
                    again = (ctx.response_headers, ctx.response_trailers)
                    held = held or again
                elif op == "hdr":
                    (held[0] if len(step) > 3 else ctx.response_headers).add(step[1], step[2])
                elif op == "trl":
                    (held[1] if len(step) > 3 else ctx.response_trailers).add(step[1], step[2])
                elif op == "recv":
                    await recv()
                elif op == "recvall":
                    while await recv() is not None:
                        pass
                elif op == "send" or op == "ret":
                    log.ev("h", op, (c.cid, sent))
                    sent += 1
                    yield step[1]
                    log.ev("h", "sent", (c.cid, sent - 1))
                    if op == "ret":
                        break
                elif op == "echoall":
                    while (m := await recv()) is not None:
                        o = step[1](m)
                        if o is not None:
                            log.ev("h", "send", (c.cid, sent))
                            sent += 1
                            yield o
                elif op == "raise":
                    log.ev("h", "raise", c.cid)
                    raise mkerr(step[1])
                elif op == "sleep":
                    await asyncio.sleep(step[1])
                elif op == "timeout":
                    c.events.append((vtime.monotonic(), "timeout", ctx.timeout_ms))
                elif op == "do":
                    r = step[1](ctx, c)
                    if hasattr(r, "__await__"):
                        await r
                else:
                    raise AssertionError(op)
            c.finished = "ok"
        except GeneratorExit:
            c.finished = "closed"
            raise
        except asyncio.CancelledError:
            c.finished = "cancelled"
            raise
        except BaseException as e:
            c.finished = "error:" + type(e).__name__
            raise
        finally:
            c.cleanups += 1
            log.ev("h", "exit", (c.cid, c.finished))

    async def _one(self, name, request, ctx, single: bool):
        g = self._steps(name, request, ctx, single)
        try:
            async for o in g:
                # let the script finish
                async for _ in g:
                    raise AssertionError("script yields twice")
                return o
        finally:
            await g.aclose()
        raise AssertionError("script returns nothing")

    async def unary(self, request, ctx):
        return await self._one("unary", request, ctx, True)

    async def get(self, request, ctx):
        return await self._one("get", request, ctx, True)

    async def idem(self, request, ctx):
        return await self._one("idem", request, ctx, True)

    async def nothing(self, request, ctx):
        return await self._one("nothing", request, ctx, True)

    async def client_stream(self, request, ctx):
        return await self._one("client_stream", request, ctx, False)

    def server_stream(self, request, ctx):
        return self.wrap(self._steps("server_stream", request, ctx, True))

    def watch(self, request, ctx):
        return self.wrap(self._steps("watch", request, ctx, True))

    def bidi(self, request, ctx):
        return self.wrap(self._steps("bidi", request, ctx, False))


class SHandler(ProbeSync):
    wrap = staticmethod(lambda g: g)

    def __init__(self, pick, log: Log) -> None:
        self.pick, self.log = pick, log

    def _steps(self, name, request, ctx, single: bool):
        log = self.log
        c = _enter(log, name, ctx)
        it = None
        if single:
            c.reqs.append(request)
            c.recv_end = True
        else:
            it = iter(request)

        def recv():
            try:
                m = next(it)
            except StopIteration:
                c.recv_end = True
                log.ev("h", "recv-end", c.cid)
                return None
            except BaseException as e:
                c.recv_error = e
                log.ev("h", "recv-error", (c.cid, type(e).__name__))
                raise
            c.reqs.append(m)
            log.ev("h", "recv", (c.cid, m.id if isinstance(m, (Msg, Out)) else None))
            return m

        sent = 0
        held: tuple = ()
        try:
            for step in self.pick(name, request if single else None, ctx):
                op = step[0]
                if op == "hold":
                    again = (ctx.response_headers, ctx.response_trailers)
                    held = held or again
                elif op == "hdr":
                    (held[0] if len(step) > 3 else ctx.response_headers).add(step[1], step[2])
                elif op == "trl":
                    (held[1] if len(step) > 3 else ctx.response_trailers).add(step[1], step[2])
                elif op == "recv":
                    recv()
                elif op == "recvall":
                    while recv() is not None:
                        pass
                elif op == "send" or op == "ret":
                    log.ev("h", op, (c.cid, sent))
                    sent += 1
                    yield step[1]
                    log.ev("h", "sent", (c.cid, sent - 1))
                    if op == "ret":
                        break
                elif op == "echoall":
                    while (m := recv()) is not None:
                        o = step[1](m)
                        if o is not None:
                            log.ev("h", "send", (c.cid, sent))
                            sent += 1
                            yield o
                elif op == "raise":
                    log.ev("h", "raise", c.cid)
                    raise mkerr(step[1])
                elif op == "sleep":
                    if vtime.active is not None:
                        vtime.active.now += step[1]
                elif op == "timeout":
                    c.events.append((vtime.monotonic(), "timeout", ctx.timeout_ms))
                elif op == "do":
                    step[1](ctx, c)
                else:
                    raise AssertionError(op)
            c.finished = "ok"
        except GeneratorExit:
            c.finished = "closed"
            raise
        except BaseException as e:
            c.finished = "error:" + type(e).__name__
            raise
        finally:
            c.cleanups += 1
            log.ev("h", "exit", (c.cid, c.finished))

    def _one(self, name, request, ctx, single: bool):
        g = self._steps(name, request, ctx, single)
        try:
            for o in g:
                for _ in g:
                    raise AssertionError("script yields twice")
                return o
        finally:
            g.close()
        raise AssertionError("script returns nothing")

    def unary(self, request, ctx):
        return self._one("unary", request, ctx, True)

    def get(self, request, ctx):
        return self._one("get", request, ctx, True)

    def idem(self, request, ctx):
        return self._one("idem", request, ctx, True)

    def nothing(self, request, ctx):
        return self._one("nothing", request, ctx, True)

    def client_stream(self, request, ctx):
        return self._one("client_stream", request, ctx, False)

    def server_stream(self, request, ctx):
        return self.wrap(self._steps("server_stream", request, ctx, True))

    def watch(self, request, ctx):
        return self.wrap(self._steps("watch", request, ctx, True))

    def bidi(self, request, ctx):
        return self.wrap(self._steps("bidi", request, ctx, False))


# --------------------------------------------------------------------------- configuration
@dataclass
class Cfg:
    proto: str = "connect"
    codec: str = "proto"
    client: str = "async"
    server: str = "asgi"
    send: str | None = "gzip"          # None: no compression
    accept: list | None = None         # None: library default
    server_comps: list | None = None   # None: library default
    client_max: int | None = None
    server_max: int | None = None
    client_timeout: int | None = None
    plan: object = None
    base: str = BASE
    client_interceptors: object = ()
    server_interceptors: object = ()
    client_codec: object = None        # a codec of the user's instead of `codec`
    server_codecs: object = None       # None: library default
    plain: bool = False                # handlers return iterators that are not generators

    def key(self) -> tuple:
        return (self.proto, self.codec, self.client, self.server, self.send,
                tuple(self.accept) if self.accept is not None else None,
                tuple(self.server_comps) if self.server_comps is not None else None)

    def brief(self) -> dict:
        return {"proto": self.proto, "codec": self.codec, "client": self.client, "server": self.server,
                "send": self.send, "accept": self.accept, "server_comps": self.server_comps}


PAIRS = [("async", "asgi"), ("sync", "wsgi"), ("async", "wsgi"), ("sync", "asgi")]
FULL = [("async", "asgi"), ("sync", "wsgi")]


def random_cfg(rng, *, proto=None, pair=None, pairs=None, codec=None, comps: bool = True) -> Cfg:
    cl, sv = pair or rng.choice(pairs or [PAIRS[0]] * 3 + [PAIRS[1]] * 3 + [PAIRS[2], PAIRS[3]])
    cfg = Cfg(proto=proto or rng.choice(list(PROTOS)), codec=codec or rng.choice(["proto", "proto", "json"]), client=cl, server=sv)
    if comps:
        names = ["gzip", "br", "zstd"]
        if rng.random() < 0.7:
            cfg.server_comps = rng.sample(names, 3) if rng.random() < 0.7 else None
        allowed = cfg.server_comps if cfg.server_comps is not None else ["gzip"]
        cfg.send = rng.choice([None, *allowed])
        cfg.accept = rng.choice([None, [], rng.sample(names, rng.randint(1, 3))])
    cfg.plan = bridge.Plan.random(rng)
    return cfg


def codecs_for(cfg: Cfg):
    return cfg.client_codec or CODECS[cfg.codec]()


def build_app(cfg: Cfg, pick, log: Log, app_cls=None, handler=None):
    kw: dict = {}
    if cfg.server_comps is not None:
        kw["compressions"] = [COMPS[n]() for n in cfg.server_comps]
    if cfg.server_interceptors:
        kw["interceptors"] = cfg.server_interceptors
    if cfg.server_max is not None:
        kw["read_max_bytes"] = cfg.server_max
    if cfg.server_codecs is not None:
        kw["codecs"] = cfg.server_codecs
    if handler is None:
        handler = (AHandler if cfg.server == "asgi" else SHandler)(pick, log)
        if cfg.plain:
            handler.wrap = PlainAsync if cfg.server == "asgi" else PlainSync
    if cfg.server == "asgi":
        return (app_cls or ProbeASGIApplication)(handler, **kw)
    return (app_cls or ProbeWSGIApplication)(handler, **kw)


def build_transport(cfg: Cfg, app):
    plan = cfg.plan or bridge.Plan()
    if cfg.client == "async":
        return bridge.AsgiBridge(app, plan) if cfg.server == "asgi" else bridge.AsyncToWsgi(app, plan)
    return bridge.WsgiBridge(app, plan) if cfg.server == "wsgi" else bridge.SyncToAsgi(app, plan)


def build_client(cfg: Cfg, transport, cls=None):
    kw: dict = {"protocol": PROTOS[cfg.proto], "send_compression": comp(cfg.send)}
    kw["codec"] = codecs_for(cfg)
    vtime.default_ms = cfg.client_timeout
    if cfg.accept is not None:
        kw["accept_compression"] = [COMPS[n]() for n in cfg.accept]
    if cfg.client_max is not None:
        kw["read_max_bytes"] = cfg.client_max
    if cfg.client_timeout is not None:
        kw["timeout_ms"] = cfg.client_timeout
    if cfg.client_interceptors:
        kw["interceptors"] = cfg.client_interceptors
    if cfg.client == "async":
        return (cls or ProbeClient)(cfg.base, http_client=Client(transport=transport), **kw)
    return (cls or ProbeClientSync)(cfg.base, http_client=SyncClient(transport=transport), **kw)


# --------------------------------------------------------------------------- callers
@dataclass
class Spec:
    kind: str = "unary"
    msgs: list = field(default_factory=list)
    headers: object = None
    timeout_ms: int | None = None
    use_get: bool = False
    gaps: list = field(default_factory=list)      # virtual seconds before sending message i
    think: float = 0.0                            # virtual seconds the consumer spends per message
    stop_after: int | None = None                 # stop consuming after n messages and close
    how_stop: str = "aclose"                      # aclose | break
    send_when: object = None                      # per message: number of responses to wait for first
    request_error: BaseException | None = None    # raised by the request iterator at the end
    cid: str = ""
    plain: bool = False                           # request messages from an iterator that is not a generator


@dataclass
class Res:
    msgs: list = field(default_factory=list)
    err: ConnectError | None = None
    exc: BaseException | None = None
    headers: list = field(default_factory=list)
    trailers: list = field(default_factory=list)
    t0: float = 0.0
    t1: float = 0.0
    msg_times: list = field(default_factory=list)
    stopped: bool = False
    req_pulled: int = 0
    req_closed: int = 0
    headers_after_first: list | None = None

    @property
    def ok(self) -> bool:
        return self.err is None and self.exc is None

    def outcome(self) -> tuple:
        if self.exc is not None:
            return ("exc", type(self.exc).__name__, str(self.exc))
        if self.err is not None:
            return ("err", self.err.code.value, self.err.message, tuple((d.type_name, d.message_bytes) for d in self.err.details))
        return ("ok",)


def _kwargs(spec: Spec) -> dict:
    kw: dict = {}
    if spec.headers is not None:
        kw["headers"] = spec.headers
    if spec.timeout_ms is not None:
        kw["timeout_ms"] = spec.timeout_ms
    if spec.use_get:
        kw["use_get"] = True
    return kw


async def acall(client, spec: Spec, log: Log | None = None, meta: bool = True) -> Res:
    r = Res(t0=vtime.monotonic())
    got = asyncio.Condition()

    async def reqs():
        try:
            for i, m in enumerate(spec.msgs):
                if i < len(spec.gaps) and spec.gaps[i]:
                    await asyncio.sleep(spec.gaps[i])
                if spec.send_when is not None and spec.send_when[i]:
                    async with got:
                        await got.wait_for(lambda n=spec.send_when[i]: len(r.msgs) >= n)
                if log:
                    log.ev("c", "send", (spec.cid, i))
                r.req_pulled += 1
                yield m
            if spec.request_error is not None:
                raise spec.request_error
        finally:
            r.req_closed += 1

    def mk():
        return PlainAsync(reqs()) if spec.plain else reqs()

    fn = getattr(client, spec.kind)
    rm = ResponseMetadata() if meta else None
    vtime.mark_call(spec.timeout_ms)
    try:
        if rm:
            rm.__enter__()
        try:
            kw = _kwargs(spec)
            if spec.kind in STREAM_OUT:
                arg = mk() if spec.kind in STREAM_IN else spec.msgs[0]
                stream = fn(arg, **kw)
                if spec.stop_after == 0:
                    r.stopped = True
                else:
                    async for m in stream:
                        r.msgs.append(m)
                        r.msg_times.append(vtime.monotonic())
                        if len(r.msgs) == 1 and rm:
                            r.headers_after_first = list(rm.headers.allitems())
                        if log:
                            log.ev("c", "recv", (spec.cid, len(r.msgs) - 1))
                        async with got:
                            got.notify_all()
                        if spec.stop_after is not None and len(r.msgs) >= spec.stop_after:
                            r.stopped = True
                            break
                        if spec.think:
                            await asyncio.sleep(spec.think)
                if r.stopped and spec.how_stop == "aclose":
                    await stream.aclose()
            elif spec.kind in STREAM_IN:
                r.msgs.append(await fn(mk(), **kw))
            else:
                r.msgs.append(await fn(spec.msgs[0], **kw))
        except ConnectError as e:
            r.err = e
        except BaseException as e:  # noqa: BLE001
            r.exc = e
            if isinstance(e, (vloop.Spin, vloop.Deadlock, KeyboardInterrupt)):
                raise
    finally:
        if rm:
            rm.__exit__(None, None, None)
            r.headers, r.trailers = list(rm.headers.allitems()), list(rm.trailers.allitems())
        r.t1 = vtime.monotonic()
    return r


def scall(client, spec: Spec, log: Log | None = None, meta: bool = True) -> Res:
    r = Res(t0=vtime.monotonic())

    def reqs():
        try:
            for i, m in enumerate(spec.msgs):
                if i < len(spec.gaps) and spec.gaps[i] and vtime.active is not None:
                    vtime.active.now += spec.gaps[i]
                if spec.send_when is not None and spec.send_when[i] and len(r.msgs) < spec.send_when[i]:
                    raise AssertionError(f"request message {i} pulled before response {spec.send_when[i]} was delivered")
                if log:
                    log.ev("c", "send", (spec.cid, i))
                r.req_pulled += 1
                yield m
            if spec.request_error is not None:
                raise spec.request_error
        finally:
            r.req_closed += 1

    def mk():
        return PlainSync(reqs()) if spec.plain else reqs()

    fn = getattr(client, spec.kind)
    rm = ResponseMetadata() if meta else None
    vtime.mark_call(spec.timeout_ms)
    try:
        if rm:
            rm.__enter__()
        try:
            kw = _kwargs(spec)
            if spec.kind in STREAM_OUT:
                arg = mk() if spec.kind in STREAM_IN else spec.msgs[0]
                stream = fn(arg, **kw)
                if spec.stop_after == 0:
                    r.stopped = True
                else:
                    for m in stream:
                        r.msgs.append(m)
                        r.msg_times.append(vtime.monotonic())
                        if len(r.msgs) == 1 and rm:
                            r.headers_after_first = list(rm.headers.allitems())
                        if log:
                            log.ev("c", "recv", (spec.cid, len(r.msgs) - 1))
                        if spec.stop_after is not None and len(r.msgs) >= spec.stop_after:
                            r.stopped = True
                            break
                        if spec.think and vtime.active is not None:
                            vtime.active.now += spec.think
                if r.stopped and spec.how_stop == "aclose":
                    stream.close()
            elif spec.kind in STREAM_IN:
                r.msgs.append(fn(mk(), **kw))
            else:
                r.msgs.append(fn(spec.msgs[0], **kw))
        except ConnectError as e:
            r.err = e
        except Exception as e:  # noqa: BLE001
            r.exc = e
    finally:
        if rm:
            rm.__exit__(None, None, None)
            r.headers, r.trailers = list(rm.headers.allitems()), list(rm.trailers.allitems())
        r.t1 = vtime.monotonic()
    return r


@dataclass
class Trace:
    res: list = field(default_factory=list)
    calls: list = field(default_factory=list)
    exchanges: list = field(default_factory=list)
    events: list = field(default_factory=list)
    report: object = None

    @property
    def r(self) -> Res:
        return self.res[0]

    @property
    def call(self) -> Call | None:
        return self.calls[0] if self.calls else None

    @property
    def ex(self):
        return self.exchanges[0] if self.exchanges else None


def as_pick(script):
    if callable(script):
        return script
    return lambda name, request, ctx: script


def run_many(cfg: Cfg, script, specs: list[Spec], *, sequential: bool = True, app=None, settle: float = 5.0, do_gc: bool = False) -> Trace:
    """Runs the calls one after another through one client and one application."""
    log = Log()
    app = app or build_app(cfg, as_pick(script), log)
    tr = build_transport(cfg, app)
    t = Trace(calls=log.calls, exchanges=tr.exchanges, events=log.events)
    if cfg.client == "async":
        async def main():
            client = build_client(cfg, tr)
            for s in specs:
                t.res.append(await acall(client, s, log))
            await client.close()

        t.report = vloop.run(main, settle=settle, do_gc=do_gc)
        if t.report.exc is not None:
            raise t.report.exc
    else:
        clock = vtime.Clock()
        with vtime.activate(clock), vloop.cpu_guard():
            client = build_client(cfg, tr)
            for s in specs:
                t.res.append(scall(client, s, log))
            client.close()
    return t


def run_one(cfg: Cfg, script, spec: Spec, **kw) -> Trace:
    return run_many(cfg, script, [spec], **kw)


def describe(t: Trace) -> dict:
    d: dict = {"results": [{"outcome": repr(r.outcome()), "msgs": len(r.msgs)} for r in t.res],
               "calls": [(c.method, len(c.reqs), c.finished) for c in t.calls]}
    if t.report is not None and t.report.deadlock:
        d["deadlock"] = t.report.deadlock
        d["stacks"] = t.report.stacks
    for ex in t.exchanges[:1]:
        if ex.monitor is not None and ex.app_exc is not None:
            d["app_exc"] = repr(ex.app_exc)
    return d


def hung(t: Trace, n: int = 1) -> bool:
    return bool(t.report is not None and t.report.deadlock) or len(t.res) < n


# --------------------------------------------------------------------------- metadata generation
NAMES = ["x-a", "x-token", "x-long-name-with-parts", "x-b1", "my_under", "x-trailer", "trail", "x-request-id", "zz"]


def ascii_value(rng) -> str:
    k = rng.random()
    if k < 0.15:
        return rng.choice(["v", "0", "a b  c", "a,b", "a;q=1, b", "\"quoted\"", "=?&%", "x:y", "~", "%41", "a=b; c=d"])
    n = rng.choice([1, 3, 12, 80])
    s = "".join(chr(rng.randint(33, 126)) for _ in range(n))
    return s


def metadata(rng, prefix: str = "", n: int | None = None) -> list[tuple[str, str]]:
    """A legal multimap: token names, visible ASCII values without surrounding space."""
    out = []
    names = NAMES
    if n is None:
        n = rng.randint(0, 5)
        if rng.random() < 0.04:  # many values, of few names or of many
            n = rng.randint(6, 80)
            names = NAMES[:2] if rng.random() < 0.5 else [f"x-n{i}" for i in range(90)]
    for _ in range(n):
        name = prefix + rng.choice(names)
        if rng.random() < 0.2:
            import base64
            out.append((name + "-bin", base64.b64encode(rng.randbytes(rng.randint(0, 20))).decode().rstrip("=") or "AA"))
            continue
        out.append((name, ascii_value(rng)))
    return out


def mm(items) -> dict[str, list[str]]:
    d: dict[str, list[str]] = {}
    for k, v in items:
        d.setdefault(k.lower(), []).append(v)
    return d


def to_headers(items) -> Headers:
    return Headers([(k, v) for k, v in items])


ALL_CODES = list(Code)


def run_fake(cfg: Cfg, fn, specs, *, settle: float = 0.0, limit: float = 100000.0, client_cls=None, do_gc: bool = False) -> Trace:
    """Runs calls of the real client against an adversarial server (see ref.Fake)."""
    from . import ref
    specs = specs if isinstance(specs, list) else [specs]
    tr = ref.FakeServer(fn) if cfg.client == "async" else ref.FakeServerSync(fn)
    log = Log()
    t = Trace(exchanges=[], events=log.events)
    t.got = tr.got
    if cfg.client == "async":
        async def main():
            client = build_client(cfg, tr, client_cls)
            for s in specs:
                t.res.append(await acall(client, s, log))
            await client.close()

        t.report = vloop.run(main, settle=settle, limit=limit, do_gc=do_gc)
        if t.report.exc is not None:
            raise t.report.exc
    else:
        with vtime.activate(vtime.Clock()), vloop.cpu_guard():
            try:
                client = build_client(cfg, tr, client_cls)
                for s in specs:
                    t.res.append(scall(client, s, log))
                client.close()
            except vloop.Spin as e:
                t.report = vloop.Report(deadlock=str(e))
    return t


def serve_raw(cfg: Cfg, app, w, *, chunks=None, end: str = "final", plan=None, **kw):
    """One raw request (ref.WireReq) to an application."""
    plan = plan or cfg.plan or bridge.Plan()
    if cfg.server == "asgi":
        return bridge.asgi_once(app, w.method, cfg.base + w.path, w.headers, w.body, plan, chunks=chunks, end=end, **kw)
    clock = vtime.Clock()
    with vtime.activate(clock), vloop.cpu_guard():
        return bridge.wsgi_once(app, w.method, cfg.base + w.path, w.headers, w.body, plan, chunks=chunks, end=end)


def wire_resp(ex):
    from . import ref
    st, hs, body, tr = ex.resp()
    return ref.WireResp(st, hs, body, tr)
