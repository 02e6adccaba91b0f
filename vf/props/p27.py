"""P27: over real connections the library and other implementations understand each other."""
from __future__ import annotations

from .. import vtime  # isort: skip

import asyncio
import base64
import concurrent.futures
import dataclasses
import itertools
import threading
import time

import grpc
from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.request import Headers
from protobuf.wkt import Any
from pyqwest import HTTPTransport, HTTPVersion, SyncHTTPTransport

from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import real
from .. import ref as R
from ..core import Workload
from ..gen import verif_pb2 as g

ID = "P27"
RULE = ("A case starts a real server on the loopback network, makes several calls, concurrently or one after another, with a real "
        "client and compares what both applications saw. One of server, client and application is not part of the library: "
        "hypercorn, uvicorn, werkzeug and wsgiref serve, pyqwest calls, grpcio does either. Non-trivial: every call which was "
        "compared; distinct by server, client, protocol, RPC kind, outcome and messages.")
ASSUME = ["time limits are 90 s: a slow machine is not a violation", "gRPC is only run over HTTP/2",
          "over HTTP/1.1 handlers read the request before they answer",
          "WSGI joins repeated request headers with commas and folds underscores"]
MANY_THREADS = True
WORKERS = 4

P = "q-"
NAMES = [P + n for n in ("a", "token", "long-name-with-parts", "b1", "trailer-x", "zz")]
TEXTS = ["", "boom", "50% off", "%41%zz%", "line\nbreak\r\n", "tab\t", "\x7fdel", " outer spaces ", "ünïcödé", "日本語", "😀🎉", "a" * 300, "a+b&c=d?#/:;,@!$'()*",
         "\"quoted\" \\back\\slash", "grpc-status: 0", "{}", "~`|^"]


def meta(rng, joined: bool = False) -> list[tuple[str, str]]:
    """Metadata as the library has it: binary values in base64."""
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        n = rng.choice(NAMES)
        if joined and any(k == n for k, _ in out):
            continue
        if rng.random() < 0.25:
            if not joined or all(k != n + "-bin" for k, _ in out):
                out.append((n + "-bin", base64.b64encode(rng.randbytes(rng.randint(1, 20))).decode().rstrip("=")))
        else:
            out.append((n, E.ascii_value(rng)))
    return out


def own(items) -> dict:
    return {k: v for k, v in E.mm(items).items() if k.startswith(P)}


def unb64(s: str) -> bytes:
    return base64.b64decode(s + "=" * (-len(s) % 4))


def norm(d: dict) -> dict:
    """Binary values may gain or lose padding on the way."""
    return {k: [unb64(v) for v in vs] if k.endswith("-bin") else vs for k, vs in d.items()}


def failure(rng):
    """(exception of the library, what the caller should see, (code, message, [(type, bytes)]))"""
    code = rng.choice(list(Code))
    text = rng.choice(TEXTS)
    ds = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        if rng.random() < 0.6:
            m = M.msg(rng, depth=1)
            if len(m.to_binary()) < 1500:
                ds.append((m, "verif.v1.Msg", m.to_binary()))
        else:
            b = rng.randbytes(rng.randint(0, 40))
            ds.append((Any(type_url="type.googleapis.com/acme.unknown.Thing", value=b), "acme.unknown.Thing", b))
    return (lambda: ConnectError(code, text, [d[0] for d in ds])), ("err", code.value, text, tuple((d[1], d[2]) for d in ds))


class Call:
    """One planned call: what is sent, what the handler does, what both sides should see."""

    def __init__(self, rng, kind: str, cid: str, *, duplex: bool, joined: bool = False, fail: bool = True, sizes=None, use_get: bool = False) -> None:
        self.kind, self.cid, self.use_get = kind, cid, use_get
        sizes = None if use_get else sizes  # URLs are limited
        size = (lambda: rng.choice(sizes)) if sizes else (lambda: None)
        self.ins = [M.msg(rng, size=size()) for _ in range(rng.choice([0, 1, 2, 6]) if kind in E.STREAM_IN else 1)]
        self.outs = [M.out(rng, size=size()) for _ in range(rng.choice([0, 1, 2, 6]) if kind in E.STREAM_OUT else 1)]
        self.req = meta(rng, joined)
        self.hdr, self.trl = meta(rng), meta(rng)
        self.want: tuple = ("ok",)
        self.full_request = True
        s: list = [("hdr", *h) for h in self.hdr]
        early = rng.random() < 0.5
        t = [("trl", *h) for h in self.trl]
        if early:
            s += t
        self.send_when = None
        if kind in E.STREAM_IN:
            if duplex and kind == "bidi" and rng.random() < 0.5:
                # each side waits for the other
                self.outs = [M.out(rng, size=size()) for _ in self.ins]
                self.send_when = list(range(len(self.ins)))
                for o in self.outs:
                    s += [("recv",), ("send", o)]
                s.append(("recvall",))
            elif duplex and kind == "bidi" and rng.random() < 0.3:
                s += [("send", o) for o in self.outs] + [("recvall",)]
            else:
                s.append(("recvall",))
                s += [("send", o) for o in self.outs if kind == "bidi"]
        elif kind in E.STREAM_OUT:
            s += [("send", o) for o in self.outs]
        if not early:
            s += t
        if fail and rng.random() < 0.35:
            make, self.want = failure(rng)
            s.append(("raise", make))
            if kind not in E.STREAM_OUT:
                self.outs = []
        elif kind not in E.STREAM_OUT:
            s.append(("ret", self.outs[0]))
        self.script = s

    def spec(self) -> E.Spec:
        h = Headers([("x-cid", self.cid), *self.req])
        return E.Spec(self.kind, self.ins, headers=h, use_get=self.use_get, send_when=self.send_when, cid=self.cid)

    def brief(self) -> dict:
        return {"kind": self.kind, "in": len(self.ins), "out": len(self.outs), "want": self.want[:2], "hdr": len(self.hdr), "trl": len(self.trl), "req": len(self.req)}


def judge(rec, tag: str, c: Call, got: tuple, what, *, wsgi: bool = False) -> bool:
    """got: (outcome, messages received, headers, trailers, the handler's record as (messages, headers))"""
    outcome, msgs, headers, trailers, handler = got
    rec.ev("calls")
    if outcome != c.want:
        rec.fail(f"{tag}:outcome", {"case": what, "expected": repr(c.want)[:400], "received": repr(outcome)[:400]})
        return False
    if handler is None:
        rec.fail(f"{tag}:handler-not-called", what)
        return False
    reqs, hs = handler
    a, b = M.canons(c.ins), M.canons(reqs)
    rec.ev("request_messages_compared", len(a))
    if a != b:
        rec.fail(f"{tag}:request-messages", {"case": what, **O.diff(a, b)})
        return False
    a, b = M.canons(c.outs), M.canons(msgs)
    rec.ev("response_messages_compared", len(a))
    if a != b:
        rec.fail(f"{tag}:response-messages", {"case": what, **O.diff(a, b)})
        return False
    for name, want, seen in (("request-headers", c.req, hs), ("response-headers", c.hdr, headers), ("trailers", c.trl, trailers)):
        w, s = norm(own(want)), norm(own(seen))
        rec.ev("metadata_values", sum(map(len, w.values())))
        if w != s:
            rec.fail(f"{tag}:{name}", {"case": what, "set": repr(w)[:500], "seen": repr(s)[:500]})
            return False
    rec.nontrivial((tag, c.kind, c.want, [M.canon(m) for m in c.ins + c.outs]))
    return True


def picker(calls):
    by = {c.cid: c for c in calls}
    return lambda name, req, ctx: by[ctx.request_headers["x-cid"]].script


def settled(rec, tag: str, log: E.Log, what) -> bool:
    """Every handler that began has ended, once."""
    end = time.time() + real.PATIENCE
    while time.time() < end and any(not c.cleanups for c in log.calls):
        time.sleep(0.01)
    bad = [(c.method, c.cleanups, c.finished) for c in log.calls if c.cleanups != 1]
    rec.ev("handlers_ended", len(log.calls))
    return rec.check(not bad, f"{tag}:handler-not-ended", lambda: {"case": what, "handlers": bad})


KINDS = ["unary", "get", "GET", "idem", "client_stream", "server_stream", "bidi", "watch"]
SIZES = [0, 1, 100, 16379, 16384, 65530, 65536, 200000, 1 << 20]


# --------------------------------------------------------------------------- the library's client, other people's servers
def own_(rec, rng, idx):
    servers = list(real.SERVERS)
    name = servers[idx % len(servers)]
    wsgi = name in real.WSGI
    h2 = name.startswith("hypercorn") and rng.random() < 0.7
    protos = ["connect"] if name == "wsgiref" else ["connect", "grpcweb"] + (["grpc"] * 2 if h2 and not wsgi else [])
    cfg = E.random_cfg(rng, proto=rng.choice(protos), pair=(rng.choice(["async", "sync"]), "wsgi" if wsgi else "asgi"))
    cfg.plan = None
    duplex = h2 and not wsgi and cfg.client == "async"
    sizes = SIZES if rng.random() < 0.2 else None
    kinds = KINDS if name != "wsgiref" else ["unary", "get", "GET", "idem"]
    calls = []
    for i in range(rng.randint(2, 6)):
        k = rng.choice(kinds)
        calls.append(Call(rng, "get" if k == "GET" else k, f"c{i}", duplex=duplex, joined=wsgi, sizes=sizes, use_get=k == "GET"))
    together = rng.random() < 0.5
    tag = f"own:{name}:{'h2' if h2 else 'h1'}:{cfg.proto}:{cfg.client}"
    what = {**cfg.brief(), "server": name, "http": 2 if h2 else 1, "together": together, "calls": [c.brief() for c in calls]}
    log = E.Log()
    app = E.build_app(cfg, picker(calls), log)
    ver = HTTPVersion.HTTP2 if h2 else HTTPVersion.HTTP1
    with real.SERVERS[name](app) as srv:
        cfg.base = srv.base
        try:
            rs = library_calls(cfg, calls, lambda c: c.spec(), together, ver)
        except real.Stuck:
            rec.fail(f"{tag}:never-completes", what)
            return
        if not settled(rec, tag, log, what):
            return
    by = {c.cid: c for c in log.calls}
    if len(log.calls) != len(calls):
        rec.fail(f"{tag}:handler-calls", {"case": what, "n": len(log.calls)})
        return
    for c, r in zip(calls, rs):
        h = by.get(c.cid)
        if not judge(rec, tag, c, (r.outcome(), r.msgs, r.headers, r.trailers, h and (h.reqs, h.headers)), {**what, "call": c.brief()}):
            return
        rec.seen("combinations", (tag, c.kind, c.want[0]))
    rec.sample(what)


# --------------------------------------------------------------------------- grpcio's client
GP = {k: R.PKG + R.PATHS[k] for k in R.PATHS}
COMP = [None, grpc.Compression.NoCompression, grpc.Compression.Gzip, grpc.Compression.Deflate]
OPTS = [("grpc.max_metadata_size", 1 << 20), ("grpc.absolute_max_metadata_size", 1 << 20), ("grpc.max_receive_message_length", -1), ("grpc.max_send_message_length", -1),
        ("grpc.enable_http_proxy", 0)]


def to_g(m):
    return getattr(g, type(m).__name__).FromString(m.to_binary())


def to_gmeta(items):
    return [(k, unb64(v) if k.endswith("-bin") else v) for k, v in items]


def from_gmeta(md):
    return [(k, base64.b64encode(v).decode() if isinstance(v, bytes) else v) for k, v in md or ()]


def gstatus(e) -> tuple:
    """The outcome grpcio observed, in the library's terms."""
    code = e.code()
    if code is grpc.StatusCode.OK:
        return ("ok",)
    raw = next((v for k, v in e.trailing_metadata() or () if k == "grpc-status-details-bin"), None)
    ds: tuple = ()
    if raw is not None:
        n, text, details = R.parse_status_bin(raw)
        ds = tuple(details)
        if n != code.value[0] or text != e.details():
            return ("err", "status and details differ", (code.name, e.details()), (n, text))
    return ("err", "canceled" if code is grpc.StatusCode.CANCELLED else code.name.lower(), e.details() or "", ds)


def gcall(ch, c: Call, comp, leave: int | None = None, **kw):
    """One call with grpcio, given up after `leave` messages; (outcome, messages, headers, trailers)"""
    fn = {(False, False): ch.unary_unary, (False, True): ch.unary_stream, (True, False): ch.stream_unary, (True, True): ch.stream_stream}[
        (c.kind in E.STREAM_IN, c.kind in E.STREAM_OUT)](GP[c.kind], request_serializer=lambda m: m.SerializeToString(), response_deserializer=g.Out.FromString)
    md = [("x-cid", c.cid), *to_gmeta(c.req)]
    out: list = []
    got = threading.Condition()

    def reqs():
        for i, m in enumerate(c.ins):
            if c.send_when and c.send_when[i]:
                with got:
                    got.wait_for(lambda n=c.send_when[i]: len(out) >= n, real.PATIENCE)
            yield to_g(m)

    arg = reqs() if c.kind in E.STREAM_IN else to_g(c.ins[0])
    if c.kind in E.STREAM_OUT:
        call = fn(arg, metadata=md, compression=comp, **kw)
        try:
            for m in call:
                with got:
                    out.append(m)
                    got.notify_all()
                if len(out) == leave:
                    call.cancel()
        except grpc.RpcError:
            pass
    else:
        call = fn.future(arg, metadata=md, compression=comp, **kw)
        try:
            out.append(call.result())
        except grpc.RpcError:
            pass
    return gstatus(call), out, from_gmeta(call.initial_metadata()), from_gmeta(call.trailing_metadata())


GKINDS = ["unary", "get", "idem", "client_stream", "server_stream", "bidi", "watch"]


def grpc_client(rec, rng, idx):
    """grpcio calls the library's application."""
    cfg = E.Cfg(proto="grpc", server="asgi", plain=rng.random() < 0.3)
    comp = rng.choice(COMP[:3])
    if rng.random() < 0.7:
        cfg.server_comps = rng.choice([["gzip"], ["zstd", "gzip", "br"], ["deflate", "gzip"], ["deflate"]])
        if "deflate" in cfg.server_comps:
            comp = rng.choice(COMP if "gzip" in cfg.server_comps else [None, grpc.Compression.Deflate])
        if rng.random() < 0.2 and not comp:
            cfg.server_comps = []
    sizes = SIZES if rng.random() < 0.2 else None
    calls = [Call(rng, rng.choice(GKINDS), f"c{i}", duplex=True, sizes=sizes) for i in range(rng.randint(2, 7))]
    for c in calls:  # grpcio wants to know whether a call that failed had a message
        if c.want != ("ok",) and c.kind not in E.STREAM_OUT:
            c.outs = []
    together = rng.random() < 0.5
    what = {"comp": str(comp), "server_comps": cfg.server_comps, "together": together, "calls": [c.brief() for c in calls]}
    tag = "grpc-client"
    log = E.Log()
    app = E.build_app(cfg, picker(calls), log)
    with real.Hypercorn(app) as srv:
        def main():
            with grpc.insecure_channel(f"127.0.0.1:{srv.port}", OPTS) as ch:
                if together:
                    with concurrent.futures.ThreadPoolExecutor(len(calls)) as ex:
                        return list(ex.map(lambda c: gcall(ch, c, comp), calls))
                return [gcall(ch, c, comp) for c in calls]

        try:
            rs = real.in_thread(main)
        except real.Stuck:
            rec.fail(f"{tag}:never-completes", what)
            return
        if not settled(rec, tag, log, what):
            return
    by = {c.cid: c for c in log.calls}
    for c, r in zip(calls, rs):
        h = by.get(c.cid)
        if not judge(rec, tag, c, (*r, h and (h.reqs, h.headers)), {**what, "call": c.brief()}):
            return
        rec.seen("combinations", (tag, c.kind, c.want[:2], str(comp)))
    rec.sample(what)


# --------------------------------------------------------------------------- grpcio's server
class GServer:
    """A generic grpcio server which runs the scripts of the calls and records what it saw."""

    def __init__(self, calls, comp) -> None:
        self.by = {c.cid: c for c in calls}
        self.seen: dict = {}
        self.srv = grpc.server(concurrent.futures.ThreadPoolExecutor(16), options=OPTS, compression=comp)
        hs = {}
        for k in GKINDS:
            mk = {(False, False): grpc.unary_unary_rpc_method_handler, (False, True): grpc.unary_stream_rpc_method_handler,
                  (True, False): grpc.stream_unary_rpc_method_handler, (True, True): grpc.stream_stream_rpc_method_handler}[(k in E.STREAM_IN, k in E.STREAM_OUT)]
            hs[R.PATHS[k]] = mk(self.handler(k), request_deserializer=g.Msg.FromString, response_serializer=lambda m: m.SerializeToString())
        self.srv.add_generic_rpc_handlers((grpc.method_handlers_generic_handler("verif.v1.Probe", hs),))
        self.port = self.srv.add_insecure_port("127.0.0.1:0")
        self.srv.start()

    def handler(self, kind):
        def run(request, ctx):
            md = from_gmeta(ctx.invocation_metadata())
            c = self.by[dict(md)["x-cid"]]
            rec = self.seen[c.cid] = {"reqs": [], "md": md, "remaining": ctx.time_remaining(), "method": kind, "ended": threading.Event()}
            ctx.add_callback(rec["ended"].set)
            it = request if kind in E.STREAM_IN else None
            if it is None:
                rec["reqs"].append(request)
            hdr, trl, sent = [], [], False
            for op, *a in c.script:
                if op == "hdr":
                    hdr.append(tuple(a))
                    continue
                if op == "trl":
                    trl.append(tuple(a))
                    continue
                if not sent and op in ("send", "ret", "recv"):
                    sent = True
                    ctx.send_initial_metadata(to_gmeta(hdr))
                if op == "recv":
                    rec["reqs"].append(next(it))
                elif op == "recvall":
                    for m in it:
                        rec["reqs"].append(m)
                    rec["end"] = True
                elif op == "send":
                    yield to_g(a[0])
                elif op == "ret":
                    ctx.set_trailing_metadata(to_gmeta(trl))
                    yield to_g(a[0])
                    return
                elif op == "wait":
                    rec["ended"].wait(real.PATIENCE)
                elif op == "raise":
                    _, code, text, ds = c.want
                    if not sent:
                        ctx.send_initial_metadata(to_gmeta(hdr))
                    if ds:
                        trl.append(("grpc-status-details-bin", R.b64(R.status_bin(R.GRPC[code], text, ds))))
                    ctx.set_trailing_metadata(to_gmeta(trl))
                    ctx.abort(next(s for s in grpc.StatusCode if s.value[0] == R.GRPC[code]), text)
            if not sent:
                ctx.send_initial_metadata(to_gmeta(hdr))
            ctx.set_trailing_metadata(to_gmeta(trl))

        if kind in E.STREAM_OUT:
            return run

        def one(request, ctx):
            for o in run(request, ctx):
                return o

        return one

    def __enter__(self):
        return self

    def __exit__(self, *a) -> None:
        self.srv.stop(0).wait(real.PATIENCE)

    def all_ended(self) -> None:
        """grpcio has told every handler that its call is over."""
        for h in list(self.seen.values()):
            if not h["ended"].wait(real.PATIENCE / 2):
                raise NotEnded


def grpc_server(rec, rng, idx):
    """The library's client calls grpcio's server."""
    cfg = E.Cfg(proto="grpc", client=rng.choice(["async", "async", "sync"]), send=rng.choice([None, "gzip", "deflate"]), accept=rng.choice([None, [], ["gzip"], ["deflate"], ["br", "gzip"], ["br"]]))
    accepted = ["gzip"] if cfg.accept is None else cfg.accept
    # told to compress, grpcio does not look at what the client accepts
    comp = rng.choice(COMP[:2] + [grpc.Compression.Gzip] * ("gzip" in accepted) + [grpc.Compression.Deflate] * ("deflate" in accepted))
    duplex = cfg.client == "async"
    sizes = SIZES if rng.random() < 0.2 else None
    calls = [Call(rng, rng.choice(GKINDS), f"c{i}", duplex=duplex, sizes=sizes) for i in range(rng.randint(2, 7))]
    timeout = rng.choice([None, 100000, 3600000, 86400000])
    together = rng.random() < 0.5
    tag = f"grpc-server:{cfg.client}"
    what = {**cfg.brief(), "comp": str(comp), "together": together, "timeout": timeout, "calls": [c.brief() for c in calls]}

    def spec(c):
        s = c.spec()
        s.timeout_ms = timeout
        return s

    with GServer(calls, comp) as srv:
        cfg.base = f"http://127.0.0.1:{srv.port}"
        t0 = time.time()
        try:
            rs = library_calls(cfg, calls, spec, together)
        except real.Stuck:
            rec.fail(f"{tag}:never-completes", what)
            return
        spent = time.time() - t0
    for c, r in zip(calls, rs):
        h = srv.seen.get(c.cid)
        if not c.hdr and not r.msgs and own(r.headers) == own(r.trailers):
            # grpcio sends a single block of headers, the trailers
            r.headers = []
            rec.ev("trailers_only")
        if not judge(rec, tag, c, (r.outcome(), r.msgs, r.headers, r.trailers, h and (h["reqs"], h["md"])), {**what, "call": c.brief()}):
            return
        rec.check(h["method"] == c.kind, f"{tag}:method", what)
        left = h["remaining"]
        if timeout is None:
            rec.check(left is None or left > 1e6, f"{tag}:timeout-invented", lambda: {"case": what, "remaining": left})
        else:
            rec.check(left is not None and timeout / 1000 - spent - 2 <= left <= timeout / 1000 + 2, f"{tag}:timeout", lambda: {"case": what, "remaining": left, "spent": spent})
        rec.seen("combinations", (tag, c.kind, c.want[:2], str(comp), cfg.send))
    rec.sample(what)


class NotEnded(Exception):
    pass


def library_calls(cfg, calls, spec, together: bool, ver=HTTPVersion.HTTP2, check=None):
    """Results of the calls.  `check` runs while the connections are still open."""
    if cfg.client == "async":
        async def main():
            async with HTTPTransport(http_version=ver) as tr:
                client = E.build_client(cfg, tr)
                if together:
                    rs = await asyncio.gather(*(E.acall(client, spec(c)) for c in calls))
                else:
                    rs = [await E.acall(client, spec(c)) for c in calls]
                if check is not None:
                    await asyncio.get_running_loop().run_in_executor(None, check)
                await client.close()
                return rs

        return real.run_async(main, real.PATIENCE * (1 + (check is not None)))

    def smain():
        with SyncHTTPTransport(http_version=ver) as tr:
            client = E.build_client(cfg, tr)
            if together:
                with concurrent.futures.ThreadPoolExecutor(len(calls)) as ex:
                    rs = list(ex.map(lambda c: E.scall(client, spec(c)), calls))
            else:
                rs = [E.scall(client, spec(c)) for c in calls]
            if check is not None:
                check()
            client.close()
            return rs

    return real.in_thread(smain, real.PATIENCE * (1 + (check is not None)))


# --------------------------------------------------------------------------- calls that do not run to their end
def h2_of(rng, name: str) -> bool:
    return name.startswith("hypercorn") and rng.random() < 0.6


class Release:
    """Handlers wait for the end of the test, or send until they are stopped."""

    def __init__(self) -> None:
        self.ev = threading.Event()

    async def wait(self, ctx, c):
        while not self.ev.is_set():
            await asyncio.sleep(0.01)

    def ticks(self):
        def steps():
            while not self.ev.is_set():
                yield ("sleep", 0.005)
                yield ("send", M.Out(id="tick"))
        return steps()


def unfinished(rng, kind: str, cid: str, leave: bool, rel: Release):
    """A handler that answers with a few messages and then does not end by itself."""
    c = Call(rng, kind, cid, duplex=False, fail=False)
    c.outs = [M.out(rng) for _ in range(rng.choice([1, 2]) if leave else rng.choice([0, 1]))] if kind in E.STREAM_OUT else []
    c.script = [("hdr", *h) for h in c.hdr] + [("recvall",)] * (kind in E.STREAM_IN) + [("send", o) for o in c.outs]
    if not leave:
        c.script += [("do", rel.wait)]
        if kind not in E.STREAM_OUT:
            c.script.append(("ret", M.Out(id="late")))
    return c


def endless(calls, rel: Release, leave: bool):
    by = {c.cid: c for c in calls}

    def pick(name, req, ctx):
        c = by[ctx.request_headers["x-cid"]]
        return itertools.chain(c.script, rel.ticks()) if leave else c.script

    return pick


def ends(rec, rng, idx):
    """Deadlines and callers that leave reach the handler across a real connection."""
    name = ["hypercorn", "uvicorn"][idx % 2]
    h2 = h2_of(rng, name)
    cfg = E.random_cfg(rng, proto=rng.choice(["connect", "grpcweb"] + ["grpc"] * 2 * h2), pair=(rng.choice(["async", "sync"]), "asgi"))
    cfg.plan = None
    leave = rng.random() < 0.5
    kind = rng.choice(["server_stream", "watch"]) if leave else rng.choice(["unary", "get", "idem", "client_stream", "server_stream", "watch", "bidi"])
    rel = Release()
    calls = [unfinished(rng, kind, f"c{i}", leave, rel) for i in range(rng.randint(1, 3))]
    ms = rng.randint(40, 250)
    tag = f"ends:{name}:{'h2' if h2 else 'h1'}:{cfg.proto}:{cfg.client}:{'leave' if leave else 'deadline'}"
    what = {**cfg.brief(), "server": name, "http": 2 if h2 else 1, "timeout_ms": None if leave else ms, "calls": [c.brief() for c in calls]}
    log = E.Log()
    app = E.build_app(cfg, endless(calls, rel, leave), log)

    def spec(c):
        s = c.spec()
        if leave:
            s.stop_after = len(c.outs)
            s.how_stop = "aclose"
        else:
            s.timeout_ms = ms
        return s

    with real.SERVERS[name](app) as srv:
        cfg.base = srv.base
        ended = False

        def after():
            # while the client is there: closing its connections would end everything
            nonlocal ended
            if not leave:
                rel.ev.set()
            ended = settled(rec, tag, log, what)

        try:
            rs = library_calls(cfg, calls, spec, rng.random() < 0.5, HTTPVersion.HTTP2 if h2 else HTTPVersion.HTTP1, check=after)
        except real.Stuck:
            rec.fail(f"{tag}:never-completes", what)
            return
        finally:
            rel.ev.set()
        if not ended:
            return
    by = {c.cid: c for c in log.calls}
    for c, r in zip(calls, rs):
        rec.ev("calls")
        h = by.get(c.cid)
        if leave:
            rec.check(r.ok and r.stopped and M.canons(r.msgs) == M.canons(c.outs), f"{tag}:outcome", lambda: {"case": what, "received": repr(r.outcome())[:300]})
            rec.check(h is not None and h.finished != "ok", f"{tag}:handler", lambda: {"case": what, "finished": h and h.finished})
        else:
            rec.check(r.err is not None and r.err.code is Code.DEADLINE_EXCEEDED, f"{tag}:outcome", lambda: {"case": what, "received": repr(r.outcome())[:300]})
            rec.check(O.is_prefix(M.canons(r.msgs), M.canons(c.outs)), f"{tag}:messages", what)
            if h is not None:  # the deadline can pass before the request arrives
                rec.check(h.timeout_ms is not None and -60000 <= h.timeout_ms <= ms, f"{tag}:timeout", lambda: {"case": what, "told": h.timeout_ms})
        rec.nontrivial((tag, kind, c.cid, len(c.outs), [M.canon(m) for m in c.ins]))


def grpc_ends(rec, rng, idx):
    """The same with grpcio on one side."""
    leave = rng.random() < 0.5
    kind = rng.choice(["server_stream", "watch"]) if leave else rng.choice(GKINDS)
    rel = Release()
    ms = rng.randint(40, 250)
    if idx % 2:
        cfg = E.Cfg(proto="grpc", server="asgi")
        calls = [unfinished(rng, kind, f"c{i}", leave, rel) for i in range(rng.randint(1, 3))]
        tag = f"grpc-client:{'leave' if leave else 'deadline'}"
        what = {"timeout_ms": None if leave else ms, "calls": [c.brief() for c in calls]}
        log = E.Log()
        app = E.build_app(cfg, endless(calls, rel, leave), log)
        with real.Hypercorn(app) as srv:
            def main():
                with grpc.insecure_channel(f"127.0.0.1:{srv.port}", OPTS) as ch:
                    rs = [gcall(ch, c, None, leave=len(c.outs)) if leave else gcall(ch, c, None, timeout=ms / 1000) for c in calls]
                    if not leave:
                        rel.ev.set()
                    # closing the connection would end everything
                    return rs, settled(rec, tag, log, what)

            try:
                rs, ended = real.in_thread(main, real.PATIENCE * 2)
            except real.Stuck:
                rec.fail(f"{tag}:never-completes", what)
                return
            finally:
                rel.ev.set()
            if not ended:
                return
        by = {c.cid: c for c in log.calls}
        for c, r in zip(calls, rs):
            rec.ev("calls")
            h = by.get(c.cid)
            rec.check(r[0][:2] == ("err", "canceled" if leave else "deadline_exceeded"), f"{tag}:outcome", lambda: {"case": what, "received": repr(r[0])[:300]})
            a, b = M.canons(r[1]), M.canons(c.outs)
            rec.check(a[:len(b)] == b if leave else O.is_prefix(a, b), f"{tag}:messages", what)
            if h is not None:
                rec.check(not leave or h.finished != "ok", f"{tag}:handler", lambda: {"case": what, "finished": h.finished})
                told = h.timeout_ms  # grpcio rounds up what it sends
                rec.check(told is None if leave else told is not None and -60000 <= told <= ms * 1.1 + 2, f"{tag}:timeout", lambda: {"case": what, "told": told})
            rec.nontrivial((tag, kind, c.cid, len(c.outs), [M.canon(m) for m in c.ins]))
        return
    cfg = E.Cfg(proto="grpc", client=rng.choice(["async", "sync"]))
    calls = [unfinished(rng, kind, f"c{i}", leave, rel) for i in range(rng.randint(1, 3))]
    for c in calls:
        c.script = [s for s in c.script if s[0] not in ("do", "ret")] + [("wait",)]
    tag = f"grpc-server:{cfg.client}:{'leave' if leave else 'deadline'}"
    what = {"client": cfg.client, "timeout_ms": None if leave else ms, "calls": [c.brief() for c in calls]}

    def spec(c):
        s = c.spec()
        if leave:
            s.stop_after = len(c.outs)
            s.how_stop = "aclose"
        else:
            s.timeout_ms = ms
        return s

    with GServer(calls, None) as srv:
        cfg.base = f"http://127.0.0.1:{srv.port}"
        try:
            rs = library_calls(cfg, calls, spec, rng.random() < 0.5, HTTPVersion.HTTP2, check=srv.all_ended)
        except real.Stuck:
            rec.fail(f"{tag}:never-completes", what)
            return
        except NotEnded:
            rec.fail(f"{tag}:server-not-told", what)
            return
    for c, r in zip(calls, rs):
        rec.ev("calls")
        if leave:
            rec.check(r.ok and r.stopped and M.canons(r.msgs) == M.canons(c.outs), f"{tag}:outcome", lambda: {"case": what, "received": repr(r.outcome())[:300]})
        else:
            rec.check(r.err is not None and r.err.code is Code.DEADLINE_EXCEEDED, f"{tag}:outcome", lambda: {"case": what, "received": repr(r.outcome())[:300]})
        rec.nontrivial((tag, kind, c.cid, len(c.outs), [M.canon(m) for m in c.ins]))


# --------------------------------------------------------------------------- refused while the request is still being sent
def refused(rec, rng, idx):
    """Large requests which the server answers without needing all of them; the caller sees the answer and the next call works."""
    name = REFUSED[idx % len(REFUSED)]
    wsgi = name in real.WSGI
    h2 = h2_of(rng, name)
    unary = name == "wsgiref"
    protos = ["connect"] if unary else ["connect", "grpcweb"] + (["grpc"] * 2 if h2 and not wsgi else [])
    cfg = E.random_cfg(rng, proto=rng.choice(protos), pair=(rng.choice(["async", "sync"]), "wsgi" if wsgi else "asgi"))
    cfg.plan, cfg.send = None, rng.choice([None, None, "gzip"])
    cfg.server_comps = ["gzip"]
    why = rng.choice(["path", "codec", "limit", "compression"] + ["handler", "handler-late"] * 2 * (not unary))
    if name == "hypercorn-wsgi" and why in ("path", "codec"):
        why = "limit"  # it answers 500 for responses without a body
    kinds = ["unary"] if unary else ["client_stream", "bidi"] if why.startswith("handler") else ["unary", "client_stream", "bidi", "server_stream"]
    kind = rng.choice(kinds)
    big = [M.Msg(id="big", data=rng.randbytes(1000) * rng.choice([100, 1000, 3000])) for _ in range(rng.choice([1, 3]) if kind in E.STREAM_IN else 1)]
    good = Call(rng, "unary", "c1", duplex=False, fail=False, sizes=[0, 10], joined=wsgi)
    make, fails = failure(rng)
    script = [("recv",)] * (why == "handler-late") + [("recvall",)] * (why == "limit") + [("raise", make)]
    bad = dataclasses.replace(cfg)  # the client of the call that is refused
    if why == "limit":
        cfg.server_max = rng.choice([2000, 50000])
    elif why == "codec":
        bad.codec, cfg.codec = rng.choice([("proto", "json"), ("json", "proto")])
        cfg.server_codecs = [E.CODECS[cfg.codec]()]
    elif why == "compression":
        bad.send = "zstd"
    want = ("err", fails[1]) if why.startswith("handler") else ("err", {"limit": "resource_exhausted", "codec": "unknown"}.get(why, "unimplemented"))
    tag = f"refused:{name}:{'h2' if h2 else 'h1'}:{cfg.proto}:{cfg.client}:{why}"
    what = {**cfg.brief(), "server": name, "http": 2 if h2 else 1, "kind": kind, "bytes": sum(len(m.data) for m in big), "why": why}
    log = E.Log()
    spec = E.Spec(kind, big, headers=Headers([("x-cid", "c0")]))
    app = E.build_app(cfg, lambda n, req, ctx: script if ctx.request_headers["x-cid"] == "c0" else good.script, log)
    ver = HTTPVersion.HTTP2 if h2 else HTTPVersion.HTTP1
    with real.SERVERS[name](app) as srv:
        cfg.base, bad.base = srv.base, srv.base + "/elsewhere" * (why == "path")
        if cfg.client == "async":
            async def amain():
                async with HTTPTransport(http_version=ver) as tr:
                    return [await E.acall(E.build_client(bad, tr), spec), await E.acall(E.build_client(cfg, tr), good.spec())]

            run = lambda: real.run_async(amain)  # noqa: E731
        else:
            def smain():
                with SyncHTTPTransport(http_version=ver) as tr:
                    return [E.scall(E.build_client(bad, tr), spec), E.scall(E.build_client(cfg, tr), good.spec())]

            run = lambda: real.in_thread(smain)  # noqa: E731
        try:
            first, second = run()
        except real.Stuck:
            rec.fail(f"{tag}:never-completes", what)
            return
        if not settled(rec, tag, log, what):
            return
    rec.ev("calls")
    out = first.outcome()
    if not rec.check(out[:2] == want and (not why.startswith("handler") or out == fails), f"{tag}:outcome",
                     lambda: {"case": what, "expected": repr(fails if why.startswith("handler") else want)[:300], "received": repr(out)[:300]}):
        return
    mine = [c for c in log.calls if c.cid != "c1"]
    n = len(mine)
    if not rec.check(n == 1 if why.startswith("handler") else n <= (kind in E.STREAM_IN and why == "limit"), f"{tag}:handlers", lambda: {"case": what, "n": n}):
        return
    h = next((c for c in log.calls if c.cid == "c1"), None)
    if judge(rec, f"{tag}:next", good, (second.outcome(), second.msgs, second.headers, second.trailers, h and (h.reqs, h.headers)), what):
        rec.nontrivial((tag, kind, sum(len(m.data) for m in big)))
        rec.seen("refused", (name, h2, cfg.proto, why, kind))


# ASGI servers may close connections whose requests were not read
REFUSED = ["werkzeug", "wsgiref", "werkzeug", "hypercorn-wsgi"]


# --------------------------------------------------------------------------- bad networks
def network(rec, rng, idx):
    """A connection that delivers odd pieces, and one that breaks: a call that lost something never succeeds."""
    name = ["hypercorn", "hypercorn", "uvicorn", "werkzeug", "grpcio"][idx % 5]
    wsgi = name == "werkzeug"
    h2 = name == "grpcio" or h2_of(rng, name)
    protos = ["grpc"] if name == "grpcio" else ["connect", "grpcweb"] + (["grpc"] * 2 if h2 else [])
    cfg = E.random_cfg(rng, proto=rng.choice(protos), pair=(rng.choice(["async", "sync"]), "wsgi" if wsgi else "asgi"))
    if name == "grpcio":
        cfg.codec, cfg.send, cfg.accept = "proto", None, None
    cfg.plan = None
    k = rng.choice(KINDS[:2] + KINDS[3:])
    sizes = rng.choice([None, None, [0, 100, 5000, 40000]])
    c = Call(rng, k, "c0", duplex=False, joined=wsgi, sizes=sizes)
    cut = None
    way = rng.choice(["up", "down"])
    if rng.random() < 0.8:
        body = sum(len(m.to_binary()) for m in (c.ins if way == "up" else c.outs)) + 250
        cut = (way, rng.randint(1, body + 300))
    tag = f"network:{name}:{'h2' if h2 else 'h1'}:{cfg.proto}:{cfg.client}"
    what = {**cfg.brief(), "server": name, "http": 2 if h2 else 1, "cut": cut, "call": c.brief()}
    log = E.Log()
    app = E.build_app(cfg, picker([c]), log)
    with (GServer([c], None) if name == "grpcio" else real.SERVERS[name](app)) as srv, \
            real.Proxy(srv.port, rng, cut=cut, rst=rng.random() < 0.4, piece=rng.choice([0, 0, 1, 7, 100, 4096]) if sizes is None else 0,
                       pause=rng.choice([0, 0, 0.0002])) as px:
        cfg.base = px.base
        try:
            r, = library_calls(cfg, [c], lambda c: c.spec(), False, HTTPVersion.HTTP2 if h2 else HTTPVersion.HTTP1)
        except real.Stuck:
            rec.fail(f"{tag}:never-completes", {**what, "was_cut": px.was_cut})
            return
        broken = px.was_cut
        px.stop()
        if not broken and not settled(rec, tag, log, what):
            return
        end = time.time() + 2  # not all servers tell the application that the connection is lost
        while broken and time.time() < end and any(not c.cleanups for c in log.calls):
            time.sleep(0.01)
    if name == "grpcio":
        hs = [(h["reqs"], h["md"], h.get("end", False)) for h in srv.seen.values()]
    else:
        hs = [(h.reqs, h.headers, h.recv_end) for h in log.calls]
    rec.ev("broken" if broken else "whole")
    if not broken:
        judge(rec, tag, c, (r.outcome(), r.msgs, r.headers, r.trailers, hs[0][:2] if hs else None), what) if not (
            name == "grpcio" and not c.hdr and not c.outs) else None
        return
    rec.ev("calls")
    rec.check(r.exc is None, f"{tag}:other-exception", lambda: {"case": what, "received": repr(r.outcome())[:300]})
    ins, outs, got = M.canons(c.ins), M.canons(c.outs), M.canons(r.msgs)
    if r.ok:
        # everything can have arrived before the break
        rec.check(c.want == ("ok",) and got == outs and len(hs) == 1 and M.canons(hs[0][0]) == ins, f"{tag}:success-of-a-broken-call",
                  lambda: {"case": what, "got": len(got), "handlers": len(hs)})
    else:
        rec.check(O.is_prefix(got, outs), f"{tag}:messages", lambda: {"case": what, **O.diff(outs, got)})
    if wsgi and b"\r\n\r\n" not in px.up:
        return  # http.server takes headers that were cut off for whole ones
    for reqs, _, end in hs:
        a = M.canons(reqs)
        end = end and name != "grpcio"  # whose iterators can end when the connection is lost
        rec.check(O.is_prefix(a, ins) and (not end or a == ins), f"{tag}:handler-saw-whole-request", lambda: {"case": what, "end": end, **O.diff(ins, a)})
    rec.seen("outcomes", (tag, r.outcome()[:2]))
    rec.nontrivial((tag, k, cut, [M.canon(m) for m in c.ins + c.outs]))


WORKLOADS = {
    "own": Workload(own_, 1500, 20000),
    "grpc_client": Workload(grpc_client, 1000, 15000),
    "grpc_server": Workload(grpc_server, 1000, 15000),
    "ends": Workload(ends, 200, 3000),
    "grpc_ends": Workload(grpc_ends, 200, 3000),
    "refused": Workload(refused, 1000, 15000),
    "network": Workload(network, 1000, 15000),
}
