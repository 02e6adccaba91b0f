"""Small helpers for the demonstrations: a service built without generated code and in-memory transports."""
import asyncio
import struct
import sys

from connectrpc.client import ConnectClient, ConnectClientSync, ResponseMetadata
from connectrpc.code import Code
from connectrpc.codec import proto_binary_codec, proto_json_codec
from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.protocol import ProtocolType
from connectrpc.request import Headers
from connectrpc.server import ConnectASGIApplication, ConnectWSGIApplication, Endpoint, EndpointSync
from protobuf.wkt import BytesValue, StringValue
from pyqwest import Client, SyncClient
from pyqwest.testing import ASGITransport, WSGITransport

S = StringValue
U, CS, SS, BD = "unary", "client_stream", "server_stream", "bidi_stream"
CONNECT, GRPC, WEB = ProtocolType.CONNECT, ProtocolType.GRPC, ProtocolType.GRPC_WEB


def method(name, idem=IdempotencyLevel.UNKNOWN, inp=StringValue, out=StringValue):
    return MethodInfo(name=name, service_name="demo.v1.Demo", input=inp, output=out, idempotency_level=idem)


class App(ConnectASGIApplication):
    path = "/demo.v1.Demo"

    def __init__(self, fns, **kw):
        """fns: name -> (kind, function[, idempotency])"""
        eps = {f"/demo.v1.Demo/{n}": getattr(Endpoint, f[0])(method=method(n, *f[2:]), function=f[1]) for n, f in fns.items()}
        super().__init__(service=None, endpoints=lambda _svc: eps, **kw)


class AppSync(ConnectWSGIApplication):
    path = "/demo.v1.Demo"

    def __init__(self, fns, **kw):
        eps = {f"/demo.v1.Demo/{n}": getattr(EndpointSync, f[0])(method=method(n, *f[2:]), function=f[1]) for n, f in fns.items()}
        super().__init__(endpoints=eps, **kw)


def client(app, **kw):
    return ConnectClient("http://demo.test", http_client=Client(ASGITransport(app)), **kw)


def client_sync(app, **kw):
    return ConnectClientSync("http://demo.test", http_client=SyncClient(WSGITransport(app=app)), **kw)


def env(data, flags=0):
    return struct.pack(">BI", flags, len(data)) + data


async def asgi(app, path, headers, chunks, method="POST", query=b"", after=None, **scope):
    """Sends the chunks one by one; returns (status, headers, body, trailers, events)."""
    sc = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "2", "method": method, "scheme": "http", "path": path,
          "raw_path": path.encode(), "query_string": query, "root_path": "", "client": ("10.0.0.9", 4321), "server": ("demo.test", 80),
          "headers": [(k.encode(), v.encode()) for k, v in headers], "extensions": {"http.response.trailers": {}}, **scope}
    q = [{"type": "http.request", "body": c, "more_body": i + 1 < len(chunks)} for i, c in enumerate(chunks)] or [{"type": "http.request", "body": b"", "more_body": False}]
    if after is not None:
        q[-1]["more_body"] = True
        q.append(after)
    ev = []

    async def receive():
        await asyncio.sleep(0)
        if q:
            return q.pop(0)
        await asyncio.sleep(3600)

    async def send(m):
        ev.append(m)

    await asyncio.wait_for(app(sc, receive, send), 20)
    st = next((m for m in ev if m["type"] == "http.response.start"), None)
    tr = [m for m in ev if m["type"] == "http.response.trailers"]
    return (st and st["status"], {k.decode(): v.decode() for k, v in st["headers"]} if st else None,
            b"".join(m.get("body", b"") for m in ev if m["type"] == "http.response.body"),
            {k.decode(): v.decode() for m in tr for k, v in m["headers"]}, ev)


def envelopes(body):
    out = []
    while body:
        f, n = struct.unpack(">BI", body[:5])
        out.append((f, body[5:5 + n]))
        body = body[5 + n:]
    return out


def run(coro):
    return asyncio.run(asyncio.wait_for(coro, 60))


def check(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.exit(1)
