"""Runs histories of instrumenting, removing and importing in interpreters that have not imported connectrpc.

Reads a JSON list of histories from stdin and writes a JSON list of observations.  Each history runs in a
forked child.  Operations: i / I (instrument with the first / second provider), u (uninstrument), c (import
connectrpc.client), s (import connectrpc.server), g (import a generated style module: both), o (create a client
and an application and call)."""
import asyncio
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")
import logging  # noqa: E402

logging.disable(logging.CRITICAL)

from connectrpc_otel._instrumentor import ConnectInstrumentor  # noqa: E402
from opentelemetry.sdk.resources import Resource  # noqa: E402
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider  # noqa: E402


class Rec(SpanProcessor):
    def __init__(self):
        self.ended = []

    def on_end(self, span):
        self.ended.append(span.kind.name)


def provider():
    r = Rec()
    tp = TracerProvider(resource=Resource.get_empty(), shutdown_on_exit=False)
    tp.add_span_processor(r)
    return tp, r


def observe(recs):
    from connectrpc.client import ConnectClient, ConnectClientSync
    from connectrpc.method import IdempotencyLevel, MethodInfo
    from connectrpc.server import ConnectASGIApplication, ConnectWSGIApplication, Endpoint, EndpointSync
    from protobuf.wkt import StringValue
    from pyqwest import Client, SyncClient
    from pyqwest.testing import ASGITransport, WSGITransport

    mi = MethodInfo(name="M", service_name="d.D", input=StringValue, output=StringValue, idempotency_level=IdempotencyLevel.UNKNOWN)
    n = []

    class Own:
        async def on_start(self, ctx):
            n.append("s")

        async def on_end(self, token, ctx, error):
            n.append("e")

        def on_start_sync(self, ctx):
            n.append("s")

        def on_end_sync(self, token, ctx, error):
            n.append("e")

    async def fn(req, ctx):
        return StringValue(value=req.value + "!")

    def fns(req, ctx):
        return StringValue(value=req.value + "!")

    class A(ConnectASGIApplication):
        path = "/d.D"

    class W(ConnectWSGIApplication):
        path = "/d.D"

    for r in recs:
        r.ended.clear()
    app = A(service=None, endpoints=lambda _s: {"/d.D/M": Endpoint.unary(mi, fn)}, interceptors=(x for x in [Own()]))
    wapp = W(endpoints={"/d.D/M": EndpointSync.unary(method=mi, function=fns)}, interceptors=(x for x in [Own()]))

    async def main():
        c = ConnectClient("http://d.test", http_client=Client(ASGITransport(app)), interceptors=iter([Own()]))
        return (await c.execute_unary(request=StringValue(value="a"), method=mi)).value

    v1 = asyncio.run(main())
    a = [list(r.ended) for r in recs]
    for r in recs:
        r.ended.clear()
    c = ConnectClientSync("http://d.test", http_client=SyncClient(WSGITransport(app=wapp)), interceptors=iter([Own()]))
    v2 = c.execute_unary(request=StringValue(value="b"), method=mi).value
    b = [list(r.ended) for r in recs]
    return {"values": [v1, v2], "async": a, "sync": b, "own": "".join(n)}


def run(history):
    tps = [provider(), provider()]
    recs = [r for _, r in tps]
    ins = ConnectInstrumentor()
    out = []
    for op in history:
        if op == "i":
            ins.instrument(tracer_provider=tps[0][0], skip_dep_check=True)
        elif op == "I":
            ConnectInstrumentor().instrument(tracer_provider=tps[1][0], skip_dep_check=True)
        elif op == "u":
            ins.uninstrument()
        elif op == "c":
            import connectrpc.client  # noqa: F401
        elif op == "s":
            import connectrpc.server  # noqa: F401
        elif op == "g":
            import connectrpc.client
            import connectrpc.server  # noqa: F401
        elif op == "o":
            out.append(observe(recs))
    return out


def main():
    res = []
    for h in json.load(sys.stdin):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                data = {"ok": run(h)}
            except BaseException as e:  # noqa: BLE001
                import traceback
                data = {"exc": repr(e), "tb": traceback.format_exc(limit=-6)}
            with os.fdopen(w, "w") as f:
                json.dump(data, f)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            s = f.read()
        os.waitpid(pid, 0)
        res.append(json.loads(s) if s else {"exc": "the process died"})
    json.dump(res, sys.stdout)


assert "connectrpc.client" not in sys.modules and "connectrpc.server" not in sys.modules
if __name__ == "__main__":
    main()
