"""P01: messages arrive exactly once, in order and unchanged."""
from __future__ import annotations

from protobuf import Registry
from protobuf import Oneof
from protobuf.wkt import (
    Any, Api, BoolValue, BytesValue, DoubleValue, Duration, Empty, Field, FieldMask, Int64Value, ListValue, SourceContext, StringValue, Timestamp, Type, Value,
    any_pb, duration_pb,
)
from pyqwest import Client, SyncClient

from connectrpc.client import ConnectClient, ConnectClientSync
from connectrpc.codec import proto_binary_codec, proto_json_codec
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.server import ConnectASGIApplication, ConnectWSGIApplication, Endpoint, EndpointSync

from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from ..bridge import Plan
from .. import vloop, vtime
from ..core import Workload
from ..gen import verif_pb as VP

ID = "P01"
RULE = ("A case is one or more complete RPCs between the real client and the real application over an in-process "
        "network; the oracle compares the message sequences recorded at the four ends through google.protobuf. "
        "Non-trivial: at least one message crossed in each direction that the RPC kind allows to be empty, or the "
        "empty stream itself was the point; distinct by configuration, RPC kind and message contents.")
ASSUME = ["protobuf messages are compared after parsing by google.protobuf with deterministic serialisation",
          "negative zero is not generated: the JSON codec of the protobuf library used drops its sign"]

COMPS = [None, "gzip", "br", "zstd"]
KINDS = ["unary", "get", "GET", "idem", "client_stream", "server_stream", "bidi", "watch"]
MATRIX = [(p, k, c, s, a, pair) for p in E.PROTOS for k in KINDS for c in ("proto", "json") for s in COMPS for a in COMPS for pair in E.PAIRS]


def build(rng, kind: str, sizes=None, nmax: int = 5):
    """Messages, handler script and what the client should get."""
    n_in = rng.choice([0, 1, 2, nmax]) if kind in E.STREAM_IN else 1
    n_out = rng.choice([0, 1, 2, nmax]) if kind in E.STREAM_OUT else 1
    size = (lambda: rng.choice(sizes)) if sizes else (lambda: None)
    ins = [M.msg(rng, size=size()) for _ in range(n_in)]
    outs = [M.out(rng, size=size()) for _ in range(n_out)]
    if rng.random() < 0.04:  # as deep as every implementation of protobuf accepts
        if ins:
            ins[-1] = M.deep(rng.choice([3, 30, 99, 100]), rng)
        if outs:
            outs[-1] = M.Out(id="deep", echo=M.deep(rng.choice([3, 30, 98, 99]), rng))
    if kind == "bidi":
        pat = rng.choice(["all-first", "lockstep", "echo", "send-first"])
        if pat == "all-first":
            script = [("recvall",)] + [("send", o) for o in outs]
        elif pat == "send-first":
            script = [("send", o) for o in outs] + [("recvall",)]
        elif pat == "echo":
            outs = [M.out(rng) for _ in ins]
            it = iter(outs)
            script = [("echoall", lambda m: next(it))]
        else:
            script = []
            for i in range(max(n_in, n_out)):
                if i < n_in:
                    script.append(("recv",))
                if i < n_out:
                    script.append(("send", outs[i]))
            script.append(("recvall",))
    elif kind == "client_stream":
        script = [("recvall",), ("ret", outs[0])]
    elif kind in E.STREAM_OUT:
        script = [("send", o) for o in outs]
    else:
        script = [("ret", outs[0])]
    return ins, outs, script


def one(rec, rng, cfg, kind: str, sizes=None, nmax: int = 5, tag: str = "") -> None:
    k = "get" if kind == "GET" else kind
    ins, outs, script = build(rng, k, sizes, nmax)
    spec = E.Spec(k, ins, use_get=kind == "GET")
    what = {**cfg.brief(), "kind": kind, "in": len(ins), "out": len(outs)}
    t = E.run_one(cfg, script, spec)
    if O.hang(rec, t, kind, what):
        return
    if O.delivered(rec, t, spec, outs, kind, what):
        rec.check(t.call.method == k, f"{kind}:method", what)
        rec.check(t.call.recv_error is None, f"{kind}:recv-error", what)
    if kind == "GET":
        rec.check(t.ex.method == ("GET" if cfg.proto == "connect" else "POST"), "GET:method-used", what)
    rec.ev("rpcs")
    rec.seen("configurations", (cfg.key(), kind))
    rec.nontrivial((cfg.key(), kind, [M.canon(m) for m in ins + outs]))
    rec.sample(what)


def matrix(rec, rng, idx):
    p, k, c, s, a, pair = MATRIX[idx % len(MATRIX)]
    cfg = E.Cfg(proto=p, codec=c, client=pair[0], server=pair[1], send=s, accept=[a] if a else [],
                server_comps=["gzip", "br", "zstd"], plan=Plan.random(rng))
    one(rec, rng, cfg, k)


def random_(rec, rng, idx):
    cfg = E.random_cfg(rng)
    one(rec, rng, cfg, rng.choice(KINDS), nmax=rng.choice([3, 8, 20]))


SIZES = [0, 1, 2, 100, 122, 123, 124, 125, 126, 127, 128, 129, 250, 4084, 4085, 4086, 4087, 4088, 4089, 4090, 4091, 4092, 4093, 4094,
         4095, 4096, 4097, 4100, 8191, 8192, 8193, 12288, 16383, 16384, 32768, 65530, 65535, 65536, 65537, 131072, 262144]


def large(rec, rng, idx):
    cfg = E.random_cfg(rng)
    cfg.plan.req_mode = rng.choice(["asis", "random"])
    cfg.plan.resp_mode = rng.choice(["asis", "random"])
    sizes = [SIZES[idx % len(SIZES)]] if idx < 8 * len(SIZES) else SIZES
    one(rec, rng, cfg, rng.choice(KINDS), sizes=sizes, nmax=4)


def huge(rec, rng, idx):
    cfg = E.random_cfg(rng)
    cfg.plan.req_mode = cfg.plan.resp_mode = "asis"
    one(rec, rng, cfg, rng.choice(["unary", "bidi", "client_stream", "server_stream"]), sizes=[(1 << 20) - 1, 1 << 20, (1 << 20) + 3, 3 << 20, (1 << 24) + 1], nmax=1)


def many(rec, rng, idx):
    cfg = E.random_cfg(rng)
    one(rec, rng, cfg, rng.choice(["client_stream", "server_stream", "bidi"]), nmax=rng.choice([100, 400]))


def session(rec, rng, idx):
    """Several RPCs of all kinds through one client and one application."""
    cfg = E.random_cfg(rng)
    specs, allouts, scripts = [], [], []
    for _ in range(rng.randint(3, 8)):
        kind = rng.choice(KINDS)
        k = "get" if kind == "GET" else kind
        ins, outs, script = build(rng, k)
        specs.append(E.Spec(k, ins, use_get=kind == "GET"))
        allouts.append(outs)
        scripts.append(script)
    n = iter(range(len(scripts)))
    t = E.run_many(cfg, lambda name, req, ctx: scripts[next(n)], specs)
    what = {**cfg.brief(), "session": [s.kind for s in specs]}
    if O.hang(rec, t, "session", what, len(specs)):
        return
    for i, s in enumerate(specs):
        if not O.delivered(rec, t, s, allouts[i], "session:" + s.kind, what, i=i):
            return
    rec.ev("rpcs", len(specs))
    rec.nontrivial((cfg.key(), [s.kind for s in specs], idx))


class Meta:
    def __init__(self, log) -> None:
        self.log = log

    async def on_start(self, ctx):
        return self.on_start_sync(ctx)

    async def on_end(self, token, ctx, error):
        self.on_end_sync(token, ctx, error)

    def on_start_sync(self, ctx):
        self.log.append("start")

    def on_end_sync(self, token, ctx, error):
        self.log.append("end" if error is None else repr(error))


def iterators(rec, rng, idx):
    """Requests and responses which are iterators but not generators: classes with nothing but the iteration
    protocol, chains, maps; with and without interceptors around them."""
    cfg = E.random_cfg(rng)
    kind = rng.choice(["client_stream", "server_stream", "bidi"])
    cfg.plain = rng.random() < 0.8
    log: list = []
    n = 0
    if rng.random() < 0.6:
        cfg.client_interceptors = [Meta(log)]
        n += 1
    if rng.random() < 0.6:
        cfg.server_interceptors = [Meta(log)]
        n += 1
    ins, outs, script = build(rng, kind, nmax=rng.choice([3, 8]))
    spec = E.Spec(kind, ins, plain=rng.random() < 0.8)
    what = {**cfg.brief(), "kind": kind, "in": len(ins), "out": len(outs), "plain": (cfg.plain, spec.plain), "interceptors": n}
    t = E.run_one(cfg, script, spec)
    if O.hang(rec, t, kind, what):
        return
    if O.delivered(rec, t, spec, outs, "iterators:" + kind, what):
        rec.check(sorted(log) == ["end"] * n + ["start"] * n, f"iterators:{kind}:interceptors", lambda: {"case": what, "log": log})
    rec.ev("rpcs")
    rec.nontrivial((cfg.key(), kind, n, cfg.plain, spec.plain, [M.canon(m) for m in ins + outs]))


WKTS = [
    lambda rng: Duration(seconds=rng.randint(-999, 999)), lambda rng: Timestamp(seconds=rng.randint(0, 10**9), nanos=rng.choice([0, 1, 999999999])),
    lambda rng: Empty(), lambda rng: StringValue(value=rng.choice(["", "x", "\u00e9", "q" * 300])), lambda rng: Int64Value(value=rng.choice([0, -1, 2**63 - 1])),
    lambda rng: FieldMask(paths=rng.choice([[], ["a"], ["a.b", "c"]])), lambda rng: BytesValue(value=rng.randbytes(rng.randint(0, 9))),
    lambda rng: BoolValue(value=rng.random() < 0.5), lambda rng: DoubleValue(value=rng.choice([0.0, 1.5, -3e300])),
    lambda rng: SourceContext(file_name=rng.choice(["", "a.proto"])), lambda rng: ListValue(values=[Value(kind=Oneof("string_value", "x"))] * rng.randint(0, 2)),
    lambda rng: Type(name="t", fields=[Field(name="f", number=rng.randint(1, 9))]), lambda rng: Api(name="a", version="v"),
]


class AnyProbe:
    """The server of the workload below."""

    def __init__(self, sync: bool, got: list, out) -> None:
        self.got, self.out = got, out
        self.call = self._sync if sync else self._async

    def _sync(self, request, ctx):
        self.got.append(request)
        return self.out

    async def _async(self, request, ctx):
        return self._sync(request, ctx)


class AnyASGI(ConnectASGIApplication):
    @property
    def path(self) -> str:
        return "/verif.v1.Any"


class AnyWSGI(ConnectWSGIApplication):
    @property
    def path(self) -> str:
        return "/verif.v1.Any"


def registry(rec, rng, idx):
    """Any messages of the application's own types, with the registry users supply for JSON."""
    sync = bool(idx % 2)
    proto = list(E.PROTOS)[(idx // 2) % 3]
    codec = rng.choice(["json", "json", "proto"])
    get = proto == "connect" and rng.random() < 0.4
    wkts = rng.random() < 0.3  # the well-known types need no registry
    any_known = wkts or rng.random() < 0.5
    reg = None if wkts else Registry(VP.desc(), *([any_pb.desc()] if any_known else []), *([duration_pb.desc()] if rng.random() < 0.3 else []))
    codecs = [proto_binary_codec(), proto_json_codec(reg)]
    own_server = codec == "json" and not wkts or rng.random() < 0.5

    def pack():
        depth = rng.choice([0, 0, 1, 2]) if any_known or codec == "proto" else 0
        m = rng.choice(WKTS)(rng) if wkts else (M.msg if rng.random() < 0.5 else M.out)(rng, "own")
        a = Any.pack(m)
        for _ in range(depth):
            a = Any.pack(a)
        return a, type(m), depth

    (q, qt, qd), (r, rt, rd) = pack(), pack()
    info = MethodInfo(name="Call", service_name="verif.v1.Any", input=Any, output=Any,
                      idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS)
    got: list = []
    svc = AnyProbe(sync, got, r)
    kw: dict = {"codecs": codecs if own_server else None, "compressions": [E.COMPS[n]() for n in ("gzip", "zstd")]}
    if sync:
        app = AnyWSGI(endpoints={"/verif.v1.Any/Call": EndpointSync.unary(method=info, function=svc.call)}, **kw)
    else:
        app = AnyASGI(service=svc, endpoints=lambda s: {"/verif.v1.Any/Call": Endpoint.unary(method=info, function=s.call)}, **kw)
    cfg = E.random_cfg(rng, proto=proto, pair=("sync", "wsgi") if sync else ("async", "asgi"))
    cfg.server_comps = ["gzip", "zstd"]
    tr = E.build_transport(cfg, app)
    ck = {"protocol": E.PROTOS[proto], "codec": proto_json_codec(reg) if codec == "json" else proto_binary_codec(),
          "send_compression": E.comp(rng.choice([None, "gzip", "zstd"]))}
    what = {"wkts": wkts, "sync": sync, "proto": proto, "codec": codec, "get": get, "request": qt.__name__, "response": rt.__name__, "nested": [qd, rd], "registry_on_server": own_server}
    res: list = []
    if sync:
        with vtime.activate(vtime.Clock()), vloop.cpu_guard():
            c = ConnectClientSync(cfg.base, http_client=SyncClient(transport=tr), **ck)
            try:
                res.append(c.execute_unary(request=q, method=info, **({"use_get": True} if get else {})))
            except Exception as e:
                res.append(e)
    else:
        async def main():
            c = ConnectClient(cfg.base, http_client=Client(transport=tr), **ck)
            try:
                res.append(await c.execute_unary(request=q, method=info, **({"use_get": True} if get else {})))
            except Exception as e:
                res.append(e)
        rep = vloop.run(main, settle=1.0)
        if rep.deadlock:
            rec.fail("registry:never-completes", {"case": what, "stacks": rep.stacks[:4]})
            return

    def inner(a, t, depth):
        for _ in range(depth):
            a = a.unpack(any_pb.Any)
        m = a.unpack(t)
        return m if m is None or wkts else M.canon(m)

    rec.ev("any_messages_compared", 2)
    if not isinstance(res[0], Any) or len(got) != 1:
        rec.fail(f"registry:{proto}:failed", {"case": what, "outcome": repr(res[0])[:300], "handler": len(got)})
        return
    if inner(got[0], qt, qd) != inner(q, qt, qd) or inner(res[0], rt, rd) != inner(r, rt, rd) or inner(q, qt, qd) is None:
        rec.fail(f"registry:{proto}:changed", what)
        return
    rec.nontrivial((str(what), q.value))
    rec.sample(what)


WORKLOADS = {
    "matrix": Workload(matrix, len(MATRIX), len(MATRIX) * 12),
    "random": Workload(random_, 2500, 60000),
    "large": Workload(large, 8 * len(SIZES), 8 * len(SIZES) * 10),
    "huge": Workload(huge, 24, 300),
    "many": Workload(many, 48, 600),
    "iterators": Workload(iterators, 800, 20000),
    "registry": Workload(registry, 800, 16000),
    "session": Workload(session, 600, 12000),
}
