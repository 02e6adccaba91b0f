"""P02: how a body is split into chunks never matters."""
from __future__ import annotations

from .. import engine as E
from .. import msgs as M
from .. import mutate as MU
from .. import oracle as O
from .. import ref as R
from ..bridge import Plan
from ..core import Workload
from .. import vtime

ID = "P02"
RULE = ("A case is one body (valid, or mutated, truncated, reordered, with bytes after its end) delivered whole and then "
        "under several partitions to the real application or the real client; the observed outcomes (messages at the "
        "consumer, status, headers, body, trailers, error) must be identical. Immediacy cases deliver one chunk per "
        "virtual second and check when each message reaches its consumer. Non-trivial: at least one partition has two "
        "chunks or more; distinct by body and configuration.")
ASSUME = ["the response of the application is requested uncompressed so that its bytes are comparable"]

KINDS = ["unary", "get", "client_stream", "server_stream", "bidi"]


def cfg_for(rng, side: str) -> E.Cfg:
    cfg = E.Cfg(proto=rng.choice(list(E.PROTOS)), codec=rng.choice(["proto", "json"]),
                client=rng.choice(["async", "sync"]), server=rng.choice(["asgi", "wsgi"]),
                server_comps=["gzip", "br", "zstd"], accept=["gzip", "br", "zstd"], send=None)
    cfg.plan = Plan(rng)
    if rng.random() < 0.25:
        lim = rng.choice([0, 1, 10, 60, 300])
        cfg.server_max = lim
        cfg.client_max = lim
    return cfg


def body_for(rng, proto, kind, codec, response: bool):
    comp = rng.choice([None, None, "gzip", "br", "zstd"])
    single = kind not in (E.STREAM_OUT if response else E.STREAM_IN)
    n = 1 if single and rng.random() < 0.8 else rng.choice([0, 1, 2, 3, 6])
    if not R.enveloped(proto, kind):
        n = 1
    gen = M.out if response else M.msg
    ms = [gen(rng, size=rng.choice([None, None, 0, 1, 40, 300])) for _ in range(n)]
    per = [rng.random() < 0.7 for _ in ms]
    if response:
        err = rng.choice([None, None, ("internal", "boom: 100% é", (("a.B", b"\x01\x02"),))])
        if err and not R.enveloped(proto, kind):
            comp = None
        w = R.response(proto, kind, codec, ms, comp=comp if R.enveloped(proto, kind) else None, error=err, per_msg=per,
                       headers=[("x-h", "1")], trailers=[("x-t", "2")], compress_end=rng.random() < 0.3)
    else:
        w = R.request(proto, kind, codec, ms, comp=comp, per_msg=per)
    how = "valid"
    if rng.random() < 0.7:
        how, w.body = MU.mutate(rng, w.body)
    elif rng.random() < 0.3:
        how, w.body = "tail", w.body + rng.choice([b"\x00", w.body, R.env(b""), rng.randbytes(9)])
    if len(w.body) > 4000:
        w.body = w.body[:4000]
        how += "+cut"
    return how, w


def server_outcome(cfg, kind, w, outs, chunks):
    log = E.Log()
    if kind == "bidi":
        it = iter(outs)
        script = [("echoall", lambda m: next(it, None)), ("trl", "x-t", "v")]
    elif kind == "client_stream":
        script = [("recvall",), ("ret", outs[0])]
    elif kind == "server_stream":
        script = [("send", o) for o in outs]
    else:
        script = [("ret", outs[0])]
    app = E.build_app(cfg, E.as_pick(script), log)
    ex = E.serve_raw(cfg, app, w, chunks=chunks)
    calls = [(c.method, M.canons(c.reqs), c.recv_end, repr(c.recv_error), c.finished) for c in log.calls]
    return {"calls": calls, "resp": ex.resp(), "exc": repr(ex.app_exc)}, ex


def server(rec, rng, idx):
    cfg = cfg_for(rng, "server")
    kind = rng.choice(KINDS)
    how, w = body_for(rng, cfg.proto, kind, cfg.codec, False)
    outs = [M.out(rng) for _ in range(3)]
    what = {**cfg.brief(), "kind": kind, "how": how, "max": cfg.server_max, "body": w.body[:200].hex()}
    base, ex = server_outcome(cfg, kind, w, outs, [w.body])
    multi = False
    for part in rng.sample(MU.HOWS, 4) + ["bytes"]:
        chunks = MU.partition(rng, w.body, part)
        multi |= len(chunks) > 1
        if cfg.server == "asgi":
            chunks = MU.with_empty(rng, chunks)
        cfg.plan = Plan(rng, short_reads=True, delay=rng.choice([0, 0, 0.01]))
        got, _ = server_outcome(cfg, kind, w, outs, chunks)
        rec.ev("partitions_compared")
        if got != base:
            k = next(k for k in base if base[k] != got[k])
            rec.fail(f"server:{cfg.server}:{k}-depends-on-chunks", {"case": what, "partition": part, "chunks": [len(c) for c in chunks][:60],
                                                                    "whole": repr(base[k])[:400], "split": repr(got[k])[:400]})
            return
    rec.seen("server_outcomes", (cfg.proto, kind, how, base["resp"][0], len(base["calls"])))
    if multi:
        rec.nontrivial((cfg.key(), kind, w.body))
    rec.sample(what)


def client_outcome(cfg, kind, w, steps):
    t = E.run_fake(cfg, R.Fake.of(w, steps), E.Spec(kind, [M.Msg(id="q")]))
    if E.hung(t):
        return {"outcome": "hang"}
    r = t.r
    return {"outcome": r.outcome(), "msgs": M.canons(r.msgs), "headers": r.headers, "trailers": r.trailers}


def client(rec, rng, idx):
    cfg = cfg_for(rng, "client")
    kind = rng.choice(KINDS)
    how, w = body_for(rng, cfg.proto, kind, cfg.codec, True)
    what = {**cfg.brief(), "kind": kind, "how": how, "max": cfg.client_max, "body": w.body[:200].hex()}
    base = client_outcome(cfg, kind, w, [w.body])
    multi = False
    for part in rng.sample(MU.HOWS, 4) + ["bytes"]:
        chunks = MU.partition(rng, w.body, part)
        multi |= len(chunks) > 1
        got = client_outcome(cfg, kind, w, MU.with_empty(rng, chunks))
        rec.ev("partitions_compared")
        if got != base:
            k = next(k for k in base if base[k] != got.get(k))
            rec.fail(f"client:{cfg.client}:{k}-depends-on-chunks", {"case": what, "partition": part, "chunks": [len(c) for c in chunks][:60],
                                                                    "whole": repr(base[k])[:400], "split": repr(got.get(k))[:400]})
            return
    rec.seen("client_outcomes", (cfg.proto, kind, how, base["outcome"][:2], len(base.get("msgs", ()))))
    if multi:
        rec.nontrivial((cfg.key(), kind, w.body))
    rec.sample(what)


def trailing(rec, rng, idx):
    """What follows the end-of-stream message changes nothing, however it arrives."""
    cfg = cfg_for(rng, "client")
    cfg.client_max = None
    cfg.proto = rng.choice(["connect", "grpcweb"])
    kind = rng.choice(["client_stream", "server_stream", "bidi"])
    n = 1 if kind == "client_stream" else rng.choice([0, 1, 3])
    ms = [M.out(rng) for _ in range(n)]
    err = rng.choice([None, ("aborted", "no", ())])
    w = R.response(cfg.proto, kind, cfg.codec, ms, error=err, trailers=[("x-t", "2")])
    ref = client_outcome(cfg, kind, w, [w.body])
    if not rec.check((ref["outcome"][0] == "ok") == (err is None), "trailing:baseline", lambda: {"outcome": repr(ref)}):
        return
    tail = rng.choice([R.env(M.out(rng).to_binary()), R.env(b"{}", 2), R.env(b'{"error":{"code":"internal"}}', 2), b"\x00", rng.randbytes(11),
                       R.env(b"grpc-status: 13\r\n", 0x80), R.env(b"grpc-status: 0\r\n", 0x80), R.env(b"\xff\xff")])
    what = {**cfg.brief(), "kind": kind, "tail": tail.hex()}
    full = w.body + tail
    for chunks in ([full], [w.body, tail], MU.partition(rng, full, "bytes"), MU.partition(rng, full, "random"), MU.partition(rng, full, "frames")):
        got = client_outcome(cfg, kind, w, chunks)
        rec.ev("tails_compared")
        if got != ref:
            rec.fail("client:bytes-after-end-of-stream-matter", {"case": what, "chunks": [len(c) for c in chunks][:40], "without": repr(ref)[:400], "with": repr(got)[:400]})
            return
    rec.nontrivial((cfg.key(), kind, full))


def immediate_client(rec, rng, idx):
    """One chunk per second: a message is with the consumer the moment its last byte arrives."""
    cfg = cfg_for(rng, "client")
    cfg.client_max = None
    kind = rng.choice(["server_stream", "bidi"])
    ms = [M.out(rng, size=rng.choice([None, 0, 3, 200])) for _ in range(rng.randint(1, 5))]
    w = R.response(cfg.proto, kind, cfg.codec, ms, comp=rng.choice([None, "gzip", "br", "zstd"]))
    part = rng.choice(MU.HOWS)
    chunks = MU.partition(rng, w.body, part)
    if len(chunks) > 400:
        chunks = MU.partition(rng, w.body, "last")
    fs, _ = R.envs(w.body)
    ends, p = [], 0
    for _, d in fs:
        p += 5 + len(d)
        ends.append(p)
    state = {"pos": 0, "bad": None}
    t_ref: list = []

    def mark():
        # about to deliver the next chunk: everything complete so far was delivered
        got = sum(1 for e in t_ref[0] if e[1] == "c" and e[2] == "recv")
        want = sum(1 for e in ends[:len(ms)] if e <= state["pos"])
        if got < want and state["bad"] is None:
            state["bad"] = (state["pos"], want, got)

    steps: list = []
    for c in chunks:
        steps += [("sleep", 1.0), ("call", mark), ("call", lambda c=c: state.__setitem__("pos", state["pos"] + len(c))), c]
    steps += [("sleep", 1.0), ("call", mark)]

    def fn(got):
        return R.Fake.of(w, steps)

    log_holder: list = []
    orig = E.Log

    class L(orig):
        def __init__(self):
            super().__init__()
            t_ref.append(self.events)

    E.Log = L
    try:
        t = E.run_fake(cfg, fn, E.Spec(kind, [M.Msg(id="q")]))
    finally:
        E.Log = orig
    what = {**cfg.brief(), "kind": kind, "partition": part, "chunks": [len(c) for c in chunks][:60]}
    if O.hang(rec, t, "immediate", what):
        return
    if not rec.check(t.r.ok and M.canons(t.r.msgs) == M.canons(ms), "immediate:outcome", lambda: {"case": what, **E.describe(t)}):
        return
    rec.ev("chunks_delivered", len(chunks))
    rec.check(state["bad"] is None, f"client:{cfg.client}:message-held-back", lambda: {"case": what, "at": state["bad"]})
    rec.nontrivial((cfg.key(), kind, part, w.body))


def immediate_server(rec, rng, idx):
    cfg = cfg_for(rng, "server")
    cfg.server_max = None
    kind = rng.choice(["client_stream", "bidi"])
    ms = [M.msg(rng, size=rng.choice([None, 0, 3, 200])) for _ in range(rng.randint(1, 5))]
    w = R.request(cfg.proto, kind, cfg.codec, ms, comp=rng.choice([None, "gzip", "br", "zstd"]))
    part = rng.choice(MU.HOWS)
    chunks = MU.partition(rng, w.body, part)
    if len(chunks) > 400:
        chunks = MU.partition(rng, w.body, "last")
    fs, _ = R.envs(w.body)
    ends, p = [], 0
    for _, d in fs:
        p += 5 + len(d)
        ends.append(p)
    log = E.Log()
    state = {"pos": 0, "bad": None}

    def deliver(c):
        import asyncio

        def check():
            got = len(log.calls[0].reqs) if log.calls else 0
            want = sum(1 for e in ends if e <= state["pos"])
            if got < want and state["bad"] is None:
                state["bad"] = (state["pos"], want, got)
            state["pos"] += len(c)
            return c

        if cfg.server == "wsgi":
            return check

        async def later():
            await asyncio.sleep(1.0)
            return check()

        return later

    script = [("recvall",), ("ret" if kind == "client_stream" else "send", M.Out(id="r"))]
    app = E.build_app(cfg, E.as_pick(script), log)
    cfg.plan = Plan(rng, short_reads=True)
    ex = E.serve_raw(cfg, app, w, chunks=[*[deliver(c) for c in chunks], deliver(b"")] if cfg.server == "asgi" else [deliver(c) for c in chunks])
    what = {**cfg.brief(), "kind": kind, "partition": part, "chunks": [len(c) for c in chunks][:60]}
    ok = len(log.calls) == 1 and M.canons(log.calls[0].reqs) == M.canons(ms) and log.calls[0].recv_end
    if not rec.check(ok, "immediate-server:outcome", lambda: {"case": what, "calls": repr(log.calls)[:300], "resp": repr(ex.resp())[:300]}):
        return
    rec.ev("chunks_delivered", len(chunks))
    rec.check(state["bad"] is None, f"server:{cfg.server}:message-held-back", lambda: {"case": what, "at": state["bad"]})
    rec.nontrivial((cfg.key(), kind, part, w.body))


WORKLOADS = {
    "server": Workload(server, 5000, 40000),
    "client": Workload(client, 5000, 40000),
    "trailing": Workload(trailing, 1500, 20000),
    "immediate_client": Workload(immediate_client, 1500, 20000),
    "immediate_server": Workload(immediate_server, 1500, 20000),
}
