"""P06: message size limits are exact and apply everywhere."""
from __future__ import annotations

import json

from connectrpc.code import Code

from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import ref as R
from ..bridge import Plan
from ..core import Workload
from ..gen import verif_pb2 as g

ID = "P06"
RULE = ("A case configures a maximum size at the server or the client and sends messages whose uncompressed size is known exactly, "
        "mostly at and around the limit; the monitor compares acceptance with size <= limit. Non-trivial: at least one message "
        "within two bytes of the limit or larger than it; distinct by side, configuration, limit and sizes.")
ASSUME = ["sizes are those of the encoded message after decompression; end-of-stream messages are kept below the limit"]

LIMITS = [0, 2, 5, 9, 64, 100, 127, 128, 129, 255, 256, 1000, 1023, 1024, 4096, 65535, 65536, 100000]


# extra bytes in the compressed form: it may well be longer than the message
FATS = [0, 0, 0, 40, 3000, 65000]


def sized(rng, codec: str, cls: str, size: int) -> bytes | None:
    """A message of exactly this many encoded bytes."""
    if codec == "json":
        if size < 2:
            return None
        if size < 12:
            return b"{" + b" " * (size - 2) + b"}"
        n = rng.choice([size - 9, 1, rng.randint(1, size - 9)])
        body = b'{"id":"' + b"a" * n + b'"}'
        return body + b" " * (size - len(body))
    t = getattr(g, cls)
    if size == 0:
        return b""
    for extra in (0, 2):
        for n in range(max(0, size - extra - 6), size):
            m = t(id=chr(97 + rng.randrange(26)) * n, seq=1 if extra else 0)
            b = m.SerializeToString()
            if len(b) == size:
                return b
    return None


def around(rng, lim: int) -> int:
    return max(0, rng.choice([lim - 1, lim, lim, lim + 1, lim + 1, lim + 2, lim - 2, lim // 2, lim * 2 + 3, lim + 1000, 0]))


KINDS = ["unary", "get", "GET", "GETPLAIN", "idem", "client_stream", "server_stream", "bidi"]


def cfg_for(rng):
    return E.Cfg(proto=rng.choice(list(E.PROTOS)), codec=rng.choice(["proto", "json"]), client=rng.choice(["async", "sync"]),
                 server=rng.choice(["asgi", "wsgi"]), server_comps=["gzip", "br", "zstd"], accept=["gzip", "br", "zstd"], plan=Plan.random(rng))


def server(rec, rng, idx):
    cfg = cfg_for(rng)
    cfg.proto = list(E.PROTOS)[idx % 3]
    kind = KINDS[(idx // 3) % len(KINDS)]
    k = "get" if kind.startswith("GET") else kind
    lim = rng.choice(LIMITS)
    if kind.startswith("GET"):
        cfg.proto = "connect"
        lim = min(lim, 4096)
    cfg.server_max = lim
    comp = rng.choice([None, "gzip", "br", "zstd", "gzip", "br", "zstd", "xz"])
    if comp == "xz":
        cfg.server_comps = [*cfg.server_comps, "xz"]
    if kind == "GETPLAIN":
        comp, cfg.codec = None, "json"
    n = rng.choice([1, 2, 4]) if k in E.STREAM_IN else 1
    raw = [sized(rng, cfg.codec, "Msg", around(rng, lim)) for _ in range(n)]
    raw = [r for r in raw if r is not None] or [sized(rng, cfg.codec, "Msg", 2)]
    if len(raw) > 1 and rng.random() < 0.6:
        # the oversized one last
        raw = [r for r in raw if len(r) <= lim] + [r for r in raw if len(r) > lim][:1] or raw
    ref = [R.canon_g(R.decode(cfg.codec, "Msg", r)) for r in raw]
    over = next((i for i, r in enumerate(raw) if len(r) > lim), None)
    log = E.Log()
    script = [("recvall",)] * (k in E.STREAM_IN) + [("send" if k in E.STREAM_OUT else "ret", M.Out(id="r"))]
    app = E.build_app(cfg, E.as_pick(script), log)
    with R.fat(fat := rng.choice(FATS) if not kind.startswith("GET") else 0):
        w = R.request(cfg.proto, k, cfg.codec, raw, comp=comp, per_msg=[rng.random() < 0.8 for _ in raw], get=kind.startswith("GET"), get_plain=kind == "GETPLAIN")
    odd = None
    if over is not None and R.enveloped(cfg.proto, k) and idx % 5 == 2:
        # unusual flags on the message over the limit: it is over the limit all the same
        odd = rng.choice([2, 4, 8, 64, 128])
        pos, body = 0, bytearray(w.body)
        for _ in range(over):
            pos += 5 + int.from_bytes(body[pos + 1:pos + 5], "big")
        body[pos] |= odd
        w.body = bytes(body)
    ex = E.serve_raw(cfg, app, w)
    s = R.read_response(cfg.proto, k, cfg.codec, E.wire_resp(ex))
    what = {**cfg.brief(), "kind": kind, "limit": lim, "sizes": [len(r) for r in raw], "compression": comp, **({"extra": fat} if comp == "gzip" and fat else {}), **({"flags": odd} if odd else {})}
    tag = f"server:{cfg.server}:{'unary' if not R.enveloped(cfg.proto, k) else 'stream'}:{'GET' if w.method == 'GET' else 'POST'}"
    rec.ev("messages_judged", len(raw))
    seen = [M.canon(m) for c in log.calls for m in c.reqs]
    if over is None:
        ok = s.ok and seen == ref
        rec.check(ok, f"{tag}:rejected-within-limit", lambda: {"case": what, "error": s.error, "status": ex.monitor.status, "handed": len(seen)})
    else:
        if not rec.check(not s.ok and not s.msgs, f"{tag}:accepted-over-limit", lambda: {"case": what, "handed": len(seen)}):
            return
        if odd is None and not rec.check(s.error is not None and s.error[0] == "resource_exhausted", f"{tag}:wrong-error", lambda: {"case": what, "error": s.error, "status": ex.monitor.status}):
            return
        rec.check(seen == (ref[:over] if k in E.STREAM_IN else []), f"{tag}:messages-handed-over", lambda: {"case": what, "handed": len(seen), "before": over})
    # the application goes on
    small = sized(rng, cfg.codec, "Msg", lim) if lim != 1 else None
    if small is not None and idx % 4 == 0:
        log.calls.clear()
        ex = E.serve_raw(cfg, app, R.request(cfg.proto, "unary", cfg.codec, [small]))
        log2 = [M.canon(m) for c in log.calls for m in c.reqs]
        rec.check(log2 == [R.canon_g(R.decode(cfg.codec, "Msg", small))], f"{tag}:later-call", what)
    rec.nontrivial((cfg.key(), kind, lim, comp, [len(r) for r in raw]))
    rec.seen("decisions", (tag, cfg.proto, over is None))
    rec.sample(what)


def client(rec, rng, idx):
    cfg = cfg_for(rng)
    cfg.proto = list(E.PROTOS)[idx % 3]
    k = ["unary", "get", "GET", "client_stream", "server_stream", "bidi"][(idx // 3) % 6]
    get = k == "GET"
    k = "get" if get else k
    lim = rng.choice(LIMITS)
    if R.enveloped(cfg.proto, k):
        # the end-of-stream message / trailers frame must fit
        lim = max(lim, {"connect": 2, "grpcweb": 16, "grpc": 0}[cfg.proto])
    cfg.client_max = lim
    comp = rng.choice([None, "gzip", "br", "zstd", "xz", "deflate"])
    if comp in E.CUSTOM:
        # an algorithm of the user's, which the HTTP client may not know
        cfg.accept = [*cfg.accept, *E.CUSTOM]
    n = rng.choice([1, 2, 4]) if k in E.STREAM_OUT else 1
    raw = [sized(rng, cfg.codec, "Out", around(rng, lim)) for _ in range(n)]
    raw = [r for r in raw if r is not None] or [sized(rng, cfg.codec, "Out", 2)]
    if len(raw) > 1 and rng.random() < 0.6:
        raw = [r for r in raw if len(r) <= lim] + [r for r in raw if len(r) > lim][:1] or raw
    ref = [R.canon_g(R.decode(cfg.codec, "Out", r)) for r in raw]
    over = next((i for i, r in enumerate(raw) if len(r) > lim), None)
    with R.fat(fat := rng.choice(FATS)):
        w = R.response(cfg.proto, k, cfg.codec, raw, comp=comp, per_msg=[rng.random() < 0.8 for _ in raw] if R.enveloped(cfg.proto, k) else None)
    small = sized(rng, cfg.codec, "Out", lim)
    ws = [w] if small is None else [w, R.response(cfg.proto, k, cfg.codec, [small])]
    it = iter(ws)
    t = E.run_fake(cfg, lambda got: (lambda x: R.Fake.of(x, cfg.plan.split(x.body, cfg.plan.resp_mode)))(next(it)),
                   [E.Spec(k, [M.Msg(id="q")], use_get=get) for _ in ws])
    what = {**cfg.brief(), "kind": "GET" if get else k, "limit": lim, "sizes": [len(r) for r in raw], "compression": comp, **({"extra": fat} if comp == "gzip" and fat else {})}
    if O.hang(rec, t, "client", what, len(ws)):
        return
    r = t.res[0]
    tag = f"client:{cfg.client}:{'unary' if not R.enveloped(cfg.proto, k) else 'stream'}"
    rec.ev("messages_judged", len(raw))
    if over is None:
        rec.check(r.ok and M.canons(r.msgs) == ref, f"{tag}:rejected-within-limit", lambda: {"case": what, "outcome": repr(r.outcome())})
    else:
        if not rec.check(r.err is not None and r.err.code is Code.RESOURCE_EXHAUSTED, f"{tag}:not-rejected", lambda: {"case": what, "outcome": repr(r.outcome()), "msgs": len(r.msgs)}):
            return
        rec.check(M.canons(r.msgs) == (ref[:over] if k in E.STREAM_OUT else []), f"{tag}:messages-before", lambda: {"case": what, "got": len(r.msgs), "before": over})
    if len(ws) == 2:
        rec.check(t.res[1].ok and M.canons(t.res[1].msgs) == [R.canon_g(R.decode(cfg.codec, "Out", small))], f"{tag}:later-call",
                  lambda: {"case": what, "outcome": repr(t.res[1].outcome())})
    rec.nontrivial((cfg.key(), k, lim, comp, [len(r) for r in raw]))
    rec.seen("decisions", (tag, cfg.proto, over is None))
    rec.sample(what)


def end_to_end(rec, rng, idx):
    """Both limits, real client and application, a session of calls."""
    cfg = E.random_cfg(rng)
    limit_s, limit_c = rng.choice([None, *LIMITS[4:]]), rng.choice([None, *LIMITS[4:]])
    cfg.server_max, cfg.client_max = limit_s, limit_c
    specs, scripts, wants = [], [], []
    from connectrpc.codec import proto_binary_codec, proto_json_codec
    enc = (proto_binary_codec() if cfg.codec == "proto" else proto_json_codec()).encode
    for _ in range(rng.randint(2, 5)):
        k = rng.choice(["unary", "get", "client_stream", "server_stream", "bidi"])
        ins = [M.Msg(id="a" * max(0, around(rng, limit_s or 50) - 3)) for _ in range(rng.choice([1, 2, 3]) if k in E.STREAM_IN else 1)]
        outs = [M.Out(id="b" * max(0, around(rng, limit_c or 50) - 3)) for _ in range(rng.choice([1, 2, 3]) if k in E.STREAM_OUT else 1)]
        specs.append(E.Spec(k, ins))
        scripts.append([("recvall",)] * (k in E.STREAM_IN) + [("send" if k in E.STREAM_OUT else "ret", o) for o in outs])
        bad_in = next((i for i, m in enumerate(ins) if limit_s is not None and len(enc(m)) > limit_s), None)
        bad_out = next((i for i, m in enumerate(outs) if limit_c is not None and len(enc(m)) > limit_c), None)
        wants.append((ins, outs, bad_in, bad_out))
    what = {**cfg.brief(), "server_limit": limit_s, "client_limit": limit_c, "calls": [(s.kind, w[2], w[3]) for s, w in zip(specs, wants)]}
    # the handler may never be reached: choose its script by the call's position
    pos = {"n": -1}
    for i, s in enumerate(specs):
        s.headers = {"x-call": str(i)}
    t = E.run_many(cfg, lambda name, req, ctx: scripts[int(ctx.request_headers["x-call"])], specs)
    if O.hang(rec, t, "e2e", what, len(specs)):
        return
    for i, (ins, outs, bi, bo) in enumerate(wants):
        r, k = t.res[i], specs[i].kind
        mine = [c for c in t.calls if dict(c.headers).get("x-call") == str(i)]
        seen = M.canons([m for c in mine for m in c.reqs])
        rec.ev("calls_judged")
        w = {**what, "call": i}
        if bi is None and bo is None:
            if not rec.check(r.ok and seen == M.canons(ins) and M.canons(r.msgs) == M.canons(outs), "e2e:rejected-within-limit", lambda: {"case": w, "outcome": repr(r.outcome())}):
                return
            continue
        if not rec.check(r.err is not None and r.err.code is Code.RESOURCE_EXHAUSTED, "e2e:not-rejected", lambda: {"case": w, "outcome": repr(r.outcome())}):
            return
        if bi is not None:
            if not rec.check(seen == (M.canons(ins[:bi]) if k in E.STREAM_IN else []) and not r.msgs, "e2e:handed-over", lambda: {"case": w, "seen": len(seen)}):
                return
        elif not rec.check(M.canons(r.msgs) == (M.canons(outs[:bo]) if k in E.STREAM_OUT else []), "e2e:delivered", lambda: {"case": w, "msgs": len(r.msgs)}):
            return
    rec.nontrivial((cfg.key(), limit_s, limit_c, idx))


WORKLOADS = {
    "server": Workload(server, 5000, 80000),
    "client": Workload(client, 4000, 60000),
    "end_to_end": Workload(end_to_end, 1200, 15000),
}
