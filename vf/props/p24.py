"""P24: the google.protobuf compatibility layer is interchangeable."""
from __future__ import annotations

import json

from connectrpc.code import Code
from connectrpc.compat import google_protobuf_binary_codec, google_protobuf_json_codec
from google.protobuf.message import Message as GMessage
from protobuf import Message as PMessage

from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import ref as R
from ..bridge import Plan
from ..core import Workload
from ..gen import verif_google_connect as G
from ..gen import verif_pb2 as g
from . import p01, p04, p05, p23

ID = "P24"
RULE = ("A case is one or more RPCs in which client and server each use either message implementation (four pairings), over the in-process network, compared "
        "message by message through google.protobuf; or one malformed body given to two otherwise equal servers or clients, one per implementation, which must "
        "refuse it with the same status or code. Non-trivial: a message, error or refusal was compared; distinct by pairing, configuration and contents.")
ASSUME = ["error details are given as protobuf-py messages, the type ConnectError documents, on either side",
          "bodies that one of the two protobuf implementations accepts and the other refuses are not judged (they differ in leniency, which is not the library's); both refusing or both accepting is",
          "negative zero is not generated: the JSON codec of protobuf-py drops its sign"]

PAIRINGS = [("g", "g"), ("g", "p"), ("p", "g"), ("p", "p")]
GCODEC = {"proto": google_protobuf_binary_codec, "json": google_protobuf_json_codec}
KINDS = ["unary", "get", "GET", "idem", "client_stream", "server_stream", "bidi", "watch"]
MATRIX = [(pp, p, k, c, pair) for pp in PAIRINGS[:3] for p in E.PROTOS for k in KINDS for c in ("proto", "json") for pair in E.FULL]


def conv(m):
    """The google.protobuf twin of a message."""
    return getattr(g, type(m).__name__).FromString(m.to_binary()) if hasattr(g, type(m).__name__) else m


def side(cfg, who: str):
    """Client class, and server app class for the implementation."""
    cl = {"g": (G.ProbeClient, G.ProbeClientSync), "p": (None, None)}[who[0]][0 if cfg.client == "async" else 1]
    sv = {"g": (G.ProbeASGIApplication, G.ProbeWSGIApplication), "p": (None, None)}[who[1]][0 if cfg.server == "asgi" else 1]
    return cl, sv


def g_script(script):
    out = []
    for s in script:
        if s[0] in ("send", "ret"):
            s = (s[0], conv(s[1]))
        elif s[0] == "echoall":
            f = s[1]
            s = ("echoall", lambda m, f=f: conv(f(m)))
        out.append(s)
    return out


def run(cfg, who, script, specs):
    cl, sv = side(cfg, who)
    log = E.Log()
    if who[1] == "g":
        script0 = script
        script = lambda name, req, ctx: g_script(script0(name, req, ctx))  # noqa: E731
    if who[0] == "g":
        cfg.client_codec = GCODEC[cfg.codec]()
        for s in specs:
            s.msgs = [conv(m) for m in s.msgs]
    app = E.build_app(cfg, script, log, app_cls=sv)
    tr = E.build_transport(cfg, app)
    t = E.Trace(calls=log.calls, exchanges=tr.exchanges, events=log.events)
    if cfg.client == "async":
        async def main():
            client = E.build_client(cfg, tr, cl)
            for s in specs:
                t.res.append(await E.acall(client, s, log))
            await client.close()
        t.report = E.vloop.run(main, settle=5.0)
        if t.report.exc is not None:
            raise t.report.exc
    else:
        with E.vtime.activate(E.vtime.Clock()), E.vloop.cpu_guard():
            client = E.build_client(cfg, tr, cl)
            for s in specs:
                t.res.append(E.scall(client, s, log))
            client.close()
    return t


def exchange(rec, rng, idx):
    who, p, _, c, pair = MATRIX[idx % len(MATRIX)]
    cfg = E.random_cfg(rng, proto=p, pair=pair if rng.random() < 0.7 else rng.choice(E.PAIRS), codec=c)
    kinds = [MATRIX[idx % len(MATRIX)][2]] + [rng.choice(KINDS) for _ in range(rng.choice([0, 0, 2]))]
    specs, scripts, wants = [], [], []
    for kind in kinds:
        k = "get" if kind == "GET" else kind
        ins, outs, script = p01.build(rng, k, sizes=rng.choice([None, None, [0, 5, 5000, 70000]]))
        err = None
        if rng.random() < 0.3:
            make, err = p04.error(rng, rng.choice(list(Code)))
            n = rng.choice([0, 1, len(outs)]) if k in E.STREAM_OUT else 0
            outs = outs[:n]
            script = ([("recvall",)] if k in E.STREAM_IN else []) + [("send", o) for o in outs] + [("raise", make)]
        hh, ht = p05.gen(rng, cfg), p05.gen(rng, cfg)
        scripts.append([("hdr", *h) for h in hh] + [("trl", *h) for h in ht] + script)
        specs.append(E.Spec(k, ins, use_get=kind == "GET"))
        wants.append((kind, M.canons(ins), M.canons(outs), err, hh, ht))
    it = iter(scripts)
    what = {**cfg.brief(), "pairing": who, "kinds": kinds, "errors": [w[3] and w[3][1:3] for w in wants]}
    t = run(cfg, who, lambda *a: next(it), specs)
    tag = f"{who[0]}{who[1]}:{c}"
    if O.hang(rec, t, tag, what, len(specs)):
        return
    for i, (kind, ins, outs, err, hh, ht) in enumerate(wants):
        r = t.res[i]
        w = {**what, "i": i, "kind": kind}
        if not rec.check(r.outcome() == (err or ("ok",)), f"{tag}:{kind}:outcome", lambda: {"case": w, "got": repr(r.outcome())[:400], "want": repr(err)[:400]}):
            return
        if not rec.check(len(t.calls) > i, f"{tag}:{kind}:no-handler", w):
            return
        call = t.calls[i]
        if err is None or kind in E.STREAM_IN:
            rec.check(M.canons(call.reqs) == ins, f"{tag}:{kind}:requests", lambda: {"case": w, **O.diff(ins, M.canons(call.reqs))})
        rec.check(M.canons(r.msgs) == outs, f"{tag}:{kind}:responses", lambda: {"case": w, **O.diff(outs, M.canons(r.msgs))})
        rec.check(all(isinstance(m, GMessage if who[0] == "g" else PMessage) for m in r.msgs), f"{tag}:{kind}:response-type", w)
        rec.check(all(isinstance(m, GMessage if who[1] == "g" else PMessage) for m in call.reqs), f"{tag}:{kind}:request-type", w)
        rec.check(p05.user(r.headers, R.RESERVED_RESP) == E.mm(hh) and p05.user(r.trailers, R.RESERVED_RESP) == E.mm(ht), f"{tag}:{kind}:metadata", lambda: {"case": w, "h": r.headers, "t": r.trailers})
        rec.ev("messages_compared", len(ins) + len(outs))
        if c == "json" and i < len(t.exchanges):  # whoever wrote it, JSON is the canonical mapping
            ex, k = t.exchanges[i], "get" if kind == "GET" else kind
            for who_, seen in (("request", lambda: R.read_request(cfg.proto, k, "json", R.WireReq(ex.method, p23._path(ex.url), list(ex.req_headers), bytes(ex.req_body)))),
                               ("response", lambda: R.read_response(cfg.proto, k, "json", E.wire_resp(ex)))):
                rec.check(not (bad := [x for x in seen().problems if x.startswith("JSON that")]), f"{tag}:{who_}-mapping", lambda: {"case": w, "problem": bad[0]})
                rec.ev("wire_reads")
        if kind == "GET" and cfg.proto == "connect":
            rec.check(t.exchanges[i].method == "GET", f"{tag}:GET-used", w)
    O.contract(rec, t, tag, what)
    rec.seen("configurations", (who, cfg.key(), tuple(kinds)))
    rec.nontrivial((who, cfg.key(), repr(wants)))
    rec.sample(what)


# --------------------------------------------------------------------------- malformed input
BAD_PROTO = [b"\xff", b"\x0a", b"\x0a\x05ab", b"\x08", b"\x0a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", b"\x07", b"\x0f\x01", b"\x00\x01", b"\x0c", b"\x0b",
             b"\x0a\x02\xff\xfe", b"\x0a\x80", b"\x12\x03\x0a\xff\xff", b"\xf8\xff\xff\xff\xff\x01", b"\x0d\x00", b"\x09\x01\x02"]
BAD_JSON = [b"", b"{", b"}", b"[]", b"null", b"1", b'"x"', b"{\"id\":}", b"{\"id\":1}", b"{\"id\":{}}", b"{\"id\":[]}", b"{\"nope\":1}", b"{id:'x'}", b"\xff\xfe", b"\x80", b"{\"id\":\"\xff\"}",
            b"{\"data\":\"*\"}", b"{\"data\":1}", b"{\"seq\":\"x\"}", b"{\"seq\":1.5}", b"{\"seq\":99999999999999999999}", b"{\"flag\":\"yes\"}", b"{\"flag\":1}", b"{\"kind\":\"NO\"}",
            b"{\"nums\":1}", b"{\"nums\":[\"x\"]}", b"{\"attrs\":[]}", b"{\"leaf\":1}", b"{\"leaves\":{}}", b"{\"id\":\"a\"", b"{\"id\":\"a\"}x", b"{\"id\":\"a\"}{}", b"{\"id\":\"\\ud800\"}", b"{\"big\":-1}",
            b"{\"big\":1,\"word\":\"x\"}", b"{\"at\":\"yesterday\"}", b"{\"at\":1}", b"true", b"{\"nums\":[null]}", b"[" * 5000, b"{\"leaf\":" * 2000, b"{\"child\":" * 300 + b"{}" + b"}" * 300]


def bad_payload(rng, codec):
    if rng.random() < 0.5:
        return rng.choice(BAD_PROTO if codec == "proto" else BAD_JSON)
    b = R.encode(codec, M.msg(rng, size=20))
    k = rng.randint(0, 3)
    if k == 0:
        return b[:rng.randrange(len(b))]
    if k == 1:
        i = rng.randrange(len(b))
        return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]
    if k == 2:
        return rng.randbytes(rng.choice([1, 5, 30]))
    return b + rng.choice([b"\xff", b"x", b"\x0a\x7f"])


def understood(codec, cls, data):
    """What google.protobuf and protobuf-py make of the bytes, outside the library."""
    from ..gen import verif_pb as pb
    out = []
    try:
        out.append(M.canon(R.decode(codec, cls, data)))
    except Exception:
        out.append(None)
    t = getattr(pb, cls)
    try:
        m = t.from_binary(bytes(data)) if codec == "proto" else t.from_json(bytes(data))
    except Exception:
        return [*out, None]
    try:
        return [*out, M.canon(m)]
    except Exception:  # accepted by the one, not expressible in the other
        return [*out, b"?"]


def summary(w: R.WireResp):
    """Status, code and number of messages of a response; texts differ between the implementations."""
    code = None
    ct = dict(w.headers).get("content-type", "")
    if ct.startswith("application/json") and w.status != 200:
        try:
            code = json.loads(w.body).get("code")
        except Exception:
            code = "?"
        return w.status, ct, code, 0
    fs, rest = R.envs(w.body)
    msgs = sum(1 for f, _ in fs if not f & 0x82)
    if ct.startswith("application/connect+"):
        for f, d in fs:
            if f & 2:
                code = (json.loads(d).get("error") or {}).get("code")
        return w.status, ct, code, msgs
    if ct.startswith("application/grpc-web"):
        for f, d in fs:
            if f & 0x80:
                code = [x.partition(b":")[2].strip().decode() for x in d.split(b"\r\n") if x.lower().startswith(b"grpc-status:")]
        return w.status, ct, code, msgs
    if ct.startswith("application/grpc"):
        code = [v for k, v in [*(w.trailers or []), *w.headers] if k == "grpc-status"]
        return w.status, ct, code, msgs
    return w.status, ct, code, 0


def bad_request(rec, rng, idx):
    p = list(E.PROTOS)[idx % 3]
    kind = KINDS[idx // 3 % len(KINDS)]
    if p != "connect" and kind == "GET":
        kind = "get"
    k = "get" if kind == "GET" else kind
    codec = ["proto", "json"][idx // 24 % 2]
    cfg = E.Cfg(proto=p, codec=codec, server=rng.choice(["asgi", "wsgi"]), plan=Plan())
    data = bad_payload(rng, codec)
    und = understood(codec, "Msg", data)
    rec.ev(f"bodies:{'both-refuse' if und == [None, None] else 'differ' if None in und else 'both-accept'}")
    if und[0] != und[1]:
        return
    good = [M.msg(rng) for _ in range(rng.choice([0, 0, 1, 2]))] if k in E.STREAM_IN else []
    w = R.request(p, k, codec, [*good, data], get=kind == "GET", comp=rng.choice([None, None, "gzip"]))
    what = {"proto": p, "kind": kind, "codec": codec, "server": cfg.server, "body": data[:200].hex(), "good": len(good)}
    outs = []
    o = M.out(rng, "x")
    for who in ("pp", "pg"):
        cfg.client = "async" if cfg.server == "asgi" else "sync"
        log = E.Log()
        script = ([("recvall",)] if k in E.STREAM_IN else []) + [("send" if k in E.STREAM_OUT else "ret", o)]
        pick = (lambda name, req, ctx: g_script(script)) if who == "pg" else E.as_pick(script)
        app = E.build_app(cfg, pick, log, app_cls=side(cfg, who)[1])
        ex = E.serve_raw(cfg, app, w)
        outs.append((summary(E.wire_resp(ex)), [(c.method, M.canons(c.reqs), c.finished.partition(":")[0]) for c in log.calls]))
    tag = f"server:{p}:{kind}:{codec}"
    if not rec.check(outs[0] == outs[1], f"{tag}:differ", lambda: {"case": what, "default": repr(outs[0])[:500], "google": repr(outs[1])[:500]}):
        return
    if und == [None, None]:
        s = outs[1][0]
        ok = s[2] in (["0"], None) and s[0] == 200
        rec.check(not ok, f"{tag}:accepted", {**what, "answer": s})
        if k not in E.STREAM_IN:
            rec.check(outs[1][1] == [], f"{tag}:reached-handler", what)
    rec.seen("refusals", (p, kind, codec, outs[1][0]))
    rec.nontrivial((p, kind, codec, data, len(good)))
    rec.sample(what)


def bad_response(rec, rng, idx):
    p = list(E.PROTOS)[idx % 3]
    kind = KINDS[idx // 3 % len(KINDS)]
    k = "get" if kind == "GET" else kind
    codec = ["proto", "json"][idx // 24 % 2]
    cfg = E.Cfg(proto=p, codec=codec, client=rng.choice(["async", "sync"]), plan=Plan())
    data = bad_payload(rng, codec)
    und = understood(codec, "Out", data)
    rec.ev(f"bodies:{'both-refuse' if und == [None, None] else 'differ' if None in und else 'both-accept'}")
    if und[0] != und[1]:
        return
    good = [M.out(rng) for _ in range(rng.choice([0, 1, 2]))] if k in E.STREAM_OUT else []
    w = R.response(p, k, codec, [*good, data], comp=rng.choice([None, None, "gzip"]))
    what = {"proto": p, "kind": kind, "codec": codec, "client": cfg.client, "body": data[:200].hex(), "good": len(good)}
    res = []
    for who in ("pp", "gp"):
        cl = side(cfg, who)[0]
        m = M.msg(rng)
        cfg.client_codec = GCODEC[codec]() if who == "gp" else None
        t = E.run_fake(cfg, R.Fake.of(w), E.Spec(k, [conv(m) if who == "gp" else m], use_get=kind == "GET"), client_cls=cl)
        if O.hang(rec, t, "client", what):
            return
        o = t.r.outcome()
        res.append((o[:2] if o[0] != "ok" else o, M.canons(t.r.msgs)))
    tag = f"client:{p}:{kind}:{codec}"
    if not rec.check(res[0] == res[1], f"{tag}:differ", lambda: {"case": what, "default": repr(res[0])[:500], "google": repr(res[1])[:500]}):
        return
    if und == [None, None]:
        rec.check(res[1][0][0] == "err" and res[1][1] == M.canons(good), f"{tag}:accepted", lambda: {"case": what, "got": repr(res[1])[:400]})
    rec.seen("refusals", (p, kind, codec, res[1][0]))
    rec.nontrivial((p, kind, codec, data, len(good)))


WORKLOADS = {
    "exchange": Workload(exchange, 8 * len(MATRIX), 200 * len(MATRIX)),
    "bad_request": Workload(bad_request, 4000, 100000),
    "bad_response": Workload(bad_response, 4000, 100000),
}
