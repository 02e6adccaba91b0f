"""P15: GET is equivalent to POST and only for side-effect-free methods."""
from __future__ import annotations

import base64
import inspect
import random
import re
from urllib.parse import quote

from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel

from .. import bridge
from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import ref as R
from ..core import Workload
from ..gen import verif_connect as VC

ID = "P15"
RULE = ("A case is one call made by GET and by POST under otherwise equal conditions (real client, or raw queries written in equivalent ways), "
        "or one request with an HTTP method a method must refuse. Outcome, error, metadata and what the handler saw must be equal, the GET on "
        "the wire well formed, and refusals 405 with the exact set of allowed methods and no handler run. Non-trivial: both calls reached "
        "the handler or were refused alike; distinct by configuration, message, outcome and spelling of the query.")
ASSUME = ["requests small enough for the URL limits of servers, which are outside the library"]


def err_of(rng):
    if rng.random() < 0.15:
        return E.Boom("boom")
    e = ConnectError(rng.choice(E.ALL_CODES), rng.choice(["", "no", "späß 100% +/ \u2028", "x" * 200]))
    return e


def twice(rec, rng, idx):
    """The same call by GET and by POST through the real client and application."""
    pair = E.PAIRS[idx % 4]
    proto = "connect" if rng.random() < 0.85 else rng.choice(["grpc", "grpcweb"])
    cfg = E.random_cfg(rng, proto=proto, pair=pair)
    if rng.random() < 0.3:
        cfg.server_max = rng.choice([1, 10, 100, 1000])
    if rng.random() < 0.15:
        cfg.client_max = rng.choice([0, 5, 50, 500])
    m = rng.choice([M.Msg(), None, None, None])
    if m is None:
        m = M.msg(rng, mid=M.word(rng), size=rng.choice([None, None, 0, 1, 2, 3, 50, 4000]))
    out = M.out(rng)
    hdrs = E.metadata(rng, "h-")
    rh, rt = E.metadata(rng, "r-"), E.metadata(rng, "t-")
    fail = rng.random() < 0.3
    err = err_of(rng)
    script = [("hdr", k, v) for k, v in rh] + [("trl", k, v) for k, v in rt] + [("timeout",), ("raise", err) if fail else ("ret", out)]
    timeout = rng.choice([None, None, 100000, 9999999999, 123456])
    kind = "get"
    specs = [E.Spec(kind, [m], headers=E.to_headers(hdrs), timeout_ms=timeout, use_get=g) for g in (False, True)]
    if rng.random() < 0.5:
        specs.reverse()
    what = {**cfg.brief(), "pair": pair, "fails": fail, "server_max": cfg.server_max, "client_max": cfg.client_max, "timeout": timeout,
            "order": [s.use_get for s in specs], "size": len(R.encode(cfg.codec, m))}
    t = E.run_many(cfg, script, specs)
    if O.hang(rec, t, f"twice:{pair[0]}", what, 2):
        return
    O.contract(rec, t, f"twice:{pair[0]}", what)
    i = 1 if specs[1].use_get else 0
    g, p = t.res[i], t.res[1 - i]
    rec.ev("pairs_compared")
    if g.outcome() != p.outcome():
        rec.fail(f"twice:{pair}:outcome-differs", {"case": what, "get": repr(g.outcome()), "post": repr(p.outcome())})
        return
    if M.canons(g.msgs) != M.canons(p.msgs):
        rec.fail(f"twice:{pair}:message-differs", what)
        return
    if E.mm(g.headers) != E.mm(p.headers) or E.mm(g.trailers) != E.mm(p.trailers):
        rec.fail(f"twice:{pair}:metadata-differs", {"case": what, "get": [g.headers, g.trailers], "post": [p.headers, p.trailers]})
        return
    if not fail and cfg.server_max is None and cfg.client_max is None and not g.ok:
        rec.fail(f"twice:{pair}:fails", {"case": what, "get": repr(g.outcome())})
        return
    if g.ok and M.canons(g.msgs) != [M.canon(out)]:
        rec.fail(f"twice:{pair}:message-wrong", what)
        return
    if len(t.calls) == 2:
        a, b = t.calls[i], t.calls[1 - i]
        if M.canons(a.reqs) != [M.canon(m)] or M.canons(b.reqs) != [M.canon(m)]:
            rec.fail(f"twice:{pair}:request-differs", what)
            return
        drop = {"content-type", "content-encoding", "content-length", "transfer-encoding"}
        ha, hb = ({k: v for k, v in E.mm(c.headers).items() if k not in drop} for c in (a, b))
        if ha != hb:
            rec.fail(f"twice:{pair}:headers-differ", {"case": what, "get": ha, "post": hb})
            return
        ta, tb = (c.events[0][2] if c.events else None for c in (a, b))
        if (ta is None) != (tb is None) or ta is not None and abs(ta - tb) > 20000:
            rec.fail(f"twice:{pair}:timeout-differs", {"case": what, "get": ta, "post": tb})
            return
        if a.http_method != ("GET" if proto == "connect" else "POST") or b.http_method != "POST":
            rec.fail(f"twice:{pair}:http-method", {"case": what, "get": a.http_method, "post": b.http_method})
            return
        rec.ev("handlers_compared")
    elif t.calls:
        rec.fail(f"twice:{pair}:handler-run-once", {"case": what, "calls": len(t.calls), "get": repr(g.outcome()), "post": repr(p.outcome())})
        return
    ex = t.exchanges[i]
    if proto == "connect":
        u = R.urlsplit(ex.url)
        w = R.WireReq(ex.method, u.path + ("?" + u.query if u.query else ""), ex.req_headers, bytes(ex.req_body))
        s = R.read_request("connect", "get", cfg.codec, w)
        if w.method != "GET" or s.problems or s.msgs != [M.canon(m)] or s.comp not in ({cfg.send, None} if cfg.send else {None, "identity"}):
            rec.fail(f"twice:{pair}:wire", {"case": what, "method": w.method, "problems": s.problems, "comp": s.comp})
            return
        if cfg.send and s.comp != cfg.send:
            rec.fail(f"twice:{pair}:not-compressed", {"case": what, "comp": s.comp})
            return
    elif ex.method != "POST":
        rec.fail(f"twice:{pair}:grpc-get", {"case": what, "method": ex.method})
        return
    if t.exchanges[1 - i].method != "POST":
        rec.fail(f"twice:{pair}:get-unasked", what)
        return
    rec.nontrivial((cfg.key(), pair, M.canon(m), repr(g.outcome()), cfg.server_max, cfg.client_max))
    rec.seen("outcomes", repr(g.outcome())[:80])
    rec.sample(what)


def spell(rng, q: list[tuple[str, str | bytes]]) -> str:
    """One of the many ways of writing the same query."""
    def octets(b: bytes) -> str:
        up = rng.random() < 0.7
        return "".join(chr(x) if x < 128 and (chr(x).isalnum() or x in b"-._~") else "+" if x == 32 and rng.random() < 0.5 else f"%{x:02X}" if up else f"%{x:02x}"
                       for x in b)

    def esc(s: str | bytes, must: str = "&=%+#;") -> str:
        if isinstance(s, bytes):
            return octets(s)
        out = ""
        style = rng.random()
        for ch in s:
            safe = ch.isascii() and (ch.isalnum() or ch in "-._~")
            if ch == " ":
                out += rng.choice(["+", "%20"])
            elif safe and (style < 0.7 or rng.random() < 0.8):
                out += ch
            elif ch.isascii() and ch.isprintable() and ch not in must + "\"<>\\^`{|} " and style < 0.5:
                out += ch
            else:
                e = quote(ch, safe="") if not safe else f"%{ord(ch):02X}"
                out += e.lower() if rng.random() < 0.3 else e
        return out
    q = list(q)
    if rng.random() < 0.5:
        rng.shuffle(q)
    return "&".join((esc(k) if rng.random() < 0.2 else k) + "=" + esc(v) for k, v in q)


def wire_get(rec, rng, idx):
    """Raw GETs written in equivalent ways against the POST of the same message."""
    sv = ["asgi", "wsgi"][idx % 2]
    codec = rng.choice(["proto", "json"])
    cfg = E.random_cfg(rng, proto="connect", pair=("async", sv), codec=codec)
    cfg.server_comps = ["gzip", "br", "zstd"]
    if rng.random() < 0.2:
        cfg.server_max = rng.choice([1, 20, 200])
    m = M.msg(rng)
    data = R.encode(codec, m)
    out = M.out(rng)
    comp = rng.choice([None, None, "identity", "gzip", "br", "zstd"])
    accept = rng.choice([None, "gzip", "br, gzip", "identity"])
    damage = rng.random() < 0.15
    cdata = R.compress(comp, data)
    if damage:
        cdata = bytes([rng.randrange(256) for _ in range(rng.randint(1, 30))]) if rng.random() < 0.5 else cdata[:-1] + b"\xff\xff"
    plain = None
    if comp in (None, "identity"):
        try:
            plain = cdata.decode("utf-8")
        except UnicodeDecodeError:
            plain = None
    use_plain = plain is not None and rng.random() < 0.4
    use_octets = not use_plain and rng.random() < 0.3
    q = [("encoding", codec)]
    if rng.random() < 0.8:
        q.append(("connect", "v1"))
    if comp:
        q.append(("compression", comp))
    if use_plain:
        q.append(("message", plain))
        if rng.random() < 0.3:
            q.append(("base64", "0"))
        b64 = "plain"
    elif use_octets:
        # a message need not be text: any octet may be written with a percent sign
        q.append(("message", bytes(cdata)))
        if rng.random() < 0.3:
            q.append(("base64", rng.choice(["0", ""])))
        b64 = "octets"
    else:
        b64 = rng.choice(["url", "url-pad", "std", "std-pad"])
        s = (base64.urlsafe_b64encode if b64.startswith("url") else base64.b64encode)(cdata).decode()
        q.append(("message", s if b64.endswith("pad") else s.rstrip("=")))
        q.append(("base64", "1"))
    for _ in range(rng.choice([0, 0, 1, 2])):
        q.append((rng.choice(["x", "utm", "messages", "Encoding", "basis"]) + str(rng.randint(0, 99)), M.word(rng)))
    qs = spell(rng, q)
    hs = [("x-a", "1")] + ([("accept-encoding", accept)] if accept else [])
    raw = None
    if b64 in ("octets", "plain") and rng.random() < 0.3:
        # servers hand on what is not ASCII as it came
        raw = re.sub(rb"%([89A-Fa-f][0-9A-Fa-f])", lambda x: bytes([int(x[1], 16)]) if rng.random() < 0.7 else x[0], qs.encode("utf-8"))
        b64 += "-raw"
    get = R.WireReq("GET", R.PKG + "Get?" + qs, hs, b"")
    post = R.request("connect", "get", codec, [m], comp=comp, accept=accept, headers=[("x-a", "1")])
    post.body = cdata
    script = [("hdr", "r-a", "1"), ("trl", "t-a", "2"), ("ret", out)]
    what = {"server": sv, "codec": codec, "comp": comp, "accept": accept, "spelling": b64, "damaged": damage, "max": cfg.server_max, "query": qs[:300]}
    res = []
    for w in (get, post):
        log = E.Log()
        app = E.build_app(cfg, E.as_pick(script), log)
        plan = bridge.Plan() if raw is not None and w is get else None
        if plan is not None:
            plan.scope_extra = {"query_string": raw}
            plan.environ_extra["QUERY_STRING"] = raw.decode("latin-1")
        ex = E.serve_raw(cfg, app, w, plan=plan)
        if ex.app_exc is not None or ex.monitor.bad:
            rec.fail(f"wire:{sv}:exception", {"case": what, "method": w.method, "exc": repr(ex.app_exc), "bad": ex.monitor.bad[:3]})
            return
        r = R.read_response("connect", "get", codec, E.wire_resp(ex))
        res.append((ex.monitor.status, r.msgs, r.error and r.error[0], r.ok, r.headers, r.trailers, r.comp, r.problems,
                    [M.canons(c.reqs) for c in log.calls]))
    rec.ev("raw_pairs_compared")
    if res[0] != res[1]:
        rec.fail(f"wire:{sv}:differs", {"case": what, "get": repr(res[0])[:600], "post": repr(res[1])[:600]})
        return
    if not damage and cfg.server_max is None and not (res[0][3] and res[0][8] == [[M.canon(m)]] and res[0][1] == [M.canon(out)]):
        rec.fail(f"wire:{sv}:wrong", {"case": what, "get": repr(res[0])[:600]})
        return
    rec.nontrivial((sv, codec, comp, accept, qs, res[0][0]))
    rec.seen("spellings", (b64, comp, codec, res[0][3]))
    rec.sample(what)


METHODS = ["GET", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "CONNECT", "get", "post", "PROPFIND", "Post"]
RPCS = ["unary", "get", "idem", "nothing", "client_stream", "server_stream", "bidi", "watch"]
GRID = [(k, m, p, sv) for k in RPCS for m in METHODS for p in E.PROTOS for sv in ("asgi", "wsgi")]


def methods(rec, rng, idx):
    """Methods other than those allowed are refused with the exact set of allowed ones."""
    kind, method, proto, sv = GRID[idx % len(GRID)]
    if idx >= len(GRID):
        kind, method, proto, sv = rng.choice(GRID)
    codec = rng.choice(["proto", "json"])
    cfg = E.Cfg(proto=proto, codec=codec, server=sv)
    m = M.Msg(id="x") if kind != "nothing" else None
    cls = M.Msg(id="x") if kind != "nothing" else b""
    w = R.request(proto, kind, codec, [cls], accept=rng.choice([None, "gzip"]))
    style = rng.choice(["post-like", "query", "both", "bare"]) if proto == "connect" else rng.choice(["post-like", "both"])
    qs = "?" + spell(rng, [("connect", "v1"), ("encoding", codec), ("base64", "1"), ("message", R.b64(R.encode(codec, cls)))])
    body, path, hs = w.body, w.path, w.headers
    if style in ("query", "both"):
        path += qs
    if style in ("query", "bare"):
        body = b""
        hs = [h for h in hs if h[0] != "content-type"]
    allowed = {"POST", "GET"} if kind == "get" and proto == "connect" else {"POST"}
    if method in allowed:
        return
    log = E.Log()

    def pick(name, request, ctx):
        if name in E.STREAM_OUT:
            return [("send", M.Out(id="r"))]
        return [("recvall",), ("ret", M.Out(id="r"))] if name == "client_stream" else [("ret", M.Out(id="r"))]
    app = E.build_app(cfg, pick, log)
    what = {"rpc": kind, "http_method": method, "proto": proto, "server": sv, "style": style}
    if style in ("query", "bare") and proto != "connect":
        return
    ex = E.serve_raw(cfg, app, R.WireReq(method, path, hs, body))
    rec.ev("requests_refused")
    if ex.app_exc is not None or ex.monitor.bad:
        rec.fail(f"methods:{sv}:exception", {"case": what, "exc": repr(ex.app_exc), "bad": ex.monitor.bad[:3]})
        return
    st, headers, rbody, _ = ex.resp()
    if log.calls:
        rec.fail(f"methods:{sv}:{kind}:handler-run", what)
        return
    if st != 405:
        rec.fail(f"methods:{sv}:{kind}:status", {"case": what, "status": st})
        return
    allow = [v for k, v in headers if k == "allow"]
    got = {x.strip() for v in allow for x in v.split(",")}
    if got != allowed or len(allow) != 1:
        rec.fail(f"methods:{sv}:{kind}:allow", {"case": what, "allow": allow})
        return
    # what is advertised is true
    rec.nontrivial(tuple(what.values()))
    rec.sample(what)


def asked(rec, rng, idx):
    """GET only when asked for: generated clients, defaults, parameters and wire."""
    pair = E.PAIRS[idx % 4]
    kind = RPCS[(idx // 4) % len(RPCS)]
    if kind == "bidi" and pair not in E.FULL:
        return
    cfg = E.random_cfg(rng, pair=pair)
    cfg.plan = bridge.Plan(rng)
    cls = VC.ProbeClient if pair[0] == "async" else VC.ProbeClientSync
    has = "use_get" in inspect.signature(getattr(cls, kind)).parameters
    if has != (kind == "get"):
        rec.fail(f"asked:{pair[0]}:{kind}:parameter", {"has_use_get": has})
        return
    what = {**cfg.brief(), "rpc": kind}

    def pick(name, request, ctx):
        c = [("recvall",)] if name in E.STREAM_IN else []
        if name == "nothing":
            from protobuf.wkt import Empty
            return [("ret", Empty())]
        return [*c, ("send" if name in E.STREAM_OUT else "ret", M.Out(id="r"))]
    if kind == "nothing":
        from protobuf.wkt import Empty
        m = Empty()
    else:
        m = M.msg(rng, mid="q")
    t = E.run_one(cfg, pick, E.Spec(kind, [m]))
    if O.hang(rec, t, f"asked:{pair[0]}", what):
        return
    if not t.r.ok:
        rec.fail(f"asked:{pair[0]}:{kind}:failed", {"case": what, "outcome": repr(t.r.outcome())})
        return
    if t.ex.method != "POST" or "?" in t.ex.url or t.call.http_method != "POST":
        rec.fail(f"asked:{pair[0]}:{kind}:not-post", {"case": what, "method": t.ex.method, "url": t.ex.url[:100]})
        return
    lvl = {"get": IdempotencyLevel.NO_SIDE_EFFECTS, "watch": IdempotencyLevel.NO_SIDE_EFFECTS, "idem": IdempotencyLevel.IDEMPOTENT}
    if t.call.info.idempotency_level is not lvl.get(kind, IdempotencyLevel.UNKNOWN):
        rec.fail(f"asked:{pair[0]}:{kind}:idempotency", {"case": what, "level": str(t.call.info.idempotency_level)})
        return
    rec.ev("posts_seen")
    rec.nontrivial((cfg.key(), kind))
    rec.sample(what)


def incomplete(rec, rng, idx):
    """GETs that lack something or name something unknown are refused like the POST that does, and reach no handler."""
    sv = ["asgi", "wsgi"][idx % 2]
    codec = rng.choice(["proto", "json"])
    cfg = E.random_cfg(rng, proto="connect", pair=("async", sv), codec=codec)
    m = M.msg(rng) if rng.random() < 0.7 else M.Msg()
    data = R.encode(codec, m)
    lack = ["no-encoding", "empty-encoding", "unknown-encoding", "no-message", "unknown-compression", "nothing"][(idx // 2) % 6]
    q = {"connect": "v1", "encoding": codec, "base64": "1", "message": R.b64(data)}
    if rng.random() < 0.3:
        del q["connect"]
    match lack:
        case "no-encoding":
            del q["encoding"]
        case "empty-encoding":
            q["encoding"] = ""
        case "unknown-encoding":
            q["encoding"] = rng.choice(["text", "PROTOS", "protojson", "application/json", "json;charset=utf-8", "x" * 50])
        case "no-message":
            del q["message"]
        case "unknown-compression":
            q["compression"] = rng.choice(["lzma", "gzip;q=1", "x", "gzip,br"])
        case "nothing":
            q = {} if rng.random() < 0.5 else {"q": "1"}
    qs = spell(rng, list(q.items()))
    log = E.Log()
    app = E.build_app(cfg, E.as_pick([("ret", M.Out(id="r"))]), log)
    hs = [("x-a", "1")]
    if rng.random() < 0.3:
        # a content-type says nothing about a GET, it has no content
        hs.append(("content-type", rng.choice([f"application/{codec}", "application/json", "application/proto", "text/plain"])))
    ex = E.serve_raw(cfg, app, R.WireReq("GET", R.PKG + "Get" + ("?" + qs if qs else ""), hs, b""))
    what = {"server": sv, "codec": codec, "lack": lack, "query": qs[:200], "headers": hs}
    if ex.app_exc is not None or ex.monitor.bad:
        rec.fail(f"incomplete:{sv}:exception", {"case": what, "exc": repr(ex.app_exc), "bad": ex.monitor.bad[:3]})
        return
    rec.ev("incomplete_refused")
    if log.calls or not 400 <= ex.monitor.status < 600:
        rec.fail(f"incomplete:{sv}:{lack}:served", {"case": what, "status": ex.monitor.status, "calls": len(log.calls)})
        return
    rec.nontrivial((sv, codec, lack, qs))
    rec.sample(what)


WORKLOADS = {
    "twice": Workload(twice, 8000, 150000),
    "wire_get": Workload(wire_get, 10000, 200000),
    "methods": Workload(methods, len(GRID) * 4, len(GRID) * 60),
    "incomplete": Workload(incomplete, 1800, 30000),
    "asked": Workload(asked, 1600, 20000),
}
