"""P23: the bytes on the wire follow the published protocols."""
from __future__ import annotations

import base64
import json
from urllib.parse import quote

from connectrpc.code import Code
from google.protobuf import json_format

from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import ref as R
from ..bridge import Plan
from ..core import Workload
from . import p01, p04, p05

ID = "P23"
RULE = ("A case is an RPC between a real client and a real application whose request and response bytes are recorded on the wire and read by an independent, "
        "strict implementation of the three protocols; or an RPC in which that implementation plays one of the two sides and uses any spelling the protocols "
        "allow. The reader must find nothing wrong and must understand exactly the messages, metadata, timeout and error that were given; the library must "
        "understand exactly what the implementation wrote. Non-trivial: at least one message, error or header was compared; distinct by configuration, kind and contents.")
ASSUME = ["the independent implementation (vf/ref.py) follows the published protocol documents; google.protobuf decodes and encodes its messages",
          "metadata is legal: token names, visible ASCII values"]

KINDS = ["unary", "get", "GET", "idem", "client_stream", "server_stream", "bidi", "watch"]
MATRIX = [(p, k, pair) for p in E.PROTOS for k in KINDS for pair in E.FULL]
TIMEOUTS = [None, None, None, 1, 7, 999, 1000, 1001, 59999, 60000, 3600000, 99999999, 100000000, 100000001, 5 * 10**9, 9999999999, 10**10, 10**10 + 1,
            99999999999, 10**11, 10**12 + 1]


OWN = {"unary": ["content-type", "connect-protocol-version", "accept-encoding", "content-encoding"],
       "connect": ["content-type", "connect-protocol-version", "connect-accept-encoding", "connect-content-encoding"],
       "grpc": ["content-type", "te", "grpc-encoding", "grpc-accept-encoding"]}
OWN["grpcweb"] = OWN["grpc"]


def norm(d: dict) -> dict:
    """Binary metadata may be padded or not."""
    return {k: [v.rstrip("=") for v in vs] if k.endswith("-bin") else list(vs) for k, vs in d.items()}


def announced(rec, cfg, tms, got, what, tag) -> bool:
    """At most the timeout, and less by no more than the resolution of the header."""
    rec.ev("timeouts_checked")
    if tms is None:
        return rec.check(got is None, f"{tag}:timeout-invented", what)
    if cfg.proto == "connect":
        return rec.check(got == min(tms, 9999999999), f"{tag}:timeout", {**what, "given": tms, "announced": got})
    unit = 1 if tms < 10**8 else 1000 if tms < 10**11 else 60000
    return rec.check(got is not None and tms - unit < got <= tms, f"{tag}:timeout", {**what, "given": tms, "announced": got})


def clean(rec, s, tag, what, wire) -> bool:
    rec.ev("wire_reads")
    if s.problems:
        rec.fail(f"{tag}:{_short(s.problems[0])}", {"case": what, "problems": s.problems[:6], "wire": repr(wire)[:900]})
        return False
    return True


def _short(p: str) -> str:
    return "-".join(p.split(":")[0].split()[:6])[:60]


def exchange(rec, rng, idx):
    """Both real sides; the wire between them is read in both directions."""
    p, kind, pair = MATRIX[idx % len(MATRIX)]
    cfg = E.random_cfg(rng, proto=p, pair=pair)
    k = "get" if kind == "GET" else kind
    ins, outs, script = p01.build(rng, k)
    hq, hh, ht = p05.gen(rng, cfg), p05.gen(rng, cfg), p05.gen(rng, cfg)
    tms = rng.choice(TIMEOUTS)
    if tms is not None:
        cfg.plan = Plan()  # no delays: the deadline does not pass
    want_err = None
    if rng.random() < 0.45:
        make, want_err = p04.error(rng, rng.choice(list(Code)))
        n = rng.choice([0, 1, len(outs)]) if k in E.STREAM_OUT else 0
        outs = outs[:n]
        script = ([("recvall",)] if k in E.STREAM_IN else []) + [("send", o) for o in outs] + [("raise", make)]
    script = [("hdr", *h) for h in hh] + [("trl", *h) for h in ht] + script
    spec = E.Spec(k, ins, headers=E.to_headers(hq) if hq or rng.random() < 0.5 else None, use_get=kind == "GET", timeout_ms=tms)
    over = {}
    if rng.random() < 0.15:  # names that belong to the protocol, given by the caller
        own = OWN["unary" if cfg.proto == "connect" and k in R.UNARY else cfg.proto]
        over = {n: rng.choice(["snappy", "2", "text/plain", "", "x"]) for n in rng.sample(own, rng.choice([1, 1, 2]))}
        spec.headers = E.to_headers(hq + list(over.items()))
    what = {**cfg.brief(), "kind": kind, "in": len(ins), "out": len(outs), "timeout": tms, "error": want_err and want_err[1:3], "req": hq, "over": over, "hdr": hh, "trl": ht}
    t = E.run_one(cfg, script, spec)
    if O.hang(rec, t, kind, what):
        return
    ex = t.ex
    wq = R.WireReq(ex.method, _path(ex.url), list(ex.req_headers), bytes(ex.req_body))
    s = R.read_request(cfg.proto, k, cfg.codec, wq)
    tag = f"client:{cfg.proto}:{kind}"
    if not clean(rec, s, tag, what, wq):
        return
    rec.check(s.msgs == M.canons(ins), f"{tag}:messages", lambda: {"case": what, **O.diff(M.canons(ins), s.msgs)})
    rec.check(norm(s.headers) == norm(E.mm(hq)), f"{tag}:headers", lambda: {"case": what, "wire": s.headers})
    announced(rec, cfg, tms, s.timeout_ms, what, tag)
    rec.check(s.comp == (cfg.send if cfg.send != "identity" else None) or not any(s.compressed), f"{tag}:compression", what)
    wr = E.wire_resp(ex)
    s = R.read_response(cfg.proto, k, cfg.codec, wr)
    tag = f"server:{cfg.proto}:{kind}"
    if not clean(rec, s, tag, what, wr):
        return
    rec.check(s.msgs == M.canons(outs), f"{tag}:messages", lambda: {"case": what, **O.diff(M.canons(outs), s.msgs)})
    rec.check(norm(s.headers) == norm(E.mm(hh)), f"{tag}:headers", lambda: {"case": what, "wire": s.headers})
    rec.check(norm(s.trailers) == norm(E.mm(ht)), f"{tag}:trailers", lambda: {"case": what, "wire": s.trailers})
    if want_err is None:
        rec.check(s.ok and s.error is None, f"{tag}:success", lambda: {"case": what, "error": s.error})
    else:
        rec.check(not s.ok and s.error == (want_err[1], want_err[2], want_err[3]), f"{tag}:error", lambda: {"case": what, "wire": repr(s.error)[:500], "raised": repr(want_err)[:500]})
    rec.nontrivial((cfg.key(), kind, M.canons(ins), M.canons(outs), want_err, tms))
    rec.seen("configurations", (cfg.key(), kind, want_err is not None))
    rec.sample(what)


def _path(url: str) -> str:
    i = url.index("/", url.index("://") + 3)
    return url[i:]


# --------------------------------------------------------------------------- legal spellings
def spell_json(rng, m) -> bytes:
    gm = R.to_google(m)
    s = json_format.MessageToJson(gm, indent=rng.choice([None, 2]), preserving_proto_field_name=rng.random() < 0.5,
                                  ensure_ascii=rng.random() < 0.5, always_print_fields_with_no_presence=rng.random() < 0.3)
    return s.encode()


def spell(rng, codec, ms):
    return [spell_json(rng, m) if codec == "json" else m for m in ms]


def spell_timeout(rng, proto):
    """(header value, milliseconds)"""
    if rng.random() < 0.4:
        return None, None
    if proto == "connect":
        n = rng.choice([1000, 5000, 99999, 9999999999, 60000])
        return str(n).zfill(rng.choice([0, 10])), n
    unit, ms = rng.choice([("H", 3600000), ("M", 60000), ("S", 1000), ("m", 1), ("u", 1e-3), ("n", 1e-6)])
    n = rng.choice([1, 2, 59, 100, 99999999])
    while n * ms < 50:
        n = rng.choice([99999999, 5000000, 123456, 100])
        if unit == "n":
            n = 99999999
    return f"{n}{unit}", n * ms


def ref_client(rec, rng, idx):
    """The independent client with any legal spelling; the real application must understand it."""
    p = list(E.PROTOS)[idx % 3]
    kind = KINDS[idx // 3 % len(KINDS)]
    if kind == "GET" and p != "connect":
        kind = "get"
    k = "get" if kind == "GET" else kind
    cfg = E.random_cfg(rng, proto=p, pair=rng.choice(E.FULL))
    ins, outs, script = p01.build(rng, k)
    want_err = None
    if rng.random() < 0.3:
        make, want_err = p04.error(rng, rng.choice(list(Code)))
        n = rng.choice([0, 1, len(outs)]) if k in E.STREAM_OUT else 0
        outs = outs[:n]
        script = ([("recvall",)] if k in E.STREAM_IN else []) + [("send", o) for o in outs] + [("raise", make)]
    hq, hh, ht = p05.gen(rng, cfg), p05.gen(rng, cfg), p05.gen(rng, cfg)
    script = [("hdr", *h) for h in hh] + [("trl", *h) for h in ht] + script
    servers = cfg.server_comps if cfg.server_comps is not None else ["gzip"]
    comp = rng.choice([None, "identity", *servers])
    accept = rng.choice([None, "", "identity", "gzip", ", ".join(rng.sample(["gzip", "br", "zstd", "snappy"], 3)), ",".join(servers), " , ".join(servers)])
    th, tms = spell_timeout(rng, p)
    if tms is not None:
        cfg.plan = Plan()
    hs = list(hq)
    if th is not None:
        hs.append(("connect-timeout-ms" if p == "connect" else "grpc-timeout", th))
    per = [rng.random() < 0.6 for _ in ins]
    spelled = spell(rng, cfg.codec, ins)
    get = kind == "GET"
    notes = []
    w = R.request(p, k, cfg.codec, spelled, comp=comp, accept=accept, headers=hs, get=get, per_msg=per,
                  get_plain=get and cfg.codec == "json" and rng.random() < 0.5, version=rng.random() < 0.7)
    if get:
        w.path = spell_query(rng, w.path, notes)
    ct = dict(w.headers).get("content-type")
    if p != "connect" and cfg.codec == "proto" and rng.random() < 0.4:
        ct = ct.removesuffix("+proto")
        w = w.with_(("content-type", ct))
        notes.append("no codec in content-type")
    elif p == "connect" and ct and rng.random() < 0.3:
        ct += rng.choice(["; charset=utf-8", ";charset=UTF-8", " ; x=y"])
        if k in R.UNARY:
            w = w.with_(("content-type", rng.choice([ct, ct.upper() if cfg.codec == "never" else ct])))
            notes.append("content-type parameter")
    enc = dict(w.headers).get("content-encoding")
    if enc and p == "connect" and k in R.UNARY and rng.random() < 0.4:  # the content codings of HTTP know no case
        w = w.with_(("content-encoding", rng.choice([enc.upper(), enc.title()])))
        notes.append("case of content-encoding")
    rng.shuffle(w.headers) if not any(v for v in E.mm(w.headers).values() if len(v) > 1) else None
    what = {**cfg.brief(), "kind": kind, "comp": comp, "accept": accept, "timeout": th, "notes": notes, "path": w.path[:200], "in": len(ins), "out": len(outs), "error": want_err and want_err[1:3]}
    log = E.Log()
    app = E.build_app(cfg, E.as_pick(script), log)
    ex = E.serve_raw(cfg, app, w)
    tag = f"ref-client:{p}:{kind}"
    if not rec.check(len(log.calls) == 1, f"{tag}:not-accepted", lambda: {"case": what, "response": repr(E.wire_resp(ex))[:600]}):
        return
    c = log.calls[0]
    rec.check(M.canons(c.reqs) == M.canons(ins) and c.recv_error is None, f"{tag}:messages", lambda: {"case": what, "recv_error": repr(c.recv_error), **O.diff(M.canons(ins), M.canons(c.reqs))})
    got = p05.user(c.headers, R.RESERVED_REQ)
    rec.check(p05.same_req(cfg, E.mm(hq), got), f"{tag}:headers", lambda: {"case": what, "sent": E.mm(hq), "seen": got})
    rec.ev("timeouts_checked")
    rec.check((c.timeout_ms is None) == (tms is None) and (tms is None or tms - 1 <= c.timeout_ms <= tms + 1e-6), f"{tag}:timeout", {**what, "sent_ms": tms, "seen": c.timeout_ms})
    wr = E.wire_resp(ex)
    rct = (ct or "").partition(";")[0].strip()
    if rct and rct.startswith("application/grpc") and "+" not in rct:
        # answered in kind, with or without naming the codec
        wr = R.WireResp(wr.status, [(a, b + "+proto" if a == "content-type" and "+" not in b else b) for a, b in wr.headers], wr.body, wr.trailers)
    s = R.read_response(p, k, cfg.codec, wr)
    if not clean(rec, s, tag, what, wr):
        return
    allowed = {x.strip() for x in (accept or "").split(",")}
    rec.check(s.comp in (None, "identity") or s.comp in allowed, f"{tag}:compression-not-accepted", {**what, "used": s.comp})
    rec.check(s.msgs == M.canons(outs), f"{tag}:responses", lambda: {"case": what, **O.diff(M.canons(outs), s.msgs)})
    rec.check(norm(s.headers) == norm(E.mm(hh)) and norm(s.trailers) == norm(E.mm(ht)), f"{tag}:metadata", lambda: {"case": what, "headers": s.headers, "trailers": s.trailers})
    if want_err is None:
        rec.check(s.ok, f"{tag}:outcome", lambda: {"case": what, "error": s.error})
    else:
        rec.check(s.error == (want_err[1], want_err[2], want_err[3]), f"{tag}:error", lambda: {"case": what, "wire": repr(s.error)[:500]})
    for n in notes:
        rec.ev("spelling: " + n)
    rec.nontrivial((cfg.key(), kind, M.canons(ins), comp, accept, th, tuple(notes), want_err))
    rec.sample(what)


def spell_query(rng, path, notes):
    base, _, q = path.partition("?")
    items = [x.partition("=") for x in q.split("&")]
    d = {a: b for a, _, b in items}
    if rng.random() < 0.3:
        d.pop("connect", None)
        notes.append("no connect=v1")
    if rng.random() < 0.3 and "base64" in d:
        d["message"] += "=" * (-len(d["message"]) % 4)
        notes.append("padded base64")
    if rng.random() < 0.3 and "base64" in d and d.get("encoding") == "json" and not d.get("compression"):
        raw = base64.urlsafe_b64decode(d["message"].rstrip("=") + "=" * (-len(d["message"].rstrip("=")) % 4))
        d["message"] = quote(raw, safe="")
        del d["base64"]
        notes.append("percent-encoded message")
    ks = list(d)
    rng.shuffle(ks)
    return base + "?" + "&".join(f"{k}={d[k]}" for k in ks)


def ref_server(rec, rng, idx):
    """The independent server with any legal spelling; the real client must understand it."""
    p = list(E.PROTOS)[idx % 3]
    kind = KINDS[idx // 3 % len(KINDS)]
    k = "get" if kind == "GET" else kind
    cfg = E.random_cfg(rng, proto=p, pair=rng.choice(E.FULL))
    if cfg.accept is not None and rng.random() < 0.5:
        cfg.accept = rng.sample(["gzip", "br", "zstd"], 2)
    ins, outs, _ = p01.build(rng, k)
    error, want_err = None, ("ok",)
    if rng.random() < 0.45:
        code, msg = rng.choice(R.CODES), p04.message(rng)
        ds = tuple((d[1], d[2]) for d in (p04.detail(rng) for _ in range(rng.choice([0, 0, 1, 2]))))
        error = (code, msg, ds)
        want_err = ("err", code, msg, ds)
        outs = outs[:rng.choice([0, 1, 5])] if k in E.STREAM_OUT else []
    hh, ht = p05.gen(rng, cfg), p05.gen(rng, cfg)
    accepted = cfg.accept if cfg.accept is not None else ["gzip"]
    comp = rng.choice([None, "identity", *accepted, *accepted])
    unary = not R.enveloped(p, k)
    notes: list = []
    w = R.response(p, k, cfg.codec, spell(rng, cfg.codec, outs), comp=comp, headers=hh, trailers=ht, error=error,
                   per_msg=[rng.random() < 0.6 for _ in outs], trailers_only=rng.random() < 0.5,
                   compress_end=comp not in (None, "identity") and rng.random() < 0.4)
    w = spell_response(rng, p, k, cfg.codec, w, error, ht, notes, comp)
    chunks = rng.choice([None, [w.body[i:i + 1] for i in range(len(w.body))], [w.body[i:i + 7] for i in range(0, len(w.body), 7)]])
    spec = E.Spec(k, ins, use_get=kind == "GET")
    what = {**cfg.brief(), "kind": kind, "comp": comp, "out": len(outs), "error": error and error[:2], "notes": notes, "hdr": hh, "trl": ht}
    t = E.run_fake(cfg, R.Fake.of(w, steps=chunks), spec)
    tag = f"ref-server:{p}:{kind}"
    if O.hang(rec, t, tag, what):
        return
    got = t.r.outcome()
    if not rec.check(got == want_err, f"{tag}:outcome", lambda: {"case": what, "got": repr(got)[:500], "want": repr(want_err)[:500], "wire": repr(w)[:600]}):
        return
    rec.check(M.canons(t.r.msgs) == M.canons(outs), f"{tag}:messages", lambda: {"case": what, **O.diff(M.canons(outs), M.canons(t.r.msgs))})
    h, tr = p05.user(t.r.headers, R.RESERVED_RESP), p05.user(t.r.trailers, R.RESERVED_RESP)
    if w.trailers is None and p == "grpc" and not unary:
        # with trailers only, headers and trailers are one block
        both = E.mm(list(hh) + list(ht))
        rec.check(all(norm({**tr, **h}).get(n) == v or sorted(norm(tr).get(n, []) + norm(h).get(n, [])) == sorted(v) or norm(h).get(n) == v or norm(tr).get(n) == v for n, v in norm(both).items()),
                  f"{tag}:metadata", lambda: {"case": what, "headers": h, "trailers": tr})
    elif "trailers only" not in notes:
        rec.check(norm(h) == norm(E.mm(hh)), f"{tag}:headers", lambda: {"case": what, "got": h})
        rec.check(norm(tr) == norm(E.mm(ht)), f"{tag}:trailers", lambda: {"case": what, "got": tr})
    g0 = t.got[0].wire()
    s = R.read_request(p, k, cfg.codec, g0)
    if clean(rec, s, f"client:{p}:{kind}", what, g0) and t.got[0].complete and error is None:
        rec.check(s.msgs == M.canons(ins), f"client:{p}:{kind}:messages", what)
    for n in notes:
        rec.ev("spelling: " + n)
    rec.nontrivial((cfg.key(), kind, M.canons(outs), comp, error, tuple(notes)))
    rec.sample(what)


def spell_error(rng, d: dict, notes) -> dict:
    if rng.random() < 0.3:
        d["x-unknown"] = {"a": [1]}
        notes.append("unknown field in error")
    if not d.get("message") and rng.random() < 0.5:
        d.pop("message", None)
        notes.append("no error message")
    for x in d.get("details", []):
        if rng.random() < 0.3:
            x["value"] += "=" * (-len(x["value"]) % 4)
            notes.append("padded detail")
        if rng.random() < 0.3:
            x["debug"] = rng.choice([{"any": 1}, "s", None, [1]])
            notes.append("debug in detail")
    if not d.get("details") and rng.random() < 0.2:
        d["details"] = []
        notes.append("empty details")
    ks = list(d)
    rng.shuffle(ks)
    return {k: d[k] for k in ks}


def dump(rng, d) -> bytes:
    return json.dumps(d, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1]), separators=rng.choice([None, (",", ":")])).encode()


def spell_response(rng, p, k, codec, w, error, ht, notes, comp):
    if p == "connect":
        if not R.enveloped(p, k):
            if error is None:
                if rng.random() < 0.3:
                    w.headers = [(a, b + rng.choice(["; charset=utf-8", ";x=y"])) if a == "content-type" else (a, b) for a, b in w.headers]
                    notes.append("content-type parameter")
                return w
            d = spell_error(rng, json.loads(R.decompress(comp, w.body)), notes)
            body = dump(rng, d)
            hs = [(a, b) for a, b in w.headers if a != "content-encoding"]
            if rng.random() < 0.3:
                hs = [(a, b + "; charset=utf-8") if a == "content-type" else (a, b) for a, b in hs]
                notes.append("content-type parameter")
            if comp in ("gzip", "br", "zstd") and rng.random() < 0.4:
                hs.append(("content-encoding", comp))
                body = R.compress(comp, body)
                notes.append("compressed error")
            return R.WireResp(w.status, hs, body)
        fs, _ = R.envs(w.body)
        flags, data = fs[-1]
        d = json.loads(R.decompress(comp if flags & 1 else None, data))
        if "error" in d:
            d["error"] = spell_error(rng, d["error"], notes)
        if rng.random() < 0.2:
            d.setdefault("metadata", {})
            notes.append("empty metadata")
        if rng.random() < 0.2:
            d["x-unknown"] = [1, {}]
            notes.append("unknown field in end of stream")
        if "error" not in d and rng.random() < 0.1:
            d["error"] = None
            notes.append("null error")
        data = dump(rng, d)
        end = R.env(R.compress(comp, data) if flags & 1 else data, flags)
        return R.WireResp(w.status, w.headers, b"".join(R.env(b, f) for f, b in fs[:-1]) + end)
    # gRPC: the status block
    if p == "grpc" and w.trailers is not None:
        w.trailers = spell_block(rng, w.trailers, notes)
        return w
    if p == "grpcweb" and w.body:
        fs, _ = R.envs(w.body)
        flags, data = fs[-1]
        if flags & 0x80:
            raw = R.decompress(comp if flags & 1 else None, data)
            items = [(a, b.strip()) for a, _, b in (line.partition(":") for line in raw.decode().split("\r\n") if line)]
            items = spell_block(rng, items, notes)
            style = rng.randint(0, 3)
            txt = "".join(f"{_case(a) if style == 1 else a}:{'' if style == 2 else ' '}{b}\r\n" for a, b in items)
            if style == 1:
                notes.append("capitalised trailer names")
            if style == 2:
                notes.append("no space after colon")
            if style == 3:
                txt = txt[:-2]
                notes.append("no final CRLF")
            data = txt.encode()
            return R.WireResp(w.status, w.headers, b"".join(R.env(b, f) for f, b in fs[:-1]) + R.env(R.compress(comp, data) if flags & 1 else data, flags))
    if w.trailers is None and not w.body:
        notes.append("trailers only")
        n = len([h for h in w.headers])
        w.headers = spell_block(rng, w.headers, notes) if n else w.headers
    return w


def _case(n: str) -> str:
    return "-".join(x.capitalize() for x in n.split("-"))


def spell_block(rng, items, notes):
    out = []
    for a, b in items:
        if a == "grpc-message" and rng.random() < 0.4:
            b = "".join(c if rng.random() < 0.8 or c == "%" or "%" in b else f"%{ord(c):02x}" for c in b)
            notes.append("needless percent-encoding")
        if a == "grpc-message" and rng.random() < 0.3:
            import re
            b = re.sub(r"%[0-9A-F]{2}", lambda m: m[0].lower(), b)
            notes.append("lower-case percent-encoding")
        if a == "grpc-status-details-bin" and rng.random() < 0.4:
            b += "=" * (-len(b) % 4)
            notes.append("padded details")
        out.append((a, b))
    if rng.random() < 0.2 and not any(a == "grpc-message" for a, _ in out):
        out.append(("grpc-message", ""))
        notes.append("empty grpc-message")
    return out


WORKLOADS = {
    "exchange": Workload(exchange, 6000, 200000),
    "ref_client": Workload(ref_client, 6000, 200000),
    "ref_server": Workload(ref_server, 6000, 200000),
}
