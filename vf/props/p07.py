"""P07: hostile requests get a complete error response and reach no handler."""
from __future__ import annotations

import copy
import json

from .. import engine as E
from .. import msgs as M
from .. import mutate as MU
from .. import ref as R
from ..bridge import Plan
from ..core import Workload

ID = "P07"
RULE = ("A case is one HTTP request to a real application: a valid request of the reference implementation with a defect of a "
        "known kind (definite), with random mutations of path, query, headers, framing and body (fuzz), or a session mixing "
        "both with good requests. Monitors: the application raises nothing, the response obeys ASGI/PEP 3333, is complete and "
        "parses as an error response of its own protocol, the error is one caused by the client, and no handler receives the "
        "malformed message. Non-trivial: the request was rejected; distinct by configuration, defect and request.")
ASSUME = ["what an HTTP server itself rejects is not generated (control characters in headers, non-numeric content-length)",
          "the server supports trailers (P08 covers servers that do not)"]

KINDS = ["unary", "get", "idem", "client_stream", "server_stream", "bidi"]
CLIENT_CODES = {"invalid_argument", "unimplemented", "resource_exhausted", "not_found", "out_of_range", "failed_precondition",
                "canceled", "deadline_exceeded", "unauthenticated", "permission_denied"}
BADPB = [b"\x0a\x05ab", b"\x0a", b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", b"\x12\x01", b"\x19\x00", b"\x0a\xff\xff\xff\xff\x0fx"]
BADJSON = [b"{", b"nope", b"\xff\xfe{}", b"{\"id\": \"a\"", b"[1,", b"\"", b"{\"id\": {}}", b"{\"seq\": \"x\"}", b"{'id':1}"]


def outcome(ex) -> tuple[tuple, list[str]]:
    """(('http', n) | ('error', code) | ('ok',), problems), by what the response itself says."""
    bad = list(ex.monitor.bad)
    if ex.app_exc is not None:
        bad.append(f"the application raised {ex.app_exc!r}")
    if ex.report is not None and ex.report.deadlock:
        bad.append(f"never completes: {ex.report.deadlock}")
    st, hs, body, trl = ex.resp()
    if st is None:
        return ("nothing",), [*bad, "no response"]
    if hasattr(ex.monitor, "complete") and not ex.monitor.complete:
        bad.append("response not complete")
    h = {k.lower(): v for k, v in hs}
    ct = h.get("content-type", "")
    if st != 200:
        if not body:
            return ("http", st), bad
        if ct != "application/json":
            bad.append(f"error body of type {ct!r}")
        s = R.Seen()
        try:
            err = R.read_connect_error(s, json.loads(body))
        except ValueError as e:
            return ("http", st), [*bad, f"error body: {e}"]
        bad += s.problems
        if err and err[0] in R.CODES and R.HTTP[err[0]] != st:
            bad.append(f"status {st} for {err[0]}")
        return ("error", err[0] if err else None), bad
    for proto, prefix in (("connect", "application/connect+"), ("grpcweb", "application/grpc-web+"), ("grpc", "application/grpc+")):
        if ct.startswith(prefix):
            s = R.read_response(proto, "server_stream", ct[len(prefix):], E.wire_resp(ex))
            return (("ok",) if s.ok else ("error", s.error and s.error[0])), bad + s.problems
    return ("ok",), bad


def run(cfg, app, w, **kw):
    plan = Plan(cfg.plan.rng if cfg.plan else None)
    plan.http_version = kw.pop("http", "2")
    plan.client = kw.pop("client", plan.client)
    if "query_raw" in kw:
        q = kw.pop("query_raw")
        plan.scope_extra = {"query_string": q}
        plan.environ_extra["QUERY_STRING"] = q.decode("latin-1")
    if "path_raw" in kw:
        p = kw.pop("path_raw")
        plan.scope_extra["path"] = p
        plan.environ_extra["PATH_INFO"] = p.encode("utf-8").decode("latin-1")
    if "ct_none" in kw:
        kw.pop("ct_none")
    return E.serve_raw(cfg, app, w, plan=plan, **kw)


# --------------------------------------------------------------------------- definite defects
def d_path(rng, c):
    p, k = c["path"], c["kind"]
    full = p
    bad = rng.choice([full + "/", full + "x", full[:-1], full.lower(), "/" + full, full.replace("Probe", "probe"), "/", "/verif.v1.Probe/",
                      "/verif.v1.Probe", full + "/" + R.PATHS[k], "/other.v1.Probe/" + R.PATHS[k], full.replace("/", "//", 1)[0:], "/" + R.PATHS[k],
                      full.replace("verif.v1.", ""), full + "\u00e9", "/verif.v1.Probe/" + R.PATHS[k].upper() + "_", full + " ", full.replace(".", "/")])
    if bad.lstrip("/") == full.lstrip("/") and bad.startswith("//"):
        bad = "/x" + full
    return {"path_raw": bad}, {("http", 404)}


def d_method(rng, c):
    ms = ["PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "post", "TRACE", "CONNECT", "Post"]
    if c["kind"] != "get" or c["proto"] != "connect":
        ms.append("GET")
    c["w"].method = rng.choice(ms)
    return {"allow": "GET, POST" if c["kind"] == "get" and c["proto"] == "connect" else "POST"}, {("http", 405)}


def d_content_type(rng, c):
    w, p, k = c["w"], c["proto"], c["kind"]
    if w.method == "GET":
        return None
    un = p == "connect" and k in R.UNARY
    bad = ["text/plain", "application/xml", "application/octet-stream", "application/protobuf", "multipart/form-data; boundary=x", "application/grpcx",
           "application/grpc+xml", "application/grpc-web+cbor", "application/grpc-web-text", "*/*", "application/", "proto;x", "application/connect+", "é", "application /json",
           "application/grpc+", "application/grpc-web+", "application/grpc-web-text+proto", "application/connect+xml", "application/jsonx", "application/grpc+proto; x=1" if False else "x/y"]
    bad = [b for b in bad if b != "proto;x"]
    if k in R.UNARY:
        bad += ["application/connect+proto", "application/connect+json"]
    else:
        bad += ["application/proto", "application/json", "application/json; charset=utf-8"]
    w = c["w"] = w.without("content-type")
    v = rng.choice([None, *bad])
    if v is not None:
        w.headers.append(("content-type", v))
    return {"ct": v}, {("http", 415)}


def d_version(rng, c):
    if c["proto"] != "connect" or c["w"].method == "GET":
        return None
    c["w"] = c["w"].with_(("connect-protocol-version", rng.choice(["2", "0", "v1", "1.0", "one", "", "1 1", "-1", "11"])))
    return {}, {("error", "invalid_argument")}


def d_timeout(rng, c):
    if c["proto"] == "connect":
        v = rng.choice(["abc", "12345678901", "1.5", "1s", "1e3", "0x10", "--1", "1,2", "999999999999999999999", "5m", "NaN", "-5", "+5", "1_000", "-0", "\u0665", "00000000005", "0" * 40 + "1", "00000000000"])
        c["w"] = c["w"].with_(("connect-timeout-ms", v))
    else:
        v = rng.choice(["abc", "1", "1x", "123456789m", "m", "1.5S", "S1", "1 0 S", "99999999999H", "1s", "1h", "0x1m", "1mm", "n", "10000000000n", "1,5S", "1e3m", "-5S", "+5S", "1_0m", " 5m", "-1H", "\u0665S"])
        c["w"] = c["w"].with_(("grpc-timeout", v))
    return {"timeout": v}, {("error", "invalid_argument")}


def enc_header(c):
    if c["proto"] == "connect":
        return "content-encoding" if c["kind"] in R.UNARY else "connect-content-encoding"
    return "grpc-encoding"


def d_unknown_compression(rng, c):
    name = rng.choice(["foo", "deflate", "gzip,br", "x-gzip", "snappy", "gzip2", "br;q=1", "lz4", "compress"])
    if c["w"].method == "GET":
        c["w"].path += "&compression=" + name.replace(";", "%3B").replace(",", "%2C")
    else:
        c["w"] = c["w"].with_((enc_header(c), name))
    return {"compression": name}, {("error", "unimplemented")}


def broken(rng, c, n_good: int):
    """A body whose message number n_good cannot be decoded."""
    codec = c["codec"]
    return rng.choice(BADPB if codec == "proto" else BADJSON)


def set_body(rng, c, data: bytes, flag: int | None = None, comp: str | None = None, good=()):
    """Replaces the message(s) by the good ones followed by `data`."""
    w = c["w"]
    if c["get"]:
        w2 = R.request("connect", c["kind"], c["codec"], [b""], get=True)
        import base64
        from urllib.parse import urlencode
        q = {"connect": "v1", "encoding": c["codec"], "base64": "1", "message": base64.urlsafe_b64encode(data).decode().rstrip("=")}
        if comp:
            q["compression"] = comp
        w2.path = c["path"] + "?" + urlencode(q)
        w2.headers = w.headers
        c["w"] = w2
        return
    w = c["w"] = w.without(enc_header(c))
    if comp:
        w.headers.append((enc_header(c), comp))
    if R.enveloped(c["proto"], c["kind"]):
        w.body = R.frames(c["codec"], good, None) + R.env(data, flag if flag is not None else (1 if comp else 0))
        if rng.random() < 0.3:
            w.body += R.frames(c["codec"], [M.msg(rng)], None)
    else:
        w.body = data


def goods(rng, c):
    if c["kind"] not in E.STREAM_IN:
        return []
    return [M.msg(rng) for _ in range(rng.choice([0, 0, 1, 2, 5]))]


def d_undecodable(rng, c):
    c["good"] = goods(rng, c)
    data = broken(rng, c, 0)
    comp = rng.choice([None, None, "gzip", "br", "zstd"])
    set_body(rng, c, R.compress(comp, data), None, comp, c["good"])
    return {"data": data.hex(), "comp": comp, "good": len(c["good"])}, {("error", "invalid_argument")}


def d_corrupt_compression(rng, c):
    c["good"] = goods(rng, c)
    comp = rng.choice(["gzip", "br", "zstd"])
    data = R.compress(comp, R.encode(c["codec"], M.msg(rng, "id", size=rng.choice([0, 20, 300]))))
    for _ in range(50):
        how = rng.choice(["cut", "flip", "plain", "head"])
        if how == "cut":
            bad = data[:rng.randrange(1, len(data))]
        elif how == "flip":
            # (reserved header bits of gzip, byte 3, are ignored by the standard library: no damage to the message)
            bad = data[:10] + MU.flip(rng, data[10:]) if comp == "gzip" else MU.flip(rng, data)
        elif how == "head":
            bad = rng.randbytes(4) + data[4:]
        else:
            bad = R.encode(c["codec"], M.msg(rng, "plain"))
        try:
            R.decompress(comp, bad)
        except ValueError:
            if bad:
                break
    else:
        return None
    set_body(rng, c, bad, None, comp, c["good"])
    return {"comp": comp, "how": how, "data": bad[:60].hex(), "good": len(c["good"])}, {("error", "invalid_argument")}


def d_flag_without_encoding(rng, c):
    if not R.enveloped(c["proto"], c["kind"]):
        return None
    c["good"] = goods(rng, c)
    set_body(rng, c, R.compress("gzip", R.encode(c["codec"], M.msg(rng, "x"))), 1, None, c["good"])
    if rng.random() < 0.5:
        c["w"].headers.append((enc_header(c), "identity"))
    return {"good": len(c["good"])}, {("error", "invalid_argument"), ("error", "internal")}


def d_truncated(rng, c):
    if not R.enveloped(c["proto"], c["kind"]):
        return None
    c["good"] = goods(rng, c)
    data = R.encode(c["codec"], M.msg(rng, "xyz", size=20))
    full = R.env(data)
    c["w"] = c["w"].without(enc_header(c))
    cut = rng.randrange(1, len(full))
    if rng.random() < 0.3:
        full = bytes([0]) + rng.choice([2**32 - 1, 2**31, len(data) + 1]).to_bytes(4, "big") + data
        cut = len(full)
    c["w"].body = R.frames(c["codec"], c["good"], None) + full[:cut]
    return {"good": len(c["good"]), "cut": cut, "of": len(full)}, {("error", "invalid_argument")}


def d_get_query(rng, c):
    if not c["get"]:
        return None
    base = c["path"] + "?"
    codec = c["codec"]
    how = rng.choice(["no-message", "bad-base64", "no-encoding", "bad-encoding", "empty-query", "garbage"])
    exp = {("error", "invalid_argument")}
    if how == "no-message":
        q = f"connect=v1&encoding={codec}&base64=1"
    elif how == "bad-base64":
        q = f"connect=v1&encoding={codec}&base64=1&message={rng.choice(['A', 'AAAAA', 'ABCDE', 'a', '%C3%A9AAA', 'AAAA%E2%82%AC', '%F0%9F%98%80', '%21%21%21%21', 'CgEx%0A', 'Cg Ex', '.CgEx', 'Cg%00Ex', 'CgE%3DCgEx', '%3D%3D%3D', '%22CgEx%22', 'CgE%C2%B2'])}"
    elif how == "no-encoding":
        q, exp = "connect=v1&base64=1&message=", {("http", 415), ("error", "unimplemented")}
    elif how == "bad-encoding":
        q, exp = f"connect=v1&encoding={rng.choice(['xml', 'PROTOX', 'application/proto', 'connect%2Bproto', '%00'])}&message=", {("http", 415), ("error", "unimplemented")}
    elif how == "empty-query":
        q, exp = "", {("http", 415), ("error", "unimplemented"), ("error", "invalid_argument")}
    else:
        q, exp = rng.choice(["&&&", "====", "%", "%zz=%zz", "message", "connect", ";;;", "?"]), {("http", 415), ("error", "unimplemented"), ("error", "invalid_argument")}
    c["w"].path = base + q
    return {"how": how, "q": q}, exp


def d_get_raw_query(rng, c):
    if not c["get"]:
        return None
    bad = rng.choice([b"\xff\xfe", b"\x80abc", b"a\xc3", b"\xed\xa0\x80"])
    if c["codec"] == "json" and rng.random() < 0.5:
        bad = b'{"id":"' + bad + b'"}'
    if rng.random() < 0.5:
        bad = b"".join(b"%%%02X" % x for x in bad)
    raw = b"connect=v1&encoding=" + c["codec"].encode() + b"&message=" + bad
    return {"query_raw": raw}, {("error", "invalid_argument")}


DEFECTS = {f.__name__[2:]: f for f in (d_path, d_method, d_content_type, d_version, d_timeout, d_unknown_compression, d_undecodable,
                                       d_corrupt_compression, d_flag_without_encoding, d_truncated, d_get_query, d_get_raw_query)}
GRID = [(d, p, k, sv) for d in DEFECTS for p in E.PROTOS for k in [*KINDS, "GET"] for sv in ("asgi", "wsgi")
        if not (k == "GET" and p != "connect") and not (d.startswith("get_") and k != "GET")]
GRID += [g for g in GRID if g[0].startswith("get_")] * 7


def script_for(kind, rng):
    if kind in E.STREAM_OUT and kind not in E.STREAM_IN:
        return [("send", M.Out(id="r"))]
    if kind == "bidi":
        return [("recvall",), ("send", M.Out(id="r"))]
    if kind == "client_stream":
        return [("recvall",), ("ret", M.Out(id="r"))]
    return [("ret", M.Out(id="r"))]


def base_case(rng, p, k, sv):
    get = k == "GET"
    kind = "get" if get else k
    codec = rng.choice(["proto", "json"])
    w = R.request(p, kind, codec, [M.msg(rng) for _ in range(1)], get=get, timeout_ms=rng.choice([None, None, 60000]),
                  accept=rng.choice([None, "gzip", "br, gzip", "identity", "zstd;q=1"]))
    return {"proto": p, "kind": kind, "codec": codec, "get": get, "w": w, "path": E.PKG + R.PATHS[kind], "server": sv, "good": []}


def make_defect(rng, name, p, k, sv):
    c = base_case(rng, p, k, sv)
    r = DEFECTS[name](rng, c)
    if r is None:
        return None
    info, expect = r
    kw = {x: info.pop(x) for x in ("path_raw", "query_raw") if x in info}
    allow = info.pop("allow", None)
    return c, info, expect, kw, allow


def judge(rec, name, c, info, expect, kw, allow, cfg, ex, calls, what) -> bool:
    got, bad = outcome(ex)
    rec.ev("responses_judged")
    sv = cfg.server
    if bad:
        rec.fail(f"{sv}:{name}:malformed-response", {"case": what, "problems": bad[:4], "outcome": got})
        return False
    if got not in expect:
        rec.fail(f"{sv}:{name}:answered-{'-'.join(map(str, got))}", {"case": what, "expected": sorted(map(str, expect)), "response": repr(ex.resp())[:400]})
        return False
    if allow is not None:
        a = [v for k, v in ex.resp()[1] if k.lower() == "allow"]
        if [sorted(x.strip() for x in v.split(",")) for v in a] != [sorted(x.strip() for x in allow.split(","))]:
            rec.fail(f"{sv}:{name}:allow-header", {"case": what, "allow": a, "expected": allow})
            return False
    streaming = c["kind"] in E.STREAM_IN and name in ("undecodable", "corrupt_compression", "flag_without_encoding", "truncated", "unknown_compression")
    for call in calls:
        if not streaming:
            rec.fail(f"{sv}:{name}:handler-ran", {"case": what, "call": (call.method, len(call.reqs), call.finished)})
            return False
        if M.canons(call.reqs) != M.canons(c["good"]) or call.recv_end or call.recv_error is None:
            rec.fail(f"{sv}:{name}:malformed-message-reached-handler", {"case": what, "seen": len(call.reqs), "good": len(c["good"]), "end": call.recv_end})
            return False
    rec.seen("rejections", (name, got))
    return True


def definite(rec, rng, idx):
    name, p, k, sv = GRID[idx % len(GRID)]
    cfg = E.Cfg(proto=p, server=sv, server_comps=["gzip", "br", "zstd"])
    cfg.plan = Plan(rng)
    d = make_defect(rng, name, p, k, sv)
    if d is None:
        rec.ev("inapplicable")
        return
    c, info, expect, kw, allow = d
    log = E.Log()
    app = E.build_app(cfg, E.as_pick(script_for(c["kind"], rng)), log)
    if c["w"].body and sv == "asgi" and rng.random() < 0.4:
        kw["chunks"] = MU.partition(rng, c["w"].body, rng.choice(MU.HOWS))
    ex = run(cfg, app, c["w"], http=rng.choice(["2", "1.1"]), **kw)
    what = {"defect": name, "proto": p, "kind": k, "codec": c["codec"], "server": sv, **info, "path": kw.get("path_raw") or c["w"].path[:200], "method": c["w"].method,
            "headers": c["w"].headers}
    if judge(rec, name, c, info, expect, kw, allow, cfg, ex, log.calls, what):
        rec.nontrivial((name, p, k, sv, c["w"].path, tuple(c["w"].headers), c["w"].body, repr(kw.get("path_raw"))))
    rec.sample(what)


# --------------------------------------------------------------------------- fuzz
HNAMES = ["content-type", "content-encoding", "connect-content-encoding", "grpc-encoding", "connect-timeout-ms", "grpc-timeout", "accept-encoding",
          "connect-accept-encoding", "grpc-accept-encoding", "connect-protocol-version", "te", "host", "x-a", "trailer-x", "accept", "cookie", "expect"]


def weird(rng) -> str:
    return rng.choice(["", " ", "0", "-1", "1_000", "+5", " 7", "gzip", "GZIP", "identity", ",", ";;", "a,,b", "gzip;q=0", "*", "application/proto", "application/json;charset=x",
                       "application/grpc", "application/grpc+json", "application/connect+json", "application/grpc-web", "x" * 5000, "\u00ff\u00fe", "caf\u00e9", "1H", "99999999H",
                       "0n", "00000001m", "%00%ff", "a=b; c", "[::1]:80", ":", "日本".encode().decode("latin-1")])


def fuzz_request(rng):
    p = rng.choice(list(E.PROTOS))
    k = rng.choice(KINDS + ["watch", "nothing"])
    kind = k
    get = k == "get" and p == "connect" and rng.random() < 0.5
    codec = rng.choice(["proto", "json"])
    comp = rng.choice([None, None, "gzip", "br", "zstd"])
    n = 1 if kind not in E.STREAM_IN else rng.choice([0, 1, 3])
    w = R.request(p, kind, codec, [M.msg(rng) for _ in range(n)] or [M.Msg()] if get or not R.enveloped(p, kind) else [M.msg(rng) for _ in range(n)],
                  comp=comp, get=get, timeout_ms=rng.choice([None, 5000]), accept=rng.choice([None, "gzip", "br,gzip"]))
    kw: dict = {}
    steps = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        op = rng.choice(["header", "header", "drop", "dup", "method", "path", "query", "body", "body", "body", "swap", "rawheader"])
        steps.append(op)
        if op == "header":
            w = w.with_((rng.choice(HNAMES), weird(rng)))
        elif op == "drop" and w.headers:
            w.headers.pop(rng.randrange(len(w.headers)))
        elif op == "dup" and w.headers:
            h = rng.choice(w.headers)
            w.headers.insert(rng.randint(0, len(w.headers)), (h[0], rng.choice([h[1], weird(rng)])))
        elif op == "method":
            w.method = rng.choice(["GET", "POST", "PUT", "HEAD", "OPTIONS", "DELETE", "get", "X" * 20])
        elif op == "path":
            b = w.path.split("?")[0]
            kw["path_raw"] = rng.choice([b + "/", b[:rng.randrange(len(b) + 1)], "/" + "a/" * 50, b.upper(), "*", "//", b + "\u0000", "日本", b.replace("Unary", "Bidi")])
        elif op == "query":
            b = w.path.split("?")[0]
            q = w.path.partition("?")[2]
            w.path = b + "?" + rng.choice([q + "&" + q, "message=&message=x", q.replace("=", "%3D"), q[::-1], "base64=1&message=" + "A" * rng.randint(0, 9), q + "&base64=0", "=" * 30,
                                           q.replace("base64=1", "base64=2"), f"encoding={codec}&message=%ff%fe", f"encoding={codec}&base64=1&compression=gzip&message=AAAA"])
        elif op == "body":
            _, w.body = MU.mutate(rng, w.body)
        elif op == "swap":
            w.body = R.request(rng.choice(list(E.PROTOS)), rng.choice(KINDS), rng.choice(["proto", "json"]), [M.msg(rng)]).body
        elif op == "rawheader":
            w.headers.append((rng.choice(["x-raw", "content-type", "accept-encoding", "x-bin"]), "".join(chr(rng.randint(0x80, 0xFF)) for _ in range(5))))
    # WSGI: repeated content-type etc. never reach the application twice, keep them single
    return p, kind, codec, w, kw, steps


def fuzz(rec, rng, idx):
    p, kind, codec, w, kw, steps = fuzz_request(rng)
    cfg = E.Cfg(proto=p, codec=codec, server=rng.choice(["asgi", "wsgi"]), server_comps=rng.choice([None, ["gzip", "br", "zstd"], []]))
    if rng.random() < 0.2:
        cfg.server_max = rng.choice([0, 5, 100])
    cfg.plan = Plan(rng)
    log = E.Log()

    def pick(name, request, ctx):
        return script_for(name, rng) if name != "nothing" else [("ret", type(request)())]

    app = E.build_app(cfg, pick, log)
    if cfg.server == "asgi":
        if any(ord(ch) > 127 for _, v in w.headers for ch in v) and rng.random() < 0.5:
            raw = [(k.lower().encode(), v.encode("latin-1")) for k, v in w.headers]
            plan_extra = raw + [(b"host", b"svc.test")]
            kw["scope_headers"] = plan_extra
    sh = kw.pop("scope_headers", None)
    plan = Plan(rng, delay=rng.choice([0, 0.001]))
    if sh is not None:
        plan.scope_extra["headers"] = sh
    if "path_raw" in kw:
        pr = kw.pop("path_raw")
        plan.scope_extra["path"] = pr
        plan.environ_extra["PATH_INFO"] = pr.encode("utf-8").decode("latin-1")
    if rng.random() < 0.1:
        plan.client = None
    chunks = MU.partition(rng, w.body, rng.choice(MU.HOWS)) if rng.random() < 0.5 else None
    end = "disconnect" if rng.random() < 0.1 else "final"
    ex = E.serve_raw(cfg, app, w, plan=plan, chunks=chunks, end=end)
    what = {"server": cfg.server, "proto": p, "kind": kind, "codec": codec, "mutations": steps, "path": plan.scope_extra.get("path", w.path)[:300], "method": w.method,
            "headers": [(k, v[:80]) for k, v in w.headers], "body": w.body[:150].hex(), "end": end, "max": cfg.server_max, "comps": cfg.server_comps}
    got, bad = outcome(ex)
    rec.ev("responses_judged")
    if end == "disconnect":
        bad = [b for b in bad if b not in ("response not complete", "no response")]
    if bad:
        rec.fail(f"{cfg.server}:fuzz:malformed-response", {"case": what, "problems": bad[:4], "outcome": got})
        return
    if not rec.check(len(log.calls) <= 1, f"{cfg.server}:fuzz:handler-ran-twice", what):
        return
    if not log.calls and not rec.check(got != ("ok",), f"{cfg.server}:fuzz:success-without-handler", what):
        return
    if got[0] == "error" and not log.calls and end == "final":
        # rejected before any handler: the client's fault
        if not rec.check(got[1] in CLIENT_CODES or (got[1] == "internal" and R.enveloped(p, kind)), f"{cfg.server}:fuzz:blames-server-{got[1]}", {"case": what, "response": repr(ex.resp())[:300]}):
            return
    if got[0] == "http" and not rec.check(400 <= got[1] < 500, f"{cfg.server}:fuzz:status-{got[1]}", what):
        return
    for c in log.calls:
        if c.method in ("client_stream", "bidi"):
            if not rec.check(c.recv_end or got != ("ok",), f"{cfg.server}:fuzz:ok-though-request-failed", what):
                return
    rec.seen("outcomes", (got, tuple(sorted(set(steps)))))
    if got != ("ok",):
        rec.nontrivial((cfg.server, w.method, w.path, tuple(w.headers), w.body))


# --------------------------------------------------------------------------- the application keeps working
def session(rec, rng, idx):
    sv = ["asgi", "wsgi"][idx % 2]
    cfg = E.Cfg(server=sv, server_comps=["gzip", "br", "zstd"])
    cfg.plan = Plan(rng)
    log = E.Log()
    app = E.build_app(cfg, lambda name, request, ctx: script_for(name, rng), log)
    trail = []
    for i in range(rng.randint(4, 10)):
        n0 = len(log.calls)
        p = rng.choice(list(E.PROTOS))
        k = rng.choice([*KINDS, "GET"] if p == "connect" else KINDS)
        if rng.random() < 0.55:
            name = rng.choice(list(DEFECTS))
            d = make_defect(rng, name, p, k, sv)
            if d is None:
                continue
            c, info, expect, kw, allow = d
            ex = run(cfg, app, c["w"], **kw)
            trail.append(name)
            what = {"session": trail, "proto": p, "kind": k, "codec": c["codec"], **info}
            if not judge(rec, name, c, info, expect, kw, allow, cfg, ex, log.calls[n0:], what):
                return
            continue
        get = k == "GET"
        kind = "get" if get else k
        codec = rng.choice(["proto", "json"])
        ms = [M.msg(rng) for _ in range(rng.choice([0, 1, 3]) if kind in E.STREAM_IN else 1)]
        w = R.request(p, kind, codec, ms, get=get, comp=rng.choice([None, "gzip", "br", "zstd"]))
        ex = run(cfg, app, w)
        trail.append("good")
        s = R.read_response(p, kind, codec, E.wire_resp(ex))
        what = {"session": trail, "proto": p, "kind": k, "codec": codec}
        rec.ev("good_requests")
        if not rec.check(s.ok and not s.problems and len(s.msgs) == 1, f"{sv}:session:good-request-failed", {"case": what, "seen": repr(s)[:400]}):
            return
        calls = log.calls[n0:]
        if not rec.check(len(calls) == 1 and M.canons(calls[0].reqs) == M.canons(ms), f"{sv}:session:good-request-messages", what):
            return
    rec.nontrivial((sv, tuple(trail), idx))


WORKLOADS = {
    "definite": Workload(definite, len(GRID) * 40, len(GRID) * 800),
    "fuzz": Workload(fuzz, 40000, 1000000),
    "session": Workload(session, 3000, 60000),
}
