"""P09: clients survive any server and never invent success."""
from __future__ import annotations

import gzip
import json

from pyqwest import ReadError, StreamError, StreamErrorCode, WriteError

from .. import bridge
from .. import engine as E
from .. import msgs as M
from .. import mutate as MU
from .. import ref as R
from ..core import Workload

ID = "P09"
RULE = ("A case is one call of a real client against an adversarial server: a valid response mutated in status, headers, body, "
        "trailers or timing, or one written from nothing. The call must end with a Connect error or with success; success must be "
        "licensed by an independent reading of what was sent, and every delivered message must be one that was sent. Well-formed "
        "errors and plain HTTP failures must give the exact code. Non-trivial: the response was not a valid success; distinct by "
        "configuration and bytes sent.")
ASSUME = ["the HTTP library hands over what the server sent and undoes content-encoding, as pyqwest does",
          "messages that google.protobuf refuses although they are structurally well-formed are not judged (implementations differ)"]

KINDS = ["unary", "get", "GET", "client_stream", "server_stream", "bidi"]
MATRIX = [(p, k, c, cl) for p in E.PROTOS for k in KINDS for c in ("proto", "json") for cl in ("async", "sync") if not (k == "GET" and p != "connect")]


def structural(codec: str, data: bytes) -> bool | None:
    """True: certainly decodable; False: certainly not; None: not judged."""
    try:
        R.decode(codec, "Out", data)
        return True
    except Exception:
        pass
    if codec == "json":
        try:
            d = json.loads(bytes(data).decode("utf-8"))
        except Exception:
            return False
        return None if isinstance(d, dict) else False
    p = 0

    def var():
        nonlocal p
        n = s = 0
        while True:
            b = data[p]
            p += 1
            n |= (b & 0x7F) << s
            s += 7
            if not b & 0x80:
                return n
            if s > 63:
                raise OverflowError

    try:
        while p < len(data):
            wt = var() & 7
            if wt == 0:
                var()
            elif wt == 1:
                p += 8
            elif wt == 2:
                n = var()
                p += n
            elif wt == 5:
                p += 4
            else:
                return None
            if p > len(data):
                return False
    except IndexError:
        return False
    except OverflowError:
        return None
    return None


ACCEPTED = {None, "", "identity", "gzip", "br", "zstd"}


def undo(comp, data):
    if not data:
        return data  # nothing at all: not judged
    try:
        return R.decompress(comp, data)
    except ValueError:
        if comp == "gzip":
            try:
                return gzip.decompress(data)  # ignores reserved header bits
            except Exception:  # noqa: S110
                pass
        raise


def licence(proto, kind, codec, w: R.WireResp, broken: bool) -> tuple[str | None, list]:
    """(why success would be invented, or None; the message payloads sent, decompressed, in order)."""
    hs = {}
    for k, v in w.headers:
        hs.setdefault(k.lower(), v)
    ct = hs.get("content-type", "").partition(";")[0].strip().lower()
    env = R.enveloped(proto, kind)
    if w.status != 200:
        return f"HTTP status {w.status}", []
    if not env:
        if ct != f"application/{codec}":
            return f"content-type {ct!r}", []
        if broken:
            return "transport failed", []
        # the HTTP library undoes content-encoding; what it hands over counts
        dec = bridge._decomp(hs.get("content-encoding"))
        try:
            data = dec.feed(w.body, end=False)
            data += dec.feed(b"", end=True)
        except Exception as e:
            return str(e), []
        if hs.get("content-encoding") not in ACCEPTED:
            return "encoding was not offered", []
        return ("body does not decode" if structural(codec, data) is False else None), [data]
    body = w.body
    if hs.get("content-encoding"):
        dec = bridge._decomp(hs["content-encoding"])
        try:
            body = dec.feed(body, end=False)
            body += dec.feed(b"", end=True)
        except Exception:
            broken = True
    base = {"connect": "application/connect", "grpc": "application/grpc", "grpcweb": "application/grpc-web"}[proto]
    if ct != f"{base}+{codec}" and not (proto != "connect" and codec == "proto" and ct == base):
        return f"content-type {ct!r}", []
    comp = hs.get("connect-content-encoding" if proto == "connect" else "grpc-encoding")
    if comp not in ACCEPTED:
        return f"encoding {comp!r} was not offered", []
    fs, rest = R.envs(body)
    payloads: list = []
    end = None
    end_flag = {"connect": 2, "grpc": 0, "grpcweb": 0x80}[proto]
    why = None
    for flags, data in fs:
        if flags & 1:
            if comp in (None, "", "identity"):
                why = "compressed message without encoding"
                break
            try:
                data = undo(comp, data)
            except ValueError as e:
                why = str(e)
                break
        if end_flag and flags & end_flag:
            end = data
            break
        if structural(codec, data) is False:
            why = "message does not decode"
            break
        payloads.append(data)
    if why is None:
        if proto == "connect":
            if end is None:
                why = "no end-of-stream message"
            else:
                try:
                    d = json.loads(bytes(end))
                    if not isinstance(d, dict):
                        why = "end-of-stream message is not an object"
                    elif d.get("error") is not None:
                        why = "end-of-stream message carries an error"
                except Exception:
                    why = "end-of-stream message is not JSON"
        else:
            if proto == "grpc":
                items = list(w.trailers or ())
                if broken:
                    why = "transport failed"
                if rest:
                    why = "incomplete message"
                use_headers = not fs
            else:
                items = []
                use_headers = end is None and not fs
                if end is not None:
                    for line in bytes(end).split(b"\r\n"):
                        k, sep, v = line.partition(b":")
                        if sep:
                            items.append((k.decode("latin-1").strip().lower(), v.decode("latin-1").strip()))
                elif rest:
                    why = "incomplete message"
                if broken and end is None:
                    why = "transport failed"
            st = [v for k, v in items if k.lower() == "grpc-status"]
            if not st and use_headers:
                st = [v for k, v in w.headers if k.lower() == "grpc-status"]
            if why is None and (not st or "0" not in st):
                why = f"grpc-status {st}"
    if why is None and kind not in E.STREAM_OUT and len(payloads) != 1:
        why = f"{len(payloads)} messages instead of one"
    return why, payloads


def judge(rec, cfg, kind, w: R.WireResp, steps, t, what, *, exact=None, timeout=False) -> bool:
    broken = any(isinstance(s, BaseException) for s in steps)
    cl = cfg.client
    if E.hung(t):
        rec.fail(f"{cl}:never-ends", {"case": what, **E.describe(t)})
        return False
    r = t.r
    rec.ev("outcomes_judged")
    if r.exc is not None:
        rec.fail(f"{cl}:other-exception:{type(r.exc).__name__}", {"case": what, "exc": repr(r.exc)[:300]})
        return False
    why, payloads = licence(cfg.proto, kind, cfg.codec, w, broken)
    if r.ok and why is not None:
        rec.fail(f"{cl}:invented-success", {"case": what, "why": why})
        return False
    if len(r.msgs) > len(payloads):
        rec.fail(f"{cl}:invented-messages", {"case": what, "delivered": len(r.msgs), "sent": len(payloads)})
        return False
    if r.ok and len(r.msgs) != len(payloads):
        rec.fail(f"{cl}:lost-messages", {"case": what, "delivered": len(r.msgs), "sent": len(payloads)})
        return False
    for m, d in zip(r.msgs, payloads):
        try:
            g = R.canon_g(R.decode(cfg.codec, "Out", d))
        except Exception:
            rec.ev("messages_not_judged")
            continue
        rec.ev("messages_compared")
        if M.canon(m) != g and M.canon(m) != M.canon(E.CODECS[cfg.codec]().decode(bytes(d), M.Out)):
            rec.fail(f"{cl}:changed-message", {"case": what, "sent": bytes(d)[:80].hex()})
            return False
    if r.err is not None:
        e = r.err
        try:
            ok = isinstance(e.message, str) and e.code.value in R.CODES and all(isinstance(d.type_name, str) and isinstance(bytes(d.message_bytes), bytes) for d in e.details) and isinstance(str(e), str)
        except Exception as x:  # noqa: BLE001
            rec.fail(f"{cl}:unusable-error", {"case": what, "why": repr(x)})
            return False
        if not ok:
            rec.fail(f"{cl}:unusable-error", {"case": what, "error": repr(e)})
            return False
        rec.seen("error_codes", (cfg.proto, kind, e.code.value))
    if exact is not None:
        code, msg, details = exact
        if r.err is None:
            rec.fail(f"{cl}:error-lost", {"case": what, "expected": code})
            return False
        if r.err.code.value not in ((code,) if isinstance(code, str) else code) or (msg is not None and r.err.message != msg) or \
                (details is not None and [(d.type_name, d.message_bytes) for d in r.err.details] != list(details)):
            rec.fail(f"{cl}:wrong-error", {"case": what, "expected": repr(exact)[:200], "got": repr(r.outcome())[:300]})
            return False
        rec.ev("exact_errors_compared")
    if why is not None:
        rec.nontrivial((cfg.proto, kind, cfg.codec, cl, w.status, w.body, repr(w.headers), repr(w.trailers), repr(steps)[-60:]))
    rec.seen("reasons", (cfg.proto, kind, (why or "ok")[:24]))
    return True


def call(cfg, kind, f, **kw):
    k = "get" if kind == "GET" else kind
    spec = E.Spec(k, [M.Msg(id="q")], use_get=kind == "GET", **kw)
    if k in E.STREAM_IN:
        spec.msgs = [M.Msg(id="q"), M.Msg(id="q2")]
    return E.run_fake(cfg, f, spec)


def pick_case(rng, idx):
    p, kind, codec, cl = MATRIX[idx % len(MATRIX)]
    return p, ("get" if kind == "GET" else kind), kind, E.Cfg(proto=p, codec=codec, client=cl, accept=["gzip", "br", "zstd"])


def error_of(rng):
    code = rng.choice(R.CODES)
    msg = rng.choice(["", "plain", "pct %41 % é", "new\nline", M.word(rng)])
    det = [("verif.v1.Leaf", M.leaf(rng).to_binary()) for _ in range(rng.choice([0, 0, 1, 2]))]
    return code, msg, det


def valid(rng, p, k, codec, *, error=None, small=True):
    n = (rng.choice([0, 1, 2, 4]) if error is None or rng.random() < 0.6 else 0) if k in E.STREAM_OUT else 1
    if error is not None and k not in E.STREAM_OUT:
        n = rng.choice([0, 0, 1]) if R.enveloped(p, k) else 0
    comp = rng.choice([None, None, "gzip", "br", "zstd"])
    ms = [M.out(rng, size=rng.choice([0, 3, 30])) for _ in range(n)]
    return R.response(p, k, codec, ms, comp=comp, headers=[("x-h", "v")] if rng.random() < 0.3 else [],
                      trailers=[("x-t", "v"), ("x-t", "w")] if rng.random() < 0.3 else [], error=error,
                      trailers_only=rng.random() < 0.3, compress_end=rng.random() < 0.3)


def chop(rng, b):
    how = rng.choice(["one", "one", "bytes", "random"])
    if how == "one" or len(b) < 2:
        return [b] if b else []
    if how == "bytes" and len(b) < 400:
        return [b[i:i + 1] for i in range(len(b))]
    c = sorted(rng.randrange(len(b)) for _ in range(3))
    return [x for x in (b[:c[0]], b[c[0]:c[1]], b[c[1]:c[2]], b[c[2]:])]


CTS = ["", "application/json", "application/proto", "application/connect+proto", "application/connect+json", "application/grpc", "application/grpc+proto",
       "application/grpc+json", "application/grpc-web", "application/grpc-web+proto", "application/grpc-web-text+proto", "text/html", "application/", "APPLICATION/JSON",
       "application/json; charset=utf-8", ";", "application/connect+", "application/jsonx", "multipart/form-data",
       *(f"application/{pre}{c}" for pre in ("", "connect+", "grpc+", "grpc-web+") for c in ("xproto", "xjson", "x-proto", "protox", "json.json", "prot", "son"))]
STATUSES = [100 + i for i in range(0, 500, 7)] + [200, 201, 202, 203, 204, 205, 206, 301, 302, 304, 307, 400, 401, 403, 404, 408, 409, 411, 413, 415, 418, 429, 431, 499, 500, 501, 502, 503, 504, 511, 599]
STATUSES = sorted({s for s in STATUSES if s >= 200})


def mut_headers(rng, hs, proto):
    hs = list(hs)
    k = rng.random()
    if k < 0.3:
        ct = rng.choice(CTS)
        hs = [h for h in hs if h[0] != "content-type"] + ([("content-type", ct)] if ct or rng.random() < 0.5 else [])
    elif k < 0.5:
        name = rng.choice(["content-encoding", "connect-content-encoding", "grpc-encoding"])
        hs = [h for h in hs if h[0] != name] + [(name, rng.choice(["gzip", "br", "zstd", "identity", "foo", "", "GZIP", "gzip, br", "deflate"]))]
    elif k < 0.7:
        hs.append(rng.choice([("grpc-status", rng.choice(["0", "1", "7", "99", "-1", "", "abc", "0 ", "00"])), ("grpc-message", rng.choice(["x", "%", "%zz", "%ff", "%E2%82"])),
                              ("grpc-status-details-bin", rng.choice(["", "!!!", "CAU", "AAAA", "////"])), ("content-length", "7"), ("trailer", "grpc-status")]))
    elif k < 0.85:
        hs.append(rng.choice([("trailer-x-a", "1"), ("trailer-", "1"), ("x-bin-bin", "%%%"), ("x-dup", "1"), ("set-cookie", "a=b; c")]))
    elif hs:
        hs.pop(rng.randrange(len(hs)))
    return hs


STAT = ["0", "1", "2", "5", "13", "16", "17", "99", "-1", "", "abc", "00", " 0", "0x0", "1.0", "9" * 40, "OK", "\u0660"]


def mut_trailers(rng, tr):
    tr = list(tr or ())
    k = rng.random()
    if k < 0.4:
        tr = [h for h in tr if h[0] != "grpc-status"] + [("grpc-status", rng.choice(STAT[:-1]))]
    elif k < 0.6:
        tr = [h for h in tr if h[0] != "grpc-message"] + [("grpc-message", rng.choice(["", "%", "%zz", "%ff%fe", "a%", "%E2%82", "ok", "%00", "a b"]))]
    elif k < 0.8:
        tr = [h for h in tr if h[0] != "grpc-status-details-bin"] + [("grpc-status-details-bin", rng.choice(["", "=", "!!!!", "CAUSAWE", "CAUSAWE=", "////", R.b64(R.status_bin(0, "zero", [])), R.b64(R.status_bin(77, "odd", [("x.Y", b"")])), R.b64(rng.randbytes(9))]))]
    elif k < 0.9 and tr:
        tr.pop(rng.randrange(len(tr)))
    else:
        tr.append(rng.choice([("x-t", "1"), ("grpc-status", "3"), ("trailer-x", "1")]))
    return tr


EXCS = [lambda: ReadError("closed"), lambda: WriteError("w"), lambda: ConnectionResetError("rst"), lambda: OSError(5, "io"), lambda: TimeoutError("t"),
        lambda: RuntimeError("bug"), lambda: ValueError("v"), lambda: KeyError("k"), lambda: UnicodeDecodeError("utf-8", b"x", 0, 1, "bad"), lambda: EOFError(),
        lambda: MemoryError(), lambda: AssertionError("a")]
CODES = [c for c in dir(StreamErrorCode) if c.isupper()]


def mutated(rec, rng, idx):
    """A valid response with one to three things changed."""
    p, k, kind, cfg = pick_case(rng, idx)
    err = error_of(rng) if rng.random() < 0.4 else None
    w = valid(rng, p, k, cfg.codec, error=err)
    muts = []
    steps = None
    for _ in range(rng.choice([1, 1, 2, 3])):
        m = rng.choice(["body", "body", "body", "headers", "trailers", "status", "fault", "json"])
        if m == "body":
            nm, b = MU.mutate(rng, w.body)
            w = R.WireResp(w.status, w.headers, b, w.trailers)
            muts.append(nm)
        elif m == "headers":
            w = R.WireResp(w.status, mut_headers(rng, w.headers, p), w.body, w.trailers)
            muts.append("headers")
        elif m == "trailers" and p == "grpc":
            w = R.WireResp(w.status, w.headers, w.body, mut_trailers(rng, w.trailers))
            muts.append("trailers")
        elif m == "status":
            w = R.WireResp(rng.choice(STATUSES), w.headers, w.body, w.trailers)
            muts.append("status")
        elif m == "fault":
            steps = rng.choice(EXCS)() if rng.random() < 0.6 else StreamError("reset", getattr(StreamErrorCode, rng.choice(CODES)))
            muts.append("fault:" + type(steps).__name__)
    st: list = chop(rng, w.body)
    if steps is not None:
        st.append(steps)
    f = R.Fake(w.status, w.headers, st, w.trailers)
    t = call(cfg, kind, f)
    what = {**cfg.brief(), "kind": kind, "mutations": muts, "status": w.status, "headers": w.headers, "trailers": w.trailers, "body": w.body[:200].hex()}
    judge(rec, cfg, k, w, st, t, what)
    rec.sample(what)


def headed(rec, rng, idx):
    """Bodies as they should be, below one header that is not: a type that almost is the one asked for, an encoding, a status."""
    p, k, kind, cfg = pick_case(rng, idx)
    w = valid(rng, p, k, cfg.codec, error=error_of(rng) if rng.random() < 0.2 else None)
    exp = R.content_type(p, k, cfg.codec)
    which = rng.choice(["type", "type", "type", "header"])
    if which == "type":
        near = [exp + rng.choice("xo2s-"), exp[:-1], exp + "+" + cfg.codec, exp.replace("/", "/x-", 1), exp.replace("+", "-"), exp + ".v1", "x" + exp, exp[12:],
                exp.replace(cfg.codec, "json" if cfg.codec == "proto" else "proto"), exp.replace(cfg.codec, ""), exp.replace("+" + cfg.codec, "")]
        ct = rng.choice(near) if rng.random() < 0.7 else rng.choice(CTS)
        hs = [h for h in w.headers if h[0] != "content-type"] + [("content-type", ct)]
    else:
        hs = mut_headers(rng, w.headers, p)
    w = R.WireResp(w.status, hs, w.body, w.trailers)
    st = chop(rng, w.body)
    t = call(cfg, kind, R.Fake(w.status, w.headers, st, w.trailers))
    what = {**cfg.brief(), "kind": kind, "status": w.status, "headers": w.headers, "trailers": w.trailers, "body": w.body[:200].hex()}
    judge(rec, cfg, k, w, st, t, what)
    rec.seen("content_types", dict(hs).get("content-type"))


def garbage(rec, rng, idx):
    """A response written from nothing."""
    p, k, kind, cfg = pick_case(rng, idx)
    status = rng.choice([200, 200, 200, *rng.sample(STATUSES, 3)])
    exp = R.content_type(p, k, cfg.codec)
    hs = [("content-type", rng.choice([exp, exp, rng.choice(CTS)]))]
    for _ in range(rng.randint(0, 3)):
        hs = mut_headers(rng, hs, p)
    parts = []
    for _ in range(rng.randint(0, 4)):
        x = rng.random()
        if x < 0.3:
            parts.append(rng.randbytes(rng.randint(0, 40)))
        elif x < 0.6:
            parts.append(R.env(rng.choice([b"", rng.randbytes(9), b"{}", b"null", b"[]", M.out(rng).to_binary()]), rng.choice([0, 1, 2, 3, 0x80, 0x81, 0xFF])))
        elif x < 0.8:
            parts.append(rng.choice([b"{}", b"null", b'{"code":"not_found"}', b"<html>", b"\xff\xfe", b"[1]", b'"x"', b'{"code":5}']))
        else:
            parts.append(R.trailer_block(mut_trailers(rng, [])))
    body = b"".join(parts)
    w = R.WireResp(status, hs, body, mut_trailers(rng, None) if p == "grpc" and rng.random() < 0.6 else None)
    st = chop(rng, body)
    if rng.random() < 0.2:
        st.append(rng.choice(EXCS)())
    t = call(cfg, kind, R.Fake(status, hs, st, w.trailers))
    what = {**cfg.brief(), "kind": kind, "status": status, "headers": hs, "trailers": w.trailers, "body": body[:200].hex()}
    judge(rec, cfg, k, w, st, t, what)


def jval(rng, depth=2):
    x = rng.random()
    if x < 0.5 or depth == 0:
        return rng.choice([None, True, False, 0, 1, -1, 1e300, "", "x", "é", "0", [], {}, float("inf")])
    if x < 0.75:
        return [jval(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(["code", "message", "details", "type", "value", "metadata", "error", "k"]): jval(rng, depth - 1) for _ in range(rng.randint(0, 3))}


ODD = "no code at all"


def jerror(rng):
    """(error object, exact expectation of the code or None)."""
    d: dict = {}
    code = rng.choice(R.CODES)
    exact = code
    x = rng.random()
    if x < 0.5:
        d["code"] = code
    elif x < 0.6:
        exact = None      # from the status or unknown
    elif x < 0.8:
        d["code"] = rng.choice(["NOT_FOUND", "Canceled", "bogus", "ok", "OK", "not found", "not-found", " aborted", "5", ""])
        exact = ODD if d["code"] else False  # never one of the other codes
    else:
        d["code"] = jval(rng)
        exact = False
    x = rng.random()
    msg = ""
    if x < 0.5:
        msg = d["message"] = M.word(rng)
    elif x < 0.7:
        d["message"] = jval(rng)
        msg = d["message"] if isinstance(d["message"], str) else None
    plain: list | bool = []
    x = rng.random()
    if x < 0.2:
        plain = [("verif.v1.Leaf", M.leaf(rng).to_binary())]
        d["details"] = [{"type": t, "value": R.b64(v, pad=rng.random() < 0.5)} for t, v in plain]
    elif x < 0.35:  # broken ones among good ones, which are not lost with them
        good = [M.leaf(rng).to_binary() for _ in range(rng.randint(1, 3))]
        ds: list = [{"type": "verif.v1.Leaf", "value": R.b64(g, pad=rng.random() < 0.5)} for g in good]
        for _ in range(rng.randint(1, 2)):
            ds.insert(rng.randint(0, len(ds)), rng.choice([{}, {"type": "a.B"}, {"value": "AA"}, {"type": None, "value": "AA"}, {"type": "a.B", "value": None}, {"debug": {"x": 1}}]))
        d["details"] = ds
        plain = [("verif.v1.Leaf", g) for g in good]
    elif x < 0.5:
        d["details"] = jval(rng)
        plain = False
    elif x < 0.8:
        d["details"] = [rng.choice([{}, {"type": "a.B"}, {"value": "AA"}, {"type": jval(rng), "value": jval(rng)}, {"type": "", "value": ""}, {"type": "a.B", "value": "!!"}, None, "x"])]
        plain = False
    if rng.random() < 0.2:
        d["extra"] = jval(rng)
    return d, exact, msg, plain


def payloads(rec, rng, idx):
    """Error payloads of every shape; exact codes where the payload or the status determines one."""
    p, k, kind, cfg = pick_case(rng, idx)
    env = R.enveloped(p, k)
    exact = None
    if p == "connect":
        d, code, msg, plain = jerror(rng)
        if not env:
            status = rng.choice([s for s in STATUSES if s >= 300])
            body = rng.choice([json.dumps(d).encode()] * 6 + [b"", b"null", b"[]", b'"x"', b"{", b"<html>", json.dumps(jval(rng)).encode(), json.dumps(d).encode("utf-16")])
            w = R.WireResp(status, [("content-type", rng.choice(["application/json"] * 4 + ["application/json; charset=utf-8", "text/plain"]))], body)
            is_json = w.headers[0][1].startswith("application/json")
            if not is_json or body in (b"", b"null", b"[]", b'"x"', b"{", b"<html>"):
                exact = (R.FROM_HTTP.get(status, "unknown"), None, None)
            elif body == json.dumps(d).encode() and plain is not False:
                if code is None:
                    exact = (R.FROM_HTTP.get(status, "unknown"), msg, plain)
                elif code is ODD:
                    exact = ((R.FROM_HTTP.get(status, "unknown"), "unknown", "unavailable"), msg, plain)
                elif code is not False:
                    exact = (code, msg, plain)
        else:
            eos: dict = {"error": d} if rng.random() < 0.7 else {"error": jval(rng)}
            mine = eos["error"] is d
            if rng.random() < 0.4:
                eos["metadata"] = rng.choice([jval(rng), {"x-a": ["1", "2"], "x-b": []}, {"x-a": "str"}, {"x-a": [1]}, {"x-a": None}])
                if not isinstance(eos["metadata"], dict) or any(not isinstance(v, list) or any(not isinstance(q, str) for q in v) for v in eos["metadata"].values()):
                    mine = False
            w = R.WireResp(200, [("content-type", R.content_type(p, k, cfg.codec))], R.env(json.dumps(eos).encode(), 2))
            if mine and plain is not False and code not in (None, False):
                exact = (("unknown", "unavailable", "internal") if code is ODD else code, msg, plain)
    else:
        code, msg, det = error_of(rng)
        items = R.grpc_trailers((code, msg, det))
        whole = True
        if rng.random() < 0.5:
            items = mut_trailers(rng, items)
            whole = False
        k2 = rng.choice(["trailers", "headers"])
        n = rng.choice([0, 0, 1]) if k2 == "trailers" else 0
        body = R.frames(cfg.codec, [M.out(rng, size=2) for _ in range(n)], None)
        hs = [("content-type", R.content_type(p, k, cfg.codec))]
        if k2 == "headers":
            w = R.WireResp(200, hs + items, b"", None)
        elif p == "grpc":
            w = R.WireResp(200, hs, body, items)
        else:
            blk = R.trailer_block(items)
            if rng.random() < 0.3:
                blk = rng.choice([blk.replace(b": ", b":"), blk.upper() if not whole else blk, blk.rstrip(b"\r\n"), blk + b"\r\n\r\n", blk + b"noline\r\n", blk.replace(b"\r\n", b"\n")])
                whole = whole and False
            w = R.WireResp(200, hs, body + R.env(blk, 0x80), None)
        if whole:
            exact = (code, msg, [(t, v) for t, v in det])
    st = chop(rng, w.body)
    t = call(cfg, kind, R.Fake(w.status, w.headers, st, w.trailers))
    what = {**cfg.brief(), "kind": kind, "status": w.status, "headers": w.headers, "trailers": w.trailers, "body": w.body[:300].decode("latin-1")}
    judge(rec, cfg, k, w, st, t, what, exact=exact)


HTTP_MATRIX = [(s, m) for s in range(201, 600) for m in MATRIX]


def http_failures(rec, rng, idx):
    """Every status: the documented code when there is no protocol-level error."""
    status, (p, kind, codec, cl) = HTTP_MATRIX[(idx * 7919) % len(HTTP_MATRIX)]
    k = "get" if kind == "GET" else kind
    cfg = E.Cfg(proto=p, codec=codec, client=cl)
    ct = rng.choice(["text/html", "", "text/plain; charset=utf-8", "application/octet-stream", R.content_type(p, k, codec) if not (p == "connect" and codec == "json") else "application/xml"])
    body = rng.choice([b"", b"<html>502</html>", b"nope", b"\xff\x00", b"{", b"null", b"123"])
    hs = [("content-type", ct)] if ct else []
    w = R.WireResp(status, hs, body, None)
    st = chop(rng, body)
    t = call(cfg, kind, R.Fake(status, hs, st))
    what = {**cfg.brief(), "kind": kind, "status": status, "headers": hs, "body": body.decode("latin-1")}
    judge(rec, cfg, k, w, st, t, what, exact=(R.FROM_HTTP.get(status, "unknown"), None, ()))
    rec.seen("statuses", (p, status))


RST = {"NO_ERROR": "internal", "PROTOCOL_ERROR": "internal", "INTERNAL_ERROR": "internal", "FLOW_CONTROL_ERROR": "internal", "SETTINGS_TIMEOUT": "internal",
       "FRAME_SIZE_ERROR": "internal", "COMPRESSION_ERROR": "internal", "CONNECT_ERROR": "internal", "REFUSED_STREAM": "unavailable", "CANCEL": "canceled",
       "ENHANCE_YOUR_CALM": "resource_exhausted", "INADEQUATE_SECURITY": "permission_denied"}


def faults(rec, rng, idx):
    """Failures before the response, resets with the documented codes."""
    p, k, kind, cfg = pick_case(rng, idx)
    w = valid(rng, p, k, cfg.codec)
    mode = rng.choice(["before", "reset", "reset", "late"])
    exact = None
    if mode == "before":
        e = rng.choice(EXCS)() if rng.random() < 0.7 else StreamError("reset", getattr(StreamErrorCode, rng.choice(CODES)))
        f = R.Fake.of(w, exc=e, read=rng.choice(["all", "none"]))
        w = R.WireResp(0, [], b"")
        st = [e]
        if isinstance(e, TimeoutError):
            exact = ("deadline_exceeded", None, ())
    elif mode == "reset":
        name = rng.choice(CODES)
        e = StreamError("reset", getattr(StreamErrorCode, name))
        cut = w.body[:rng.randrange(max(1, len(w.body) - 5))] if w.body else b""
        tr, msg = None, None
        if p == "grpc" and rng.random() < 0.3:  # the trailers came with the reset: its code, their text
            msg = rng.choice(["", "why", "out of time"])
            tr = [("grpc-status", str(rng.randint(1, 16))), ("grpc-message", msg)]
        w = R.WireResp(w.status, w.headers if p != "grpc" else [h for h in w.headers if not h[0].startswith("grpc-status")], cut, tr)
        st = [*chop(rng, cut), e]
        f = R.Fake(w.status, w.headers, st, tr)
        if p == "grpc" and name in RST and w.status == 200:
            exact = (RST[name], msg, ())
    else:
        f = R.Fake.of(w, before=rng.choice([0.5, 100.0]))
        st = [w.body]
    t = call(cfg, kind, f)
    what = {**cfg.brief(), "kind": kind, "mode": mode, "fault": repr(st[-1])[:80] if st else "", "body": w.body[:100].hex()}
    judge(rec, cfg, k, w, st, t, what, exact=exact)


WORKLOADS = {
    "mutated": Workload(mutated, len(MATRIX) * 400, len(MATRIX) * 12000),
    "headed": Workload(headed, len(MATRIX) * 90, len(MATRIX) * 2000),
    "garbage": Workload(garbage, len(MATRIX) * 150, len(MATRIX) * 4000),
    "payloads": Workload(payloads, len(MATRIX) * 200, len(MATRIX) * 6000),
    "http_failures": Workload(http_failures, 4000, len(HTTP_MATRIX)),
    "faults": Workload(faults, len(MATRIX) * 60, len(MATRIX) * 1500),
}
