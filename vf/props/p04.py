"""P04: errors reach the caller with code, message and details intact."""
from __future__ import annotations

import asyncio

from connectrpc.code import Code
from connectrpc.errors import ConnectError, ErrorDetail
from protobuf.wkt import Any, Duration, Empty, StringValue, Timestamp

from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import ref as R
from ..bridge import Plan
from ..core import Workload
from ..gen.verif_pb import Leaf, Msg, Out

ID = "P04"
RULE = ("A case makes handlers of the real application raise errors and compares, at the real client, code, message and "
        "details with what was raised, and the messages that preceded it. Non-trivial: every case that raised; distinct by "
        "configuration, RPC kind, code, message, details and position.")
ASSUME = ["lone surrogates in messages may be replaced, as gRPC has no way to write them"]

KINDS = ["unary", "get", "GET", "idem", "client_stream", "server_stream", "bidi", "watch"]
MESSAGES = ["", "boom", "50% off", "%41%zz%", "a%20b", "line\nbreak\r\n", "tab\t", "\x00nul", "\x7fdel", " leading and trailing ", "   ", "ünïcödé", "日本語",
            "😀🎉", "a" * 3000, "é" * 1500, "a+b&c=d?#/:;,@!$'()*", "\"quoted\" \\back\\slash", "grpc-status: 0", "\u2028\u2029", "\ufeffbom", "{}", "null",
            "x\u0085y", "\x01\x1f", "𝔘𝔫𝔦", "~`|^", "<html>", "trailing\\", "\r\n\r\n", "0", "𐍈" * 50]


def message(rng) -> str:
    if rng.random() < 0.6:
        return rng.choice(MESSAGES)
    n = rng.choice([1, 5, 40, 300])
    return "".join(chr(rng.choice([rng.randint(0, 127), rng.randint(32, 126), rng.randint(0x80, 0xD7FF), rng.randint(0xE000, 0xFFFD), rng.randint(0x10000, 0x10FFFF)])) for _ in range(n))


def detail(rng):
    """(what the handler passes, expected type name, expected bytes)"""
    k = rng.randint(0, 9)
    if k <= 2:
        m = M.msg(rng)
        return m, "verif.v1.Msg", m.to_binary()
    if k == 3:
        m = Leaf(text=M.word(rng), blob=M.blob(rng))
        return ErrorDetail(m), "verif.v1.Leaf", m.to_binary()
    if k == 4:
        return Empty(), "google.protobuf.Empty", b""
    if k == 5:
        m = rng.choice([Timestamp(seconds=5, nanos=3), Duration(seconds=-1), StringValue(value=M.word(rng))])
        return m, {"Timestamp": "google.protobuf.Timestamp", "Duration": "google.protobuf.Duration", "StringValue": "google.protobuf.StringValue"}[type(m).__name__], m.to_binary()
    if k == 6:  # a type this process does not know
        b = rng.randbytes(rng.randint(0, 40))
        return Any(type_url="type.googleapis.com/acme.unknown.v1.Thing", value=b), "acme.unknown.v1.Thing", b
    if k == 7:
        return Any(type_url="type.googleapis.com/x", value=b""), "x", b""
    if k == 8:  # known type, bytes that do not parse
        return Any(type_url="type.googleapis.com/verif.v1.Msg", value=b"\xff\xff\x01"), "verif.v1.Msg", b"\xff\xff\x01"
    m = M.out(rng, size=rng.choice([0, 500, 3000]))
    return m, "verif.v1.Out", m.to_binary()


def error(rng, code: Code):
    msg = message(rng)
    ds = [detail(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6] * 3 + [18, 40]))]
    objs = [d[0] for d in ds]
    how = rng.randint(0, 2)
    cls = E.Denied if rng.random() < 0.2 else ConnectError
    make = lambda: cls(code, msg, details=objs if how == 0 else tuple(objs) if how == 1 else iter(objs))  # noqa: E731
    if not objs and how == 0:
        make = lambda: cls(code, msg)  # noqa: E731
    return make, ("err", code.value, msg, tuple((d[1], d[2]) for d in ds))


def script_for(rng, k: str, make, n_before: int, outs):
    s: list = []
    if k in E.STREAM_IN:
        s += rng.choice([[("recvall",)], [("recv",)], []])
    if rng.random() < 0.3:
        s.append(("hdr", "x-h", "1"))
    if rng.random() < 0.3:
        s.append(("trl", "x-t", "2"))
    for o in outs[:n_before]:
        s.append(("send", o))
    s.append(("raise", make))
    return s


def one(rec, rng, cfg, kind: str, code: Code):
    k = "get" if kind == "GET" else kind
    make, want = error(rng, code)
    n = rng.choice([0, 1, 3]) if k in E.STREAM_OUT else 0
    outs = [M.out(rng) for _ in range(n)]
    ins = [M.msg(rng) for _ in range(rng.choice([0, 1, 3]) if k in E.STREAM_IN else 1)]
    spec = E.Spec(k, ins, use_get=kind == "GET")
    what = {**cfg.brief(), "kind": kind, "code": code.value, "message": want[2][:80], "details": [d[0] for d in want[3]], "after": n}
    t = E.run_one(cfg, script_for(rng, k, make, n, outs), spec)
    if O.hang(rec, t, kind, what):
        return
    rec.ev("errors_raised")
    got = t.r.outcome()
    if got != want:
        f = "raised-nothing" if got[0] == "ok" else "other-exception" if got[0] == "exc" else "code" if got[1] != want[1] else "message" if got[2] != want[2] else "details"
        rec.fail(f"{kind}:{cfg.proto}:{f}", {"case": what, "raised": repr(want)[:500], "received": repr(got)[:500], **E.describe(t)})
        return
    rec.check(type(t.r.err.code) is Code and type(t.r.err.message) is str and str(t.r.err) == want[2], f"{kind}:types", what)
    rec.check(M.canons(t.r.msgs) == M.canons(outs), f"{kind}:messages-before-error", lambda: {"case": what, **O.diff(M.canons(outs), M.canons(t.r.msgs))})
    for d in t.r.err.details:
        cls = {"verif.v1.Msg": Msg, "verif.v1.Out": Out, "verif.v1.Leaf": Leaf}.get(d.type_name)
        if d.message_bytes == b"\xff\xff\x01":
            try:
                vs = [d.value(cls), d.value(cls.desc()), d.value(), d.value(StringValue)]
            except Exception as e:  # noqa: BLE001
                rec.fail(f"{kind}:detail-value-raises", {"case": what, "raised": repr(e)})
                return
            rec.check(not any(v is not None for v in vs), f"{kind}:detail-value-of-nothing", lambda: {"case": what, "values": repr(vs)})
        elif cls is not None:
            v = d.value(cls)
            rec.check(v is not None and v.to_binary() == cls.from_binary(d.message_bytes).to_binary(), f"{kind}:detail-value", what)
            rec.ev("details_decoded")
    O.contract(rec, t, kind, what)
    rec.nontrivial((cfg.key(), kind, want, n))
    rec.seen("codes", (cfg.proto, kind, code.value))
    rec.sample(what)


CODES = list(Code)
MATRIX = [(c, p, k, pair) for c in CODES for p in E.PROTOS for k in KINDS for pair in E.PAIRS]


def matrix(rec, rng, idx):
    c, p, k, pair = MATRIX[idx % len(MATRIX)]
    cfg = E.random_cfg(rng, proto=p, pair=pair)
    one(rec, rng, cfg, k, c)


class Odd(Exception):
    def __str__(self) -> str:
        return "odd: ünïcode\nline"


def others(rec, rng, idx):
    """Anything else a handler raises becomes unknown with its text."""
    cfg = E.random_cfg(rng, pair=rng.choice(E.FULL))
    kind = rng.choice(KINDS)
    k = "get" if kind == "GET" else kind
    mk = rng.choice([lambda: ValueError("bad value"), lambda: KeyError("k"), lambda: E.Boom("50% ünï"), Odd, lambda: RuntimeError(""), lambda: AssertionError("a"),
                     lambda: OSError(5, "io"), lambda: TimeoutError("t/o"), lambda: LookupError("x\r\ny"), lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "nope"),
                     lambda: ZeroDivisionError("division by zero"), lambda: AttributeError("none"), lambda: TypeError("t"), lambda: EOFError(), lambda: BrokenPipeError("p"),
                     lambda: asyncio.TimeoutError("async")])
    text = str(mk())
    n = rng.choice([0, 1, 3]) if k in E.STREAM_OUT else 0
    outs = [M.out(rng) for _ in range(n)]
    ins = [M.msg(rng) for _ in range(rng.choice([0, 1, 3]) if k in E.STREAM_IN else 1)]
    spec = E.Spec(k, ins, use_get=kind == "GET")
    what = {**cfg.brief(), "kind": kind, "exception": repr(mk()), "after": n}
    t = E.run_one(cfg, script_for(rng, k, mk, n, outs), spec)
    if O.hang(rec, t, "others", what):
        return
    rec.ev("exceptions_raised")
    r = t.r
    if not rec.check(r.err is not None, "others:no-connect-error", lambda: {"case": what, **E.describe(t)}):
        return
    generic = r.err.code in (Code.UNKNOWN, Code.INTERNAL, Code.UNAVAILABLE) and not n and text not in r.err.message
    if not (r.err.code is Code.UNKNOWN and r.err.message == text):
        # otherwise the server's own failure: a plain 500 or an aborted response
        if not (generic and t.ex is not None and t.ex.monitor.status is None):
            rec.fail(f"others:{cfg.proto}:{kind}:not-unknown", {"case": what, "received": repr(r.outcome())[:300]})
            return
    rec.check(not r.err.details, "others:details", what)
    rec.check(O.is_prefix(M.canons(r.msgs), M.canons(outs)) and (r.err.message != text or len(r.msgs) == n), "others:messages-before", what)
    rec.nontrivial((cfg.key(), kind, repr(mk()), n))


def surrogates(rec, rng, idx):
    """Texts with lone surrogates, as in exceptions about files whose names are not UTF-8, can be replaced but not lose the error."""
    cfg = E.random_cfg(rng, pair=rng.choice(E.FULL))
    kind = KINDS[idx % len(KINDS)]
    k = "get" if kind == "GET" else kind
    parts = [rng.choice(["", "caf", "open ", "%", "é", "日本", "/tmp/x", "😀"]) for _ in range(rng.choice([2, 3, 4]))]
    text = "".join(p + (chr(rng.randint(0xD800, 0xDFFF)) if i < len(parts) - 1 else "") for i, p in enumerate(parts))
    # neighbours that would form a pair are no longer alone
    text = "".join(c for i, c in enumerate(text) if not (i and "\ud800" <= text[i - 1] < "\udc00" and "\udc00" <= c <= "\udfff"))
    own = rng.random() < 0.5
    code = rng.choice(CODES) if own else Code.UNKNOWN
    ds = [detail(rng) for _ in range(rng.choice([0, 0, 1, 2]))] if own else []
    mk = (lambda: ConnectError(code, text, details=[d[0] for d in ds])) if own else rng.choice([lambda: ValueError(text), lambda: E.Boom(text), lambda: OSError(text)])
    n = rng.choice([0, 1, 3]) if k in E.STREAM_OUT else 0
    outs = [M.out(rng) for _ in range(n)]
    ins = [M.msg(rng) for _ in range(rng.choice([0, 1]) if k in E.STREAM_IN else 1)]
    what = {**cfg.brief(), "kind": kind, "text": ascii(text), "own": own, "code": code.value, "after": n}
    t = E.run_one(cfg, script_for(rng, k, mk, n, outs), E.Spec(k, ins, use_get=kind == "GET"))
    if O.hang(rec, t, "surrogates", what):
        return
    rec.ev("errors_raised")
    r = t.r
    if not rec.check(r.err is not None and r.err.code is code, f"surrogates:{cfg.proto}:error-lost", lambda: {"case": what, "received": ascii(r.outcome())[:300], **E.describe(t)}):
        return
    pos = 0
    for p in "".join(" " if "\ud800" <= c <= "\udfff" else c for c in text).split(" "):
        pos = r.err.message.find(p, pos)
        if pos < 0:
            rec.fail(f"surrogates:{cfg.proto}:message", {"case": what, "received": ascii(r.err.message)})
            return
        pos += len(p)
    rec.check(tuple((d.type_name, d.message_bytes) for d in r.err.details) == tuple((d[1], d[2]) for d in ds), "surrogates:details", what)
    rec.check(M.canons(r.msgs) == M.canons(outs), "surrogates:messages-before", what)
    if own:
        O.contract(rec, t, kind, what)
    rec.nontrivial((cfg.key(), kind, text, own, n))


def session(rec, rng, idx):
    """Errors concern only their own call; the same error object may be raised again."""
    cfg = E.random_cfg(rng)
    shared, want_shared = error(rng, rng.choice(CODES))
    shared_obj = shared()
    specs, scripts, wants = [], [], []
    for _ in range(rng.randint(3, 9)):
        kind = rng.choice(KINDS)
        k = "get" if kind == "GET" else kind
        ins = [M.msg(rng) for _ in range(rng.choice([0, 2]) if k in E.STREAM_IN else 1)]
        specs.append(E.Spec(k, ins, use_get=kind == "GET"))
        n = rng.choice([0, 2]) if k in E.STREAM_OUT else 0
        outs = [M.out(rng) for _ in range(n)]
        r = rng.random()
        if r < 0.4:
            if k not in E.STREAM_OUT:
                outs = [M.out(rng)]
            s = [("recvall",)] * (k in E.STREAM_IN) + [("send" if k in E.STREAM_OUT else "ret", o) for o in outs]
            wants.append((("ok",), M.canons(outs)))
        elif r < 0.7:
            s = script_for(rng, k, lambda: shared_obj, n, outs)
            wants.append((want_shared, M.canons(outs)))
        else:
            make, w = error(rng, rng.choice(CODES))
            s = script_for(rng, k, make, n, outs)
            wants.append((w, M.canons(outs)))
        scripts.append(s)
    it = iter(scripts)
    what = {**cfg.brief(), "session": [(s.kind, w[0][1] if len(w[0]) > 1 else "ok") for s, w in zip(specs, wants)]}
    t = E.run_many(cfg, lambda name, req, ctx: next(it), specs)
    if O.hang(rec, t, "session", what, len(specs)):
        return
    for i, (w, ms) in enumerate(wants):
        rec.ev("calls_compared")
        got = t.res[i].outcome()
        if got != w or M.canons(t.res[i].msgs) != ms:
            rec.fail(f"session:{cfg.proto}:call-affected", {"case": what, "call": i, "expected": repr(w)[:300], "received": repr(got)[:300], "msgs": (len(ms), len(t.res[i].msgs))})
            return
    rec.nontrivial((cfg.key(), tuple(w[0] for w in wants)))


def from_wire(rec, rng, idx):
    """Errors written by an independent server are raised the same by the client."""
    cfg = E.random_cfg(rng, pair=rng.choice([("async", "asgi"), ("sync", "wsgi")]))
    k = rng.choice(["unary", "get", "client_stream", "server_stream", "bidi"])
    _, want = error(rng, rng.choice(CODES))
    n = rng.choice([0, 1, 2]) if k in E.STREAM_OUT else 0
    outs = [M.out(rng) for _ in range(n)]
    cfg.accept = ["gzip", "br", "zstd", *E.CUSTOM]
    comp = rng.choice([None, None, "identity", *cfg.accept])
    w = R.response(cfg.proto, k, cfg.codec, outs, comp=comp, error=want[1:], trailers_only=rng.random() < 0.5, compress_end=rng.random() < 0.5)
    what = {**cfg.brief(), "kind": k, "code": want[1], "message": want[2][:60], "after": n, "comp": comp, "trailers_only": not w.body}
    t = E.run_fake(cfg, R.Fake.of(w, Plan(rng).split(w.body, rng.choice(["asis", "random", "bytes"]))), E.Spec(k, [M.msg(rng)]))
    if O.hang(rec, t, "wire", what):
        return
    rec.ev("wire_errors")
    if t.r.outcome() != want:
        rec.fail(f"wire:{cfg.proto}:{k}:differs", {"case": what, "sent": repr(want)[:400], "received": repr(t.r.outcome())[:400]})
        return
    rec.check(M.canons(t.r.msgs) == M.canons(outs), "wire:messages", what)
    rec.nontrivial((cfg.key(), k, want, n))


WORKLOADS = {
    "matrix": Workload(matrix, len(MATRIX) * 3, len(MATRIX) * 40),
    "surrogates": Workload(surrogates, 800, 12000),
    "others": Workload(others, 1500, 20000),
    "session": Workload(session, 800, 12000),
    "from_wire": Workload(from_wire, 3000, 40000),
}
