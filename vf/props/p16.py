"""P16: compression is negotiated and corruption is always detected."""
from __future__ import annotations

import gzip

import brotli
import zstandard

from .. import bridge
from .. import engine as E
from .. import msgs as M
from .. import mutate as MU
from .. import oracle as O
from .. import ref as R
from ..core import Workload

ID = "P16"
RULE = ("A case negotiates, transports or damages compressed messages with built-in and user-supplied algorithms. Labels, flags and payloads on "
        "the wire are read by an independent implementation and must show exactly the encoding the negotiation rule gives; messages must be "
        "equal after the round trip; unsupported and damaged input must be refused with the prescribed code and never produce a message. "
        "Non-trivial: a message was compressed, refused or damaged; distinct by configuration, accept list, algorithm and damage.")
ASSUME = ["damage is what a strict decoder of the format rejects; formats without checksums cannot notice every changed bit",
          "standard encodings of unary Connect responses are undone by the HTTP client, as pyqwest does"]
ALL = ["gzip", "br", "zstd", *E.CUSTOM]


def negotiated(accept: str | None, server: list[str]) -> str:
    for a in (accept or "").split(","):
        a = a.strip(" \t")
        if a in server or a == "identity":
            return a
    return "identity"


def accept_header(rng) -> str | None:
    if rng.random() < 0.1:
        return rng.choice([None, "", "identity"])
    n = rng.choice([1, 1, 2, 3, 5])
    names = [rng.choice([*ALL, *ALL, "identity", "snappy", "lz4", "*", "gzipx", "x-gzip", "gzi", ""]) for _ in range(n)]
    sep = rng.choice([",", ", ", " , ", ",  "])
    return sep.join(names).strip()


def negotiate(rec, rng, idx):
    """What a server answers to every accept header, also one request after another."""
    sv = ["asgi", "wsgi"][idx % 2]
    proto = list(E.PROTOS)[(idx // 2) % 3]
    kind = E.KINDS[(idx // 6) % 5]
    codec = rng.choice(["proto", "json"])
    cfg = E.random_cfg(rng, proto=proto, pair=("async", sv), codec=codec)
    cfg.server_comps = rng.sample(ALL, rng.randint(0, 4)) if rng.random() < 0.85 else None
    cur: list = []
    log = E.Log()
    app = E.build_app(cfg, lambda name, request, ctx: cur[0], log)
    for turn in range(rng.choice([1, 1, 1, 2, 3])):
        if turn and rng.random() < 0.3:
            cfg.proto, cfg.codec = rng.choice(list(E.PROTOS)), rng.choice(["proto", "json"])
        if turn and rng.random() < 0.3:
            kind = rng.choice(E.KINDS)
        del log.calls[:]
        if not _negotiate(rec, rng, cfg, app, log, cur, kind, turn):
            return


def _negotiate(rec, rng, cfg, app, log, cur, kind, turn) -> bool:
    sv, proto, codec = cfg.server, cfg.proto, cfg.codec
    have = ["gzip"] if cfg.server_comps is None else cfg.server_comps
    accept = accept_header(rng)
    send = rng.choice([None, "identity", *have])
    get = kind == "get" and proto == "connect" and rng.random() < 0.5
    n = rng.choice([1, 2, 4])
    reqs = [M.msg(rng, mid=f"q{i}") if rng.random() < 0.8 else M.Msg() for i in range(n if kind in E.STREAM_IN else 1)]
    outs = [M.out(rng) for _ in range(n if kind in E.STREAM_OUT else 1)]
    per = None if rng.random() < 0.6 else [rng.random() < 0.5 for _ in reqs]
    w = R.request(proto, kind, codec, reqs, comp=send if send != "identity" or R.enveloped(proto, kind) else None, accept=accept, get=get,
                  per_msg=per if R.enveloped(proto, kind) else None)
    fail = rng.random() < 0.15
    script: list = [("recvall",)] if kind in E.STREAM_IN else []
    script += [("send" if kind in E.STREAM_OUT else "ret", o) for o in outs]
    if fail:
        script = script[:-1] + [("raise", lambda: E.ConnectError(E.Code.NOT_FOUND, "gone"))]
    cur[:] = [script]
    ex = E.serve_raw(cfg, app, w)
    what = {**cfg.brief(), "kind": kind, "accept": accept, "send": send, "get": get, "fails": fail, "per_message": per, "turn": turn}
    if ex.app_exc is not None or ex.monitor.bad:
        rec.fail(f"negotiate:{sv}:exception", {"case": what, "exc": repr(ex.app_exc), "bad": ex.monitor.bad[:3]})
        return False
    r = R.read_response(proto, kind, codec, E.wire_resp(ex))
    if r.problems:
        rec.fail(f"negotiate:{sv}:malformed", {"case": what, "problems": r.problems[:4]})
        return False
    if M.canons(log.calls[0].reqs if log.calls else []) != M.canons(reqs):
        rec.fail(f"negotiate:{sv}:request", what)
        return False
    want_msgs = M.canons(outs[:-1] if fail else outs) if kind in E.STREAM_OUT or not fail else []
    if r.msgs != want_msgs or r.ok == fail:
        rec.fail(f"negotiate:{sv}:response", {"case": what, "ok": r.ok, "error": r.error, "messages": len(r.msgs)})
        return False
    want = negotiated(accept, have)
    rec.ev("labels_compared")
    got = r.comp or "identity"
    if not R.enveloped(proto, kind) and fail:
        if got not in ("identity", want):
            rec.fail(f"negotiate:{sv}:{proto}:label", {"case": what, "label": got, "expected": want})
            return False
        return True
    if got != want:
        rec.fail(f"negotiate:{sv}:{proto}:label", {"case": what, "label": got, "expected": want})
        return False
    if any(c != (want != "identity") for c in r.compressed):
        rec.fail(f"negotiate:{sv}:{proto}:flags", {"case": what, "label": got, "compressed": r.compressed})
        return False
    rec.ev("messages_with_expected_encoding", len(r.compressed))
    rec.nontrivial((sv, proto, kind, codec, accept, tuple(have), send))
    rec.seen("negotiations", (accept, tuple(have), want))
    rec.sample(what)
    return True


def roundtrip(rec, rng, idx):
    """Real client and application with any algorithms on both sides."""
    pair = E.PAIRS[idx % 4]
    proto = list(E.PROTOS)[(idx // 4) % 3]
    kind = E.KINDS[(idx // 12) % 5]
    if kind == "bidi" and pair not in E.FULL:
        kind = "server_stream"
    cfg = E.random_cfg(rng, proto=proto, pair=pair)
    cfg.server_comps = rng.sample(ALL, rng.randint(1, 5))
    cfg.send = rng.choice([None, *cfg.server_comps])
    cfg.accept = rng.choice([None, rng.sample(ALL, rng.randint(0, 5))])
    n = rng.choice([1, 1, 3])
    reqs = [M.msg(rng, size=rng.choice([None, None, 0, 5000])) for _ in range(n if kind in E.STREAM_IN else 1)]
    outs = [M.out(rng, size=rng.choice([None, None, 0, 5000])) for _ in range(n if kind in E.STREAM_OUT else 1)]
    script: list = ([("recvall",)] if kind in E.STREAM_IN else []) + [("send" if kind in E.STREAM_OUT else "ret", o) for o in outs]
    spec = E.Spec(kind, reqs, use_get=kind == "get" and rng.random() < 0.5)
    if cfg.send and rng.random() < 0.25:
        # labels are the library's business whatever callers put there
        names = ["Accept-Encoding", "connect-accept-encoding", "grpc-accept-encoding"]
        names += ["content-encoding"] if not R.enveloped(proto, kind) and not spec.use_get else []
        names += ["Connect-Content-Encoding"] if R.enveloped(proto, kind) else []
        names += ["grpc-encoding"] if proto != "connect" else []
        own = names[-1] if rng.random() < 0.5 else rng.choice(names)
        mine = {"connect": "connect-" if R.enveloped(proto, kind) else ""}.get(proto, "grpc-")
        if own.lower() in (mine + "accept-encoding", mine + "content-encoding", mine + "encoding"):
            spec.headers = {own: rng.choice([*ALL, "identity", "snappy"])}
    what = {**cfg.brief(), "kind": kind, "get": spec.use_get, "own_headers": spec.headers}
    t = E.run_one(cfg, script, spec)
    if O.hang(rec, t, f"roundtrip:{pair}", what) or not O.delivered(rec, t, spec, outs, f"roundtrip:{pair}:{proto}", what):
        return
    O.contract(rec, t, f"roundtrip:{pair}", what)
    ex = t.ex
    u = R.urlsplit(ex.url)
    s = R.read_request(proto, kind, cfg.codec, R.WireReq(ex.method, u.path + ("?" + u.query if u.query else ""), ex.req_headers, bytes(ex.req_body)))
    if s.problems or (s.comp or "identity") != (cfg.send or "identity") or any(c != (cfg.send is not None) for c in s.compressed):
        rec.fail(f"roundtrip:{pair}:{proto}:request-encoding", {"case": what, "problems": s.problems[:3], "label": s.comp, "compressed": s.compressed})
        return
    acc = [v for k, v in ex.req_headers if k == ("accept-encoding" if not R.enveloped(proto, kind) else ("connect-" if proto == "connect" else "grpc-") + "accept-encoding")]
    offered = [x.strip() for v in acc for x in v.split(",") if x.strip() and x.strip() != "identity"]
    if offered != (["gzip"] if cfg.accept is None else cfg.accept):
        rec.fail(f"roundtrip:{pair}:{proto}:offer", {"case": what, "offered": acc})
        return
    r = R.read_response(proto, kind, cfg.codec, E.wire_resp(ex))
    want = negotiated(",".join(["gzip"] if cfg.accept is None else cfg.accept), cfg.server_comps)
    if r.problems or (r.comp or "identity") != want or any(c != (want != "identity") for c in r.compressed):
        rec.fail(f"roundtrip:{pair}:{proto}:response-encoding", {"case": what, "problems": r.problems[:3], "label": r.comp, "expected": want, "compressed": r.compressed})
        return
    rec.ev("exchanges_read")
    rec.nontrivial((cfg.key(), kind, spec.use_get, tuple(M.canons(reqs))))
    rec.seen("encodings", (proto, kind, pair, cfg.send, want))
    rec.sample(what)


def own(rec, rng, idx):
    """The instances users pass are the ones used, also under the names of built-in algorithms."""
    pair = E.PAIRS[idx % 4]
    proto = list(E.PROTOS)[(idx // 4) % 3]
    kind = E.KINDS[(idx // 12) % 5]
    if kind == "bidi" and pair not in E.FULL:
        kind = "client_stream"
    cfg = E.random_cfg(rng, proto=proto, pair=pair)
    name = rng.choice(["gzip", "gzip", "br", "zstd"])
    cfg.server_comps = rng.sample([n for n in ALL if n != name], rng.randint(0, 2))
    cfg.server_comps.insert(rng.randint(0, len(cfg.server_comps)), name)
    cfg.send, cfg.accept = name, [name]
    made: list = []

    class Mine(E.COMPS[name]):
        """Same format, but it counts."""

        def __init__(self) -> None:
            super().__init__()
            self.out = self.into = 0
            made.append(self)

        def compress(self, data):
            self.out += 1
            return super().compress(data)

        def decompress(self, data):
            self.into += 1
            return super().decompress(data)

    reqs = [M.msg(rng, mid=f"q{i}") for i in range(rng.choice([1, 3]) if kind in E.STREAM_IN else 1)]
    outs = [M.out(rng, oid=f"r{i}") for i in range(rng.choice([1, 3]) if kind in E.STREAM_OUT else 1)]
    script: list = ([("recvall",)] if kind in E.STREAM_IN else []) + [("send" if kind in E.STREAM_OUT else "ret", o) for o in outs]
    spec = E.Spec(kind, reqs, use_get=kind == "get" and rng.random() < 0.5)
    what = {**cfg.brief(), "kind": kind, "get": spec.use_get, "name": name}
    real = E.COMPS[name]
    E.COMPS[name] = Mine
    try:
        t = E.run_one(cfg, script, spec)
    finally:
        E.COMPS[name] = real
    if O.hang(rec, t, f"own:{pair}", what) or not O.delivered(rec, t, spec, outs, f"own:{pair}:{proto}", what):
        return
    by_http = not R.enveloped(proto, kind)
    # at least once per message: the end of a Connect stream and gRPC-Web trailers may be compressed as well
    need_out, need_in = len(reqs) + len(outs), len(reqs) + (0 if by_http else len(outs))
    got_out, got_in = sum(c.out for c in made), sum(c.into for c in made)
    rec.ev("uses_counted", got_out + got_in)
    if got_out < need_out or got_in < need_in:
        rec.fail(f"own:{pair}:{proto}:not-used", {"case": what, "compressed": got_out, "decompressed": got_in, "needed": [need_out, need_in]})
        return
    rec.nontrivial((cfg.key(), kind, spec.use_get, name))
    rec.sample(what)


def unsupported(rec, rng, idx):
    """Encodings one side does not know: unimplemented from servers, internal in clients."""
    proto = list(E.PROTOS)[idx % 3]
    kind = E.KINDS[(idx // 3) % 5]
    who = ["server", "client", "both"][(idx // 15) % 3]
    if who == "both":
        # a real client whose encoding the application does not have
        pair = rng.choice(E.PAIRS if kind != "bidi" else E.FULL)
        cfg = E.random_cfg(rng, proto=proto, pair=pair)
        cfg.server_comps = rng.choice([[], rng.sample(ALL, rng.randint(0, 3))])
        cfg.send = rng.choice([c for c in ALL if c not in cfg.server_comps])
        reqs = [M.msg(rng, mid=f"q{i}") for i in range(rng.choice([1, 3]) if kind in E.STREAM_IN else 1)]
        spec = E.Spec(kind, reqs, use_get=kind == "get" and rng.random() < 0.5)
        script: list = ([("recvall",)] if kind in E.STREAM_IN else []) + [("send" if kind in E.STREAM_OUT else "ret", M.Out(id="r"))]
        what = {**cfg.brief(), "kind": kind, "get": spec.use_get}
        t = E.run_one(cfg, script, spec)
        if O.hang(rec, t, "unsupported:both", what):
            return
        rec.ev("refusals")
        if t.r.err is None or t.r.err.code is not E.Code.UNIMPLEMENTED or t.r.msgs:
            rec.fail(f"unsupported:both:{pair[1]}:{proto}", {"case": what, "outcome": repr(t.r.outcome()), "messages": len(t.r.msgs)})
            return
        if any(c.finished == "ok" or c.reqs for c in t.calls):
            rec.fail(f"unsupported:both:{pair[1]}:{proto}:handler", {"case": what, "calls": [(c.finished, len(c.reqs)) for c in t.calls]})
            return
        rec.nontrivial((who, cfg.key(), kind))
        rec.sample(what)
        return
    codec = rng.choice(["proto", "json"])
    if who == "server":
        sv = rng.choice(["asgi", "wsgi"])
        cfg = E.random_cfg(rng, proto=proto, pair=("async", sv), codec=codec)
        cfg.server_comps = rng.choice([None, [], rng.sample(ALL, rng.randint(0, 3))])
        have = ["gzip"] if cfg.server_comps is None else cfg.server_comps
        name = rng.choice([c for c in [*ALL, "snappy", "gzip2", "g", "lz4"] if c not in have])
        reqs = [M.msg(rng, mid=f"q{i}") for i in range(rng.choice([1, 3]) if kind in E.STREAM_IN else 1)]
        get = kind == "get" and proto == "connect" and rng.random() < 0.5
        plain = rng.random() < 0.5 or name not in ALL
        w = R.request(proto, kind, codec, reqs, comp=None if plain else name, get=get)
        if plain:
            if get:
                w.path += "&compression=" + name
            else:
                w = w.with_(({"connect": "connect-content-encoding" if R.enveloped(proto, kind) else "content-encoding"}.get(proto, "grpc-encoding"), name))
        log = E.Log()
        script = ([("recvall",)] if kind in E.STREAM_IN else []) + [("send" if kind in E.STREAM_OUT else "ret", M.Out(id="r"))]
        app = E.build_app(cfg, E.as_pick(script), log)
        ex = E.serve_raw(cfg, app, w)
        what = {**cfg.brief(), "kind": kind, "name": name, "plain": plain, "get": get}
        r = R.read_response(proto, kind, codec, E.wire_resp(ex)) if ex.app_exc is None else None
        rec.ev("refusals")
        if r is None or r.error is None or r.error[0] != "unimplemented" or r.msgs:
            rec.fail(f"unsupported:server:{sv}:{proto}", {"case": what, "exc": repr(ex.app_exc), "error": r and r.error})
            return
        if any(c.reqs or c.finished == "ok" for c in log.calls):
            rec.fail(f"unsupported:server:{sv}:{proto}:handler", what)
            return
    else:
        cl = rng.choice(["async", "sync"])
        cfg = E.random_cfg(rng, proto=proto, pair=(cl, "asgi" if cl == "async" else "wsgi"), codec=codec)
        cfg.accept = rng.choice([None, [], rng.sample(ALL, rng.randint(0, 3))])
        have = ["gzip"] if cfg.accept is None else cfg.accept
        # what the HTTP client undoes by itself does not reach the library of a unary Connect call
        names = [c for c in [*ALL, "snappy", "gzip2", "lz4"] if c not in have]
        name = rng.choice(names)
        w = R.response(proto, kind, codec, [M.Out(id="r")], comp=name if name in ALL else None)
        if name not in ALL:
            w.headers.append(({"connect": "connect-content-encoding" if R.enveloped(proto, kind) else "content-encoding"}.get(proto, "grpc-encoding"), name))
        t = E.run_fake(cfg, R.Fake.of(w), E.Spec(kind, [M.Msg(id="q")]))
        what = {**cfg.brief(), "kind": kind, "name": name}
        if O.hang(rec, t, "unsupported:client", what):
            return
        rec.ev("refusals")
        if t.r.err is None or t.r.err.code is not E.Code.INTERNAL or t.r.msgs:
            rec.fail(f"unsupported:client:{cl}:{proto}", {"case": what, "outcome": repr(t.r.outcome()), "messages": len(t.r.msgs)})
            return
    rec.nontrivial((who, cfg.key(), kind, name))
    rec.sample(what)


def undo(comp, data):
    try:
        return R.decompress(comp, data)
    except ValueError:
        if comp == "gzip":
            try:
                return gzip.decompress(data)  # ignores reserved header bits
            except Exception:  # noqa: S110
                pass
        raise


def harm(rng, comp, data):
    """(how, damaged bytes) that a strict decoder rejects, or None."""
    if len(data) < 2:
        return None
    for _ in range(30):
        how = rng.choice(["cut", "cut", "flip", "plain", "head", "tail", "drop", "dup"])
        if how == "cut":
            bad = data[:rng.randrange(1, len(data))]
        elif how == "tail":
            bad = data[:-rng.randint(1, min(8, len(data) - 1))]
        elif how == "flip":
            bad = MU.flip(rng, data)
        elif how == "drop":
            bad = MU.drop(rng, data)
        elif how == "dup":
            # (two complete streams after each other are legal in some formats)
            i = rng.randrange(1, len(data))
            bad = data[:i] + data[rng.randrange(1, i + 1):]
        elif how == "head":
            bad = rng.randbytes(min(4, len(data))) + data[4:]
        else:
            bad = rng.randbytes(rng.randint(1, 30))
        if not bad or bad == data:
            continue
        try:
            undo(comp, bad)
        except ValueError:
            return how, bad
    return None


def damage(rec, rng, idx):
    """Damaged messages at servers and clients, between intact ones."""
    proto = list(E.PROTOS)[idx % 3]
    kind = E.KINDS[(idx // 3) % 5]
    who = ["server", "client"][(idx // 15) % 2]
    comp = ALL[(idx // 30) % len(ALL)]
    codec = rng.choice(["proto", "json"])
    if who == "client" and not R.enveloped(proto, kind) and comp not in E.CUSTOM:
        comp = rng.choice(E.CUSTOM)
    cls = M.msg if who == "server" else M.out
    raw = R.encode(codec, cls(rng, "id", size=rng.choice([0, 0, 20, 300, 5000])))
    h = harm(rng, comp, R.compress(comp, raw))
    if h is None:
        return
    how, bad = h
    stream = kind in (E.STREAM_IN if who == "server" else E.STREAM_OUT)
    good = [cls(rng, f"g{i}") for i in range(rng.choice([0, 1, 3]))] if stream else []
    after = [cls(rng, f"a{i}") for i in range(rng.choice([0, 1]))] if stream else []
    body = R.frames(codec, good, comp) + R.env(bad, 1) + R.frames(codec, after, comp)
    info = {"comp": comp, "how": how, "kind": kind, "good": len(good), "after": len(after), "data": bad[:40].hex(), "of": len(raw)}
    if who == "server":
        sv = rng.choice(["asgi", "wsgi"])
        cfg = E.random_cfg(rng, proto=proto, pair=("async", sv), codec=codec)
        cfg.server_comps = rng.sample(ALL, len(ALL))
        get = kind == "get" and proto == "connect" and rng.random() < 0.5
        w = R.request(proto, kind, codec, [cls(rng, "id")], comp=comp, get=get, accept="identity")
        if get:
            w.path = R.PKG + f"Get?connect=v1&encoding={codec}&compression={comp}&base64=1&message={R.base64.urlsafe_b64encode(bad).decode()}"
        else:
            w.body = body if R.enveloped(proto, kind) else bad
        script = ([("recvall",)] if kind in E.STREAM_IN else []) + [("send" if kind in E.STREAM_OUT else "ret", M.Out(id="r"))]
        log = E.Log()
        ex = E.serve_raw(cfg, E.build_app(cfg, E.as_pick(script), log), w)
        what = {**cfg.brief(), **info, "get": get}
        r = R.read_response(proto, kind, codec, E.wire_resp(ex)) if ex.app_exc is None else None
        rec.ev("damaged_requests")
        if r is None or r.error is None or r.error[0] != "invalid_argument" or r.msgs or r.ok:
            rec.fail(f"damage:server:{sv}:{comp}", {"case": what, "exc": repr(ex.app_exc), "error": r and r.error, "messages": r and len(r.msgs)})
            return
        got = M.canons(log.calls[0].reqs) if log.calls else []
        if not O.is_prefix(got, M.canons(good)) or any(c.finished == "ok" for c in log.calls):
            rec.fail(f"damage:server:{sv}:{comp}:handler", {"case": what, "messages": len(got)})
            return
    else:
        cl = rng.choice(["async", "sync"])
        cfg = E.random_cfg(rng, proto=proto, pair=(cl, "asgi" if cl == "async" else "wsgi"), codec=codec)
        cfg.accept = rng.sample(ALL, len(ALL))
        w = R.response(proto, kind, codec, [cls(rng, "id")], comp=comp)
        if R.enveloped(proto, kind):
            w.body = body + b"".join(R.env(d, f) for f, d in R.envs(w.body)[0][1:])
        else:
            w.body = bad
        steps = [w.body] if rng.random() < 0.5 else [w.body[:len(w.body) // 2], w.body[len(w.body) // 2:]]
        t = E.run_fake(cfg, R.Fake.of(w, steps=steps), E.Spec(kind, [M.Msg(id="q")]))
        what = {**cfg.brief(), **info}
        if O.hang(rec, t, "damage:client", what):
            return
        rec.ev("damaged_responses")
        if t.r.err is None or not O.is_prefix(M.canons(t.r.msgs), M.canons(good)):
            rec.fail(f"damage:client:{cl}:{comp}", {"case": what, "outcome": repr(t.r.outcome()), "messages": len(t.r.msgs)})
            return
        if t.r.err.code not in (E.Code.INVALID_ARGUMENT, E.Code.INTERNAL):
            rec.fail(f"damage:client:{cl}:{comp}:code", {"case": what, "outcome": repr(t.r.outcome())})
            return
    rec.nontrivial((who, cfg.key(), kind, comp, how, bad))
    rec.seen("damage", (who, proto, kind, comp, how))
    rec.sample(what)


LEVELS = {"gzip": [{}, *({"level": i} for i in range(10))], "br": [{}, *({"quality": i} for i in range(12))],
          "zstd": [{}, *({"level": i} for i in (-5, 1, 2, 3, 5, 9, 12, 19))]}


def direct(rec, rng, idx):
    """The built-in algorithms themselves: round trips, foreign encoders, every truncation."""
    name = ["gzip", "br", "zstd"][idx % 3]
    kw = LEVELS[name][(idx // 3) % len(LEVELS[name])]
    c = E.COMPS[name](**kw)
    size = rng.choice([0, 1, 2, 10, 100, 1000, 20000, 200000])
    k = rng.random()
    data = rng.randbytes(size) if k < 0.3 else (rng.randbytes(7) * (size // 7 + 1))[:size] if k < 0.6 else R.encode("proto", M.msg(rng)) if k < 0.8 else bytes(size)
    typ = rng.choice([bytes, bytearray, memoryview])
    what = {"algorithm": name, "args": kw, "size": len(data), "type": typ.__name__}
    if c.name() != name:
        rec.fail(f"direct:{name}:name", what)
        return
    out = c.compress(typ(data))
    if type(out) is not bytes or R.decompress(name, out) != data or c.decompress(typ(out)) != data:
        rec.fail(f"direct:{name}:round-trip", what)
        return
    foreign = {"gzip": lambda: gzip.compress(data, rng.choice([0, 1, 9])) if rng.random() < 0.7 else gzip.compress(data[:5]) + gzip.compress(data[5:]),
               "br": lambda: brotli.compress(data, quality=rng.choice([0, 5, 11 if size < 2000 else 5]), lgwin=rng.choice([10, 18, 24])),
               "zstd": lambda: zstd_foreign(rng, data)}[name]()
    if c.decompress(typ(foreign)) != data:
        rec.fail(f"direct:{name}:foreign", what)
        return
    rec.ev("round_trips", 3)
    cuts = range(1, len(out)) if len(out) < 60 else sorted({rng.randrange(1, len(out)) for _ in range(20)} | {len(out) - i for i in range(1, 9)} | set(range(1, 12)))
    for cut in cuts:
        rec.ev("truncations")
        try:
            got = c.decompress(typ(out[:cut]))
        except Exception:  # noqa: S112
            continue
        rec.fail(f"direct:{name}:truncated", {"case": what, "cut": cut, "of": len(out), "got": len(got), "equal": got == data})
        return
    for _ in range(20):
        h = harm(rng, name, out)
        if h is None:
            break
        rec.ev("damages")
        try:
            got = c.decompress(typ(h[1]))
        except Exception:  # noqa: S112
            continue
        if h[0] == "drop" and name == "gzip" and not h[1].strip(b"\0"):
            continue
        rec.fail(f"direct:{name}:damaged", {"case": what, "how": h[0], "data": h[1][:80].hex(), "got": len(got), "equal": bytes(got) == data})
        return
    rec.nontrivial((name, tuple(kw.items()), data[:50], typ))
    rec.sample(what)


def zstd_foreign(rng, data):
    k = rng.random()
    if k < 0.4:
        return zstandard.ZstdCompressor(level=rng.choice([1, 9]), write_content_size=False, write_checksum=rng.random() < 0.5).compress(data)
    if k < 0.6:
        o = zstandard.ZstdCompressor().compressobj()
        return o.compress(data) + o.flush()
    if k < 0.8:
        z = zstandard.ZstdCompressor(write_checksum=True)
        return z.compress(data[:3]) + z.compress(data[3:])
    return zstandard.ZstdCompressor(write_checksum=True).compress(data)


WORKLOADS = {
    "negotiate": Workload(negotiate, 8000, 160000),
    "roundtrip": Workload(roundtrip, 4800, 80000),
    "own": Workload(own, 1200, 20000),
    "unsupported": Workload(unsupported, 3600, 60000),
    "damage": Workload(damage, 7200, 140000),
    "direct": Workload(direct, 1500, 24000),
}
_ = bridge
