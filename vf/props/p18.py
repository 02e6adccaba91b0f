"""P18: requests are routed to exactly the right method and codec."""
from __future__ import annotations

import zlib
from urllib.parse import unquote

from protobuf.wkt import Empty
from starlette.applications import Starlette
from starlette.routing import Mount
from werkzeug.middleware.dispatcher import DispatcherMiddleware

from connectrpc.codec import proto_binary_codec, proto_json_codec

from .. import bridge
from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import ref as R
from ..core import Workload
from ..gen import other_connect as OC
from ..gen import verif_connect as VC

ID = "P18"
RULE = ("A case is one request (near-miss path, documented mount, content type, or user-supplied codec) to applications of two services with "
        "similar method names whose handlers log their own identity. The log must contain exactly the handler the decoded path names and no other, "
        "and the status and content type of the response must be those a routing model predicts. Non-trivial: the response was compared with the "
        "model; distinct by path, mount, content type, codec and configuration.")
ASSUME = ["servers percent-decode paths before calling the application, as ASGI and WSGI prescribe",
          "user-supplied codecs have lower-case names; gRPC content types are written in lower case without parameters"]

SVC = {"Probe": ["Unary", "Get", "Idem", "ClientStream", "ServerStream", "Bidi", "Watch", "Nothing"],
       "ProbeX": ["Unary", "UnaryAll", "Get", "Fetch", "ServerStream", "Bidi"]}
KIND = {"ClientStream": "client_stream", "ServerStream": "server_stream", "Bidi": "bidi", "Watch": "watch", "Nothing": "nothing",
        "Get": "get", "Idem": "idem"}
PREFIX = {"Probe": "/verif.v1.Probe", "ProbeX": "/verif.v1.ProbeX"}


def snake(n: str) -> str:
    return "".join("_" + c.lower() if c.isupper() and i else c.lower() for i, c in enumerate(n))


def handler(svc: str, sync: bool, log: list):
    """A service whose methods log who they are and answer with it."""
    base = {("Probe", False): VC.Probe, ("Probe", True): VC.ProbeSync, ("ProbeX", False): OC.ProbeX, ("ProbeX", True): OC.ProbeXSync}[svc, sync]
    ns: dict = {}
    for m in SVC[svc]:
        k = KIND.get(m, "unary")
        out = Empty() if m == "Nothing" else M.Out(id=f"{svc}/{m}")

        def make(m=m, k=k, out=out):
            def note(ctx, reqs):
                log.append((svc, m, ctx.method.service_name, ctx.method.name, reqs))
            if sync:
                def one(self, request, ctx):
                    note(ctx, [request] if k not in E.STREAM_IN else list(request))
                    return out

                def many(self, request, ctx):
                    note(ctx, [request] if k not in E.STREAM_IN else list(request))
                    yield out
            else:
                async def one(self, request, ctx):
                    note(ctx, [request] if k not in E.STREAM_IN else [x async for x in request])
                    return out

                async def many(self, request, ctx):
                    note(ctx, [request] if k not in E.STREAM_IN else [x async for x in request])
                    yield out
            return many if k in E.STREAM_OUT else one
        ns[snake(m)] = make()
    return type("H", (base,), ns)()


def app_of(svc: str, sv: str, log: list, **kw):
    cls = {("Probe", "asgi"): VC.ProbeASGIApplication, ("Probe", "wsgi"): VC.ProbeWSGIApplication,
           ("ProbeX", "asgi"): OC.ProbeXASGIApplication, ("ProbeX", "wsgi"): OC.ProbeXWSGIApplication}[svc, sv]
    return cls(handler(svc, sv == "wsgi", log), **kw)


def wire(rng, svc: str, m: str, proto: str, codec: str) -> R.WireReq:
    kind = KIND.get(m, "unary")
    n = rng.choice([1, 2]) if kind in E.STREAM_IN else 1
    body = [b"" if codec == "proto" else b"{}"] * n if m == "Nothing" else [M.Msg(id=f"q{i}") for i in range(n)]
    if m == "Fetch":
        kind = "unary"
    w = R.request(proto, kind, codec, body)
    w.path = f"{PREFIX[svc]}/{m}"
    return w


def enc(rng, path: str) -> str:
    """Another spelling of the same path."""
    return "".join(f"%{ord(c):02{rng.choice('xX')}}" if rng.random() < 0.15 and c.isascii() else c for c in path)


def near(rng, path: str) -> str:
    """A path that is close to a valid one (and now and then is one)."""
    svc, m = path.strip("/").split("/")
    k = rng.randrange(22)
    if k == 0:
        return path + rng.choice(["/", "//", "/.", "%20", ".", ";", ";a=b", "%00", "X", "s", "%3F", "%23", "All", "%0A", "/Unary"])
    if k == 1:
        return rng.choice(["/", "//", "/x", "/api", "/.", "/%20", "%2F", "/v1", "/verif.v1.Probe", "/verif.v1.ProbeX"]) + path
    if k == 2:
        return f"/{svc}//{m}"
    if k == 3:
        i = rng.randrange(1, len(path))
        return path[:i] + path[i].swapcase() + path[i + 1:]
    if k == 4:
        i = rng.randrange(1, len(path))
        return path[:i] + path[i + 1:]
    if k == 5:
        i = rng.randrange(1, len(path))
        return path[:i] + rng.choice("abxX0_.-%~") .replace("%", "%25") + path[i:]
    if k == 6:
        return f"/{svc}/{rng.choice(SVC['Probe'] + SVC['ProbeX'])}"
    if k == 7:
        return f"/{rng.choice(['verif.v1.Probe', 'verif.v1.ProbeX', 'Probe', 'verif.Probe', 'verif.v1', 'verif.v1.probe', 'verif/v1/Probe', '.verif.v1.Probe'])}/{m}"
    if k == 8:
        return f"/{svc}/{snake(m)}"
    if k == 9:
        return f"/{svc}.{m}"
    if k == 10:
        return f"/{m}"
    if k == 11:
        return f"/{svc}"
    if k == 12:
        return f"/{svc}/"
    if k == 13:
        return "/" if rng.random() < 0.5 else ""
    if k == 14:
        return path.replace("/", "%2F" if rng.random() < 0.5 else "/", 2)
    if k == 15:
        return enc(rng, path)
    if k == 16:
        return path.upper() if rng.random() < 0.5 else path.lower()
    if k == 17:
        return path[:rng.randrange(1, len(path))]
    if k == 18:
        return f"/{svc}/../{svc}/{m}"
    if k == 19:
        return path.replace(rng.choice("aeiUPn"), rng.choice(["%C3%A9", "%ff", "%EF%BC%B5", "\u00e9"]), 1)
    if k == 20:
        return path.replace("%", "%25") + rng.choice(["%2500", "%252F"])
    return path


def judge(rec, tag, what, ex, log, target, proto, codec) -> bool:
    """The response and the handler log against what the model says: a handler or not found."""
    rec.ev("requests_judged")
    if ex.app_exc is not None or ex.monitor.bad:
        rec.fail(f"{tag}:exception", {"case": what, "exc": repr(ex.app_exc), "bad": ex.monitor.bad[:3]})
        return False
    who = [(x[0], x[1]) for x in log]
    st = ex.monitor.status
    if target is None:
        if who or st != 404:
            rec.fail(f"{tag}:not-404", {"case": what, "status": st, "handlers": who})
            return False
        rec.ev("not_found")
        return True
    svc, m = target
    if who != [target] or st != 200:
        rec.fail(f"{tag}:wrong-handler", {"case": what, "status": st, "handlers": who, "expected": target})
        return False
    if log[0][2:4] != (f"verif.v1.{svc}", m):
        rec.fail(f"{tag}:method-info", {"case": what, "info": log[0][2:4]})
        return False
    kind = KIND.get(m, "unary")
    if m != "Nothing":
        r = R.read_response(proto, kind, codec, E.wire_resp(ex))
        if r.problems or not r.ok or r.msgs != [M.canon(M.Out(id=f"{svc}/{m}"))]:
            rec.fail(f"{tag}:wrong-answer", {"case": what, "problems": r.problems[:3], "ok": r.ok, "n": len(r.msgs), "error": r.error})
            return False
    rec.ev("routed")
    return True


def paths(rec, rng, idx):
    """Near-miss paths against one application."""
    sv = ["asgi", "wsgi"][idx % 2]
    svc = rng.choice(list(SVC))
    log: list = []
    app = app_of(svc, sv, log)
    proto, codec = rng.choice(list(E.PROTOS)), rng.choice(["proto", "json"])
    m = rng.choice(SVC[svc])
    w = wire(rng, svc, m, proto, codec)
    p = near(rng, w.path)
    if p and not p.startswith("/"):
        p = "/" + p
    target = None
    dec = unquote(p) or "/"
    if dec.startswith(PREFIX[svc] + "/") and dec[len(PREFIX[svc]) + 1:] in SVC[svc]:
        target = (svc, dec[len(PREFIX[svc]) + 1:])
        w = wire(rng, *target, proto, codec)
    w.path = p
    if rng.random() < 0.2:
        w.path += rng.choice(["?", "?x=1", "?message=1", "?/verif.v1.Probe/Unary"])
    if target is None and rng.random() < 0.2:
        w.method = rng.choice(["GET", "PUT", "HEAD", "OPTIONS", "DELETE"])
    cfg = E.Cfg(server=sv, plan=bridge.Plan(rng, http_version=rng.choice(["1.1", "2"])))
    ex = E.serve_raw(cfg, app, w)
    what = {"server": sv, "service": svc, "path": w.path, "proto": proto, "codec": codec, "method": w.method}
    if judge(rec, f"paths:{sv}", what, ex, log, target, proto, codec):
        rec.nontrivial((sv, svc, w.path, proto, w.method))
        rec.seen("routes", (sv, target))
        rec.sample(what)


def mount(rec, rng, idx):
    """Both services side by side, mounted the documented ways."""
    sv = ["asgi", "wsgi"][idx % 2]
    log: list = []
    apps = {s: app_of(s, sv, log) for s in SVC}
    style = ["own-path", "prefix", "raw"][(idx // 2) % 3]
    prefix = {"own-path": "", "prefix": rng.choice(["/api", "/a/b", "/verif", "/verif.v1", "/v1.Probe", "/Unary", "/%E6%97%A5", "/x y"]), "raw": ""}[style]
    svc = rng.choice(list(SVC))
    m = rng.choice(SVC[svc])
    proto, codec = rng.choice(list(E.PROTOS)), rng.choice(["proto", "json"])
    w = wire(rng, svc, m, proto, codec)
    target: tuple | None = (svc, m)
    plan = bridge.Plan(rng)
    host = None
    order = list(apps)
    rng.shuffle(order)
    if style == "own-path":
        if any(apps[s].path != PREFIX[s] for s in apps):
            rec.fail(f"mount:{sv}:path", {s: a.path for s, a in apps.items()})
            return
        if sv == "asgi":
            host = Starlette(routes=[Mount(apps[s].path, apps[s]) for s in order])
        else:
            host = DispatcherMiddleware(_not_found, {apps[s].path: apps[s] for s in order})
        bad = rng.random() < 0.3
        if bad:
            p = rng.choice([f"{PREFIX[svc]}/{rng.choice(['Nope', 'unary', 'Unary/', 'UnaryAl', ''])}", f"{PREFIX[svc]}X/{m}", f"/api{w.path}", f"/verif.v1.Prob/{m}"])
            dec = unquote(p)
            ok = [(s, x) for s in SVC for x in SVC[s] if dec == f"{PREFIX[s]}/{x}"]
            target = ok[0] if ok else None
            if target:
                w = wire(rng, *target, proto, codec)
            w.path = p
    elif style == "prefix":
        real = unquote(prefix)
        other = [s for s in order if s != svc][0]
        if sv == "asgi":
            routes = [Mount(real, apps[svc])]
            if rng.random() < 0.5:
                routes.append(Mount(apps[other].path, apps[other]))
            host = Starlette(routes=routes)
        else:
            host = DispatcherMiddleware(_not_found, {real.encode().decode("latin-1"): apps[svc], apps[other].path: apps[other]})
        w.path = prefix.replace(" ", "%20") + w.path
        if rng.random() < 0.3:
            p = rng.choice([w.path + "/", w.path[:-1], prefix.replace(" ", "%20") + "/" + m, prefix.replace(" ", "%20") + prefix.replace(" ", "%20") + f"{PREFIX[svc]}/{m}"])
            target = (svc, "Unary") if unquote(p) == real + PREFIX[svc] + "/Unary" else None
            if target:
                w = wire(rng, *target, proto, codec)
            w.path = p
    else:
        # servers that strip the prefix into root_path or SCRIPT_NAME themselves
        host = apps[svc]
        if sv == "asgi":
            plan.mount = rng.choice(["", "/api", "/a/b", PREFIX[svc], "/", "/" + m, "/v1", "/verif", "/verif.v1.Prob"])
            full = plan.mount != PREFIX[svc]
            w.path = (plan.mount.rstrip("/") if full else "") + w.path
            if plan.mount == "/":
                plan.mount = ""
            if plan.mount and full and rng.random() < 0.3:
                # somewhere else, however similar
                inner = w.path.removeprefix(plan.mount)
                mt = plan.mount
                w.path = rng.choice(["/" + "x" * (len(mt) - 1), "/" + mt[1:].upper(), mt + mt, mt + "x", "/x" + mt, mt[:-1], mt + "/"]) + inner
                if rng.random() < 0.25:
                    k = rng.randint(1, len(inner))  # in the middle
                    w.path = inner[:k] + mt + inner[k:]
                if w.path not in (inner, mt + inner):
                    target = None
        else:
            plan.mount = rng.choice(["", "/api", PREFIX[svc], "/" + m, "/verif"])
            w.path = (plan.mount if plan.mount != PREFIX[svc] else "") + w.path
        if rng.random() < 0.3:
            w.path += "/"
            target = None
    cfg = E.Cfg(server=sv, plan=plan)
    ex = E.serve_raw(cfg, host, w)
    what = {"server": sv, "style": style, "prefix": prefix, "mount": plan.mount, "path": w.path, "proto": proto, "codec": codec}
    if judge(rec, f"mount:{sv}:{style}", what, ex, log, target, proto, codec):
        rec.nontrivial(tuple(what.values()))
        rec.seen("mounts", (sv, style, prefix, plan.mount, target))
        rec.sample(what)


def _not_found(environ, start_response):
    start_response("404 Not Found", [("content-type", "text/plain")])
    return [b"not found"]


def ws(rng) -> str:
    return rng.choice(["", "", " ", "  ", "\t"])


PARAMS = ["charset=utf-8", "charset=UTF-8", 'charset="utf-8"', "version=1", "q=0.5", "boundary=x", 'a="b;c"', "charset=latin-1"]


def matrix(rec, rng, idx):
    """Content types of every class against every kind of RPC."""
    sv = ["asgi", "wsgi"][idx % 2]
    svc = rng.choice(list(SVC))
    m = rng.choice([x for x in SVC[svc] if x != "Nothing"])
    kind = KIND.get(m, "unary")
    proto, codec = rng.choice(list(E.PROTOS)), rng.choice(["proto", "json"])
    listed = rng.choice([["proto", "json"]] * 3 + [["proto"], ["json"]])
    w = wire(rng, svc, m, proto, codec)
    ct: str | None = R.content_type(proto, kind, codec)
    good = codec in listed
    k = rng.randrange(6)
    unary = kind in R.UNARY
    if k in (0, 1) and proto == "connect":
        if rng.random() < 0.6:
            ct = "".join(c.upper() if rng.random() < 0.4 else c for c in ct)
        for _ in range(rng.choice([0, 1, 1, 2])):
            ct += ws(rng) + ";" + ws(rng) + rng.choice(PARAMS)
        if rng.random() < 0.1:
            ct += rng.choice([";", " ;", "; "])
    elif k in (0, 1):
        if codec == "proto":
            ct = ct.removesuffix("+proto")
    elif k in (2, 3, 4):
        cts = ["text/plain", "application/", "application", "", None, "application/xml", "application/protobuf", "application/x-protobuf", "application/octet-stream",
               "application/proto2", "application/jso", "application/json5", "application/json+proto", "application/grpc+", "application/grpc+xml", "application/grpcx",
               "application/grpc-web+", "application/grpc-web+cbor", "application/grpc-web-text", "application/grpc-web-text+proto", "application/connect",
               "application/connect+", "application/connect+xml", "text/json", "text/proto", "xapplication/proto", "application/connect+connect+proto",
               "application//proto", "application/ proto", "*/*", "application/*", "application/proto,application/json", "application/grpc-proto", "application/jsonx"]
        cts += ["application/connect+proto", "application/connect+json"] if unary else ["application/proto", "application/json"]
        ct, good = rng.choice(cts), False
    hs = [h for h in w.headers if h[0] != "content-type"]
    if ct is not None:
        hs.append(("content-type", ct))
    w.headers = hs
    log: list = []
    mk = {"proto": proto_binary_codec, "json": proto_json_codec}
    kw = {} if len(listed) == 2 and rng.random() < 0.7 else {"codecs": iter([mk[c]() for c in listed]) if rng.random() < 0.3 else [mk[c]() for c in listed]}
    ex = E.serve_raw(E.Cfg(server=sv, plan=bridge.Plan(rng)), app_of(svc, sv, log, **kw), w)
    what = {"server": sv, "method": f"{svc}/{m}", "content_type": ct, "codecs": listed, "accepted": good}
    if good:
        if not judge(rec, f"matrix:{sv}", what, ex, log, (svc, m), proto, codec):
            return
        if len(log[0][4]) == 0 or log[0][4][0].id != "q0":
            rec.fail(f"matrix:{sv}:request", what)
            return
        got = [v for n, v in ex.resp()[1] if n == "content-type"]
        if got != [R.content_type(proto, kind, codec)]:
            rec.fail(f"matrix:{sv}:response-type", {"case": what, "got": got})
            return
    else:
        rec.ev("requests_judged")
        if ex.app_exc is not None or ex.monitor.bad:
            rec.fail(f"matrix:{sv}:exception", {"case": what, "exc": repr(ex.app_exc), "bad": ex.monitor.bad[:3]})
            return
        if ex.monitor.status != 415 or log:
            rec.fail(f"matrix:{sv}:not-415", {"case": what, "status": ex.monitor.status, "handlers": [x[:2] for x in log]})
            return
        rec.ev("refused_415")
    rec.nontrivial(tuple(map(str, what.values())))
    rec.seen("content_types", (ct, kind))
    rec.sample(what)


class UserCodec:
    """A codec as a user might supply it: not valid as any built-in one, notices damage."""

    def __init__(self, name: str, empty: bool = False) -> None:
        self._name, self.empty = name, empty
        self.encoded = self.decoded = 0
        self.classes: set = set()

    def name(self) -> str:
        return self._name

    def encode(self, message) -> bytes:
        self.encoded += 1
        b = message.to_binary()
        if not b and self.empty:
            return b""
        return b"\xff" + self._name.encode()[:1] + zlib.crc32(b).to_bytes(4, "big") + b[::-1]

    def decode(self, data, message_class):
        self.decoded += 1
        self.classes.add(message_class.__name__)
        data = bytes(data)
        if not data and self.empty:
            return message_class()
        b = data[6:][::-1]
        if data[:2] != b"\xff" + self._name.encode()[:1] or zlib.crc32(b).to_bytes(4, "big") != data[2:6]:
            raise ValueError("not mine")
        return message_class.from_binary(b)


NAMES = ["cbor", "x-thrift", "msgpack", "avro.v1", "flat_buf", "proto", "json", "proto3", "jsonb", "connect", "a"]


def codecs(rec, rng, idx):
    """User-supplied codecs in real clients and applications."""
    pair = E.PAIRS[idx % 4]
    proto = list(E.PROTOS)[(idx // 4) % 3]
    kind = E.KINDS[(idx // 12) % 5]
    if kind == "bidi" and pair not in E.FULL:
        return
    cfg = E.random_cfg(rng, proto=proto, pair=pair)
    name = rng.choice(NAMES)
    empty = rng.random() < 0.5
    mine = UserCodec(name, empty)
    cfg.client_codec = mine
    others = [UserCodec(n) for n in rng.sample([n for n in NAMES if n != name], rng.choice([0, 1, 3]))]
    listed = rng.random() < 0.75
    there = UserCodec(name, empty)
    sc = [*others, there] if listed else others
    rng.shuffle(sc)
    if not listed and rng.random() < 0.4 and name not in ("proto", "json"):
        cfg.server_codecs = None
    else:
        cfg.server_codecs = iter(sc) if rng.random() < 0.2 else sc
    reqs = [M.msg(rng) for _ in range(rng.choice([0, 1, 3]) if kind in E.STREAM_IN else 1)]
    outs = [M.out(rng) for _ in range(rng.choice([0, 1, 3]) if kind in E.STREAM_OUT else 1)]
    get = kind == "get" and rng.random() < 0.6
    spec = E.Spec(kind, reqs, use_get=get)
    script = ([("recvall",)] if kind in E.STREAM_IN else []) + [("send" if kind in E.STREAM_OUT else "ret", o) for o in outs]
    what = {**cfg.brief(), "kind": kind, "get": get, "codec": name, "listed": listed, "server_codecs": [c.name() for c in sc] if cfg.server_codecs is not None else None}
    t = E.run_one(cfg, script, spec)
    tag = f"codecs:{pair[0]}-{pair[1]}:{proto}"
    if O.hang(rec, t, tag, what):
        return
    O.contract(rec, t, tag, what)
    st, hs, _, _ = t.ex.resp()
    if not listed:
        rec.ev("unlisted")
        if t.calls or t.r.err is None or t.r.msgs or st not in ((415, 501) if get else (415,)):
            rec.fail(f"{tag}:unlisted", {"case": what, "status": st, "outcome": repr(t.r.outcome()), "calls": len(t.calls)})
            return
    else:
        if not O.delivered(rec, t, spec, outs, tag, what):
            return
        rec.ev("messages_through_user_codecs", len(reqs) + len(outs))
        nreq, nout = len(reqs), len(outs)
        if (mine.encoded, there.decoded, there.encoded, mine.decoded) != (nreq, nreq, nout, nout):
            rec.fail(f"{tag}:use", {"case": what, "client": (mine.encoded, mine.decoded), "server": (there.decoded, there.encoded), "messages": (nreq, nout)})
            return
        if there.classes - {"Msg"} or mine.classes - {"Out"}:
            rec.fail(f"{tag}:classes", {"case": what, "server": sorted(there.classes), "client": sorted(mine.classes)})
            return
        if any(c.encoded or c.decoded for c in others):
            rec.fail(f"{tag}:other-codec-used", what)
            return
        want = R.content_type(proto, kind, name)
        got = [v for k, v in hs if k == "content-type"]
        req = [v for k, v in t.ex.req_headers if k == "content-type"]
        on_get = get and proto == "connect"
        if got != [want] or (not on_get and req != [want]) or (on_get and f"encoding={name}" not in R.urlsplit(t.ex.url).query.split("&")):
            rec.fail(f"{tag}:label", {"case": what, "request": req, "response": got})
            return
    rec.nontrivial((cfg.key(), kind, get, name, listed, tuple(M.canons(reqs))))
    rec.seen("codecs", (name, proto, kind, pair, listed))
    rec.sample(what)


def mismatch(rec, rng, idx):
    """A response in another codec than the request's is not taken for one in it."""
    cl = ["async", "sync"][idx % 2]
    proto = list(E.PROTOS)[(idx // 2) % 3]
    kind = E.KINDS[(idx // 6) % 5]
    cfg = E.random_cfg(rng, proto=proto, pair=(cl, "asgi" if cl == "async" else "wsgi"))
    cfg.codec = rng.choice(["proto", "json"])
    if rng.random() < 0.3:
        cfg.client_codec = UserCodec(rng.choice(["cbor", "protox", "jso"]))
    mine = cfg.client_codec.name() if cfg.client_codec else cfg.codec
    other = rng.choice([c for c in ["proto", "json"] if c != mine])
    label = rng.choice([c for c in ["proto", "json", "cbor", "prot", "protoo", "jsonx", "x" + mine, "x-" + mine, mine + "x", mine + "." + mine, mine[1:], mine[:-1],
                                    mine + "+" + mine, "x+" + mine, mine + "+x"] if c != mine])
    # what the body really is must not matter
    w = R.response(proto, kind, rng.choice([other, cfg.codec]), [M.Out(id="r", seq=5)])
    w.headers = [(k, R.content_type(proto, kind, label) if k == "content-type" else v) for k, v in w.headers]
    if proto != "connect" and label == "proto" and rng.random() < 0.3:
        w.headers = [(k, v.removesuffix("+proto") if k == "content-type" else v) for k, v in w.headers]
    t = E.run_fake(cfg, R.Fake.of(w), E.Spec(kind, [M.Msg(id="q")]))
    what = {**cfg.brief(), "kind": kind, "codec": mine, "content_type": [v for k, v in w.headers if k == "content-type"]}
    if O.hang(rec, t, "mismatch", what):
        return
    rec.ev("mismatches")
    if t.r.err is None or t.r.msgs:
        rec.fail(f"mismatch:{cl}:{proto}:accepted", {"case": what, "outcome": repr(t.r.outcome()), "messages": len(t.r.msgs)})
        return
    rec.nontrivial((cl, proto, kind, mine, label))
    rec.sample(what)


WORKLOADS = {
    "paths": Workload(paths, 8000, 160000),
    "mount": Workload(mount, 4800, 80000),
    "matrix": Workload(matrix, 8000, 160000),
    "codecs": Workload(codecs, 4800, 80000),
    "mismatch": Workload(mismatch, 1800, 30000),
}
_ = O
