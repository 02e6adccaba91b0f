"""P05: headers and trailers arrive complete and are not mixed up."""
from __future__ import annotations

from connectrpc.client import ResponseMetadata
from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.request import Headers

from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import ref as R
from .. import vloop, vtime
from ..bridge import Plan
from ..core import Workload

ID = "P05"
RULE = ("A case is one or more RPCs with generated request headers, response headers and trailers; the multimaps recorded at the "
        "handler and at the caller are compared with what was set. Non-trivial: at least one value crossed; distinct by "
        "configuration, RPC kind, outcome and the multimaps.")
ASSUME = ["names are tokens the protocols do not reserve, values visible ASCII without outer spaces",
          "WSGI joins repeated request headers with commas before the library sees them, and folds underscores"]

KINDS = ["unary", "get", "GET", "idem", "client_stream", "server_stream", "bidi", "watch"]


def user(items, reserved) -> dict:
    return {k: v for k, v in E.mm(items).items() if k not in reserved}


def same_req(cfg, want: dict, got: dict) -> bool:
    if cfg.server == "asgi":
        return want == got
    if set(want) != set(got):
        return False
    return all(got[k] == v or got[k] == [",".join(v)] or got[k] == [", ".join(v)] for k, v in want.items())


def gen(rng, cfg, n=None):
    items = E.metadata(rng, rng.choice(["", "", "q-"]), n)
    if cfg.server == "wsgi":
        items = [(k, v) for k, v in items if "_" not in k]
    return items


def caller_headers(rng, items):
    """(object to pass, the multimap it means)"""
    how = rng.choice(["Headers", "Headers", "dict", "upper", "none"])
    if how == "none" and not items:
        return None, {}
    if how == "dict":
        d = {k.title() if rng.random() < 0.3 else k: v for k, v in items}
        low: dict = {}
        for k, v in d.items():
            low[k.lower()] = [v]
        if len(low) != len(d):
            d = {k: v[0] for k, v in low.items()}
        return d, low
    if how == "upper":
        return Headers([(k.upper(), v) for k, v in items]), E.mm(items)
    return E.to_headers(items), E.mm(items)


def snapshot(h):
    if h is None:
        return None
    return list(h.allitems()) if isinstance(h, Headers) else dict(h)


def make_call(rng, cfg, kind):
    k = "get" if kind == "GET" else kind
    obj, want_req = caller_headers(rng, gen(rng, cfg))
    ins = [M.msg(rng) for _ in range(rng.choice([0, 1, 3]) if k in E.STREAM_IN else 1)]
    if obj is not None and rng.random() < 0.2:  # a name the library has a default for
        obj["User-Agent" if rng.random() < 0.5 else "user-agent"] = rng.choice(["mine/1.0", "a b/2 (c; d)", "x", ""])
    spec = E.Spec(k, ins, headers=obj, use_get=kind == "GET")
    hdr, trl = gen(rng, cfg), gen(rng, cfg)
    if rng.random() < 0.1 and (cfg.proto != "connect" or k in E.STREAM_IN or k in E.STREAM_OUT):
        # only unary Connect gives names with this prefix a meaning
        hdr = [("trailer-" + n if rng.random() < 0.5 else n, v) for n, v in hdr]
    if rng.random() < 0.1:
        trl = [("trailer-" + n if rng.random() < 0.5 else n, v) for n, v in trl]
    if rng.random() < 0.3 and hdr:  # the same names as header and as trailer
        trl = [(n, "t-" + str(i)) for i, (n, _) in enumerate(hdr)]
    outcome = rng.choice(["ok", "ok", "error", "boom"])
    n = rng.choice([0, 1, 3]) if k in E.STREAM_OUT else (1 if outcome == "ok" else 0)
    outs = [M.out(rng) for _ in range(n)]
    s: list = []
    # some handlers keep the containers from the start and fill them through that reference
    held = rng.random() < 0.3
    via = lambda: ("held",) if held and rng.random() < 0.6 else ()  # noqa: E731
    first = [("hdr", *h, *via()) for h in hdr]
    later = [("trl", *h, *via()) for h in trl]
    cut = rng.randint(0, len(later))
    first += later[:cut]
    # interleave, keeping the order within each
    if k in E.STREAM_IN:
        first.insert(rng.randint(0, len(first)), rng.choice([("recvall",), ("recv",)]) if outcome != "ok" else ("recvall",))
    spec.vary = rng.random() < 0.15  # a name the library itself sets in some responses
    if spec.vary:
        first.append(("hdr", rng.choice(["vary", "Vary"]), "x-origin"))
    if held:
        s += [("hold",)] * rng.choice([1, 2])
    s += first
    if k in E.STREAM_OUT:
        s += [("send", o) for o in outs]
        s += later[cut:]
    else:
        s += later[cut:]
        s += [("ret", o) for o in outs]
    if outcome == "error":
        e = ConnectError(rng.choice(list(Code)), "e", details=[M.msg(rng)] if rng.random() < 0.3 else ())
        s.append(("raise", lambda: e))
    elif outcome == "boom":
        s.append(("raise", lambda: E.Boom("x")))
    return spec, s, want_req, E.mm(hdr), E.mm(trl), outcome


def judge(rec, cfg, kind, spec, snap, want_req, want_h, want_t, outcome, r, call, what) -> bool:
    if snapshot(spec.headers) != snap:
        rec.fail(f"{cfg.client}:caller-headers-changed", {"case": what, "before": repr(snap)[:300], "after": repr(snapshot(spec.headers))[:300]})
        return False
    if (outcome == "ok") != r.ok:
        rec.fail(f"{kind}:outcome", {"case": what, "outcome": repr(r.outcome())})
        return False
    got = user(call.headers, R.RESERVED_REQ)
    rec.ev("request_values", sum(map(len, want_req.values())))
    if not same_req(cfg, want_req, got):
        rec.fail(f"{cfg.proto}:{cfg.server}:request-headers", {"case": what, "set": want_req, "seen": got})
        return False
    own = [v for k, v in (spec.headers.items() if spec.headers is not None else ()) if k.lower() == "user-agent"]
    agents = [v for k, v in call.headers if k.lower() == "user-agent"]
    if agents != own if own else len(agents) != 1:
        rec.fail(f"{cfg.proto}:{cfg.client}:user-agent", {"case": what, "set": own, "seen": agents})
        return False
    vary = [v for k, v in r.headers if k.lower() == "vary"]
    if spec.vary and "x-origin" not in vary:
        rec.fail(f"{cfg.proto}:{cfg.server}:{cfg.client}:vary", {"case": what, "set": "x-origin", "seen": vary})
        return False
    h, t = user(r.headers, R.RESERVED_RESP), user(r.trailers, R.RESERVED_RESP)
    rec.ev("header_values", sum(map(len, want_h.values())))
    rec.ev("trailer_values", sum(map(len, want_t.values())))
    if h != want_h:
        rec.fail(f"{cfg.proto}:{cfg.server}:{cfg.client}:response-headers", {"case": what, "set": want_h, "seen": h, "trailers": t})
        return False
    if t != want_t:
        rec.fail(f"{cfg.proto}:{cfg.server}:{cfg.client}:response-trailers", {"case": what, "set": want_t, "seen": t, "headers": h})
        return False
    if r.headers_after_first is not None and user(r.headers_after_first, R.RESERVED_RESP) != want_h:
        rec.fail(f"{cfg.proto}:headers-not-with-first-message", {"case": what, "set": want_h, "seen": user(r.headers_after_first, R.RESERVED_RESP)})
        return False
    return True


MATRIX = [(p, k, pair) for p in E.PROTOS for k in KINDS for pair in E.PAIRS]


def one(rec, rng, idx):
    p, kind, pair = MATRIX[idx % len(MATRIX)]
    cfg = E.random_cfg(rng, proto=p, pair=pair)
    spec, script, wq, wh, wt, outcome = make_call(rng, cfg, kind)
    snap = snapshot(spec.headers)
    what = {**cfg.brief(), "kind": kind, "outcome": outcome}
    t = E.run_one(cfg, script, spec)
    if O.hang(rec, t, kind, what):
        return
    if not rec.check(len(t.calls) == 1, f"{kind}:handler-calls", lambda: {"case": what, **E.describe(t)}):
        return
    if judge(rec, cfg, kind, spec, snap, wq, wh, wt, outcome, t.r, t.call, what):
        if wq or wh or wt:
            rec.nontrivial((cfg.key(), kind, outcome, repr((wq, wh, wt))))
    rec.sample({**what, "request": wq, "headers": wh, "trailers": wt})


class Adds:
    """Adds headers to the calls it sees, which come one after another."""

    def __init__(self, added) -> None:
        self.it = iter(added)

    async def on_start(self, ctx):
        for n, v in next(self.it):
            ctx.request_headers.add(n, v)

    async def on_end(self, token, ctx, error):
        pass


class AddsSync(Adds):
    on_start = on_end = None  # type: ignore[assignment]

    def on_start_sync(self, ctx):
        for n, v in next(self.it):
            ctx.request_headers.add(n, v)

    def on_end_sync(self, token, ctx, error):
        pass


def session(rec, rng, idx):
    """Several calls through one client and application, and one headers object for all of them."""
    cfg = E.random_cfg(rng)
    calls = []
    for _ in range(rng.randint(3, 8)):
        kind = rng.choice(KINDS)
        calls.append((kind, *make_call(rng, cfg, kind)))
    if rng.random() < 0.5:
        obj, want = caller_headers(rng, gen(rng, cfg))
        calls = [(k, _with(spec, obj), s, want, wh, wt, o) for k, spec, s, _, wh, wt, o in calls]
    # what belongs to one call alone: a timeout, and headers added on the way by an interceptor
    added = []
    for j, (kind, spec, s, want, wh, wt, o) in enumerate(calls):
        if rng.random() < 0.4:
            spec.timeout_ms = rng.choice([60000, 3600000])
        add = [(rng.choice(["x-added", f"x-added-{j}", "x-a"]), f"i{j}")] if rng.random() < 0.4 else []
        added.append(add)
        if add:
            want = {k: list(v) for k, v in want.items()}
            for n, v in add:
                want.setdefault(n, []).append(v)
            calls[j] = (kind, spec, s, want, wh, wt, o)
    cfg.client_interceptors = [(Adds if cfg.client == "async" else AddsSync)(added)]
    snaps = [snapshot(c[1].headers) for c in calls]
    it = iter([c[2] for c in calls])
    t = E.run_many(cfg, lambda name, req, ctx: next(it), [c[1] for c in calls])
    what = {**cfg.brief(), "session": [(c[0], c[6]) for c in calls]}
    if O.hang(rec, t, "session", what, len(calls)):
        return
    if not rec.check(len(t.calls) == len(calls), "session:handler-calls", lambda: {"case": what, **E.describe(t)}):
        return
    for i, (kind, spec, s, wq, wh, wt, o) in enumerate(calls):
        announced = [v for k, v in t.calls[i].headers if k.lower() in ("connect-timeout-ms", "grpc-timeout")]
        if len(announced) != (spec.timeout_ms is not None):
            rec.fail(f"session:{cfg.proto}:timeout-header", {"case": {**what, "call": i}, "timeout_ms": spec.timeout_ms, "seen": announced})
            return
        if not judge(rec, cfg, kind, spec, snaps[i], wq, wh, wt, o, t.res[i], t.calls[i], {**what, "call": i}):
            return
    rec.nontrivial((cfg.key(), [c[0] for c in calls], repr([c[3:6] for c in calls])))


def _with(spec, obj):
    spec.headers = obj
    return spec


def from_wire(rec, rng, idx):
    """Metadata written by an independent server, read by the client."""
    cfg = E.random_cfg(rng, pair=rng.choice(E.FULL))
    k = rng.choice(["unary", "get", "client_stream", "server_stream", "bidi"])
    hdr, trl = E.metadata(rng), E.metadata(rng)
    err = rng.choice([None, None, ("not_found", "m", ()), ("internal", "", (("a.b", b"x"),))])
    n = rng.choice([0, 1, 2]) if k in E.STREAM_OUT else (0 if err else 1)
    only = rng.random() < 0.4 and n == 0 and R.enveloped(cfg.proto, k)
    comp = rng.choice([None, None, "identity", *(["gzip"] if cfg.accept is None else cfg.accept)])
    w = R.response(cfg.proto, k, cfg.codec, [M.out(rng) for _ in range(n)], comp=comp, headers=hdr, trailers=trl, error=err, trailers_only=only)
    only = only and not w.body
    t = E.run_fake(cfg, R.Fake.of(w, Plan(rng).split(w.body, rng.choice(["asis", "random", "bytes"]))), E.Spec(k, [M.msg(rng)]))
    what = {**cfg.brief(), "kind": k, "error": err and err[0], "trailers_only": only, "comp": comp, "headers": E.mm(hdr), "trailers": E.mm(trl)}
    if O.hang(rec, t, "wire", what):
        return
    if not rec.check(t.r.ok == (err is None), "wire:outcome", lambda: {"case": what, **E.describe(t)}):
        return
    h, tr = user(t.r.headers, R.RESERVED_RESP), user(t.r.trailers, R.RESERVED_RESP)
    rec.ev("values", sum(map(len, E.mm(hdr + trl).values())))
    if only:
        # headers and trailers are one block: every value is visible as trailer
        want = E.mm(hdr + trl)
        rec.check(tr == want, f"wire:{cfg.proto}:trailers-only", lambda: {"case": what, "seen": tr})
    else:
        rec.check(h == E.mm(hdr), f"wire:{cfg.proto}:{k}:headers", lambda: {"case": what, "seen": h})
        rec.check(tr == E.mm(trl), f"wire:{cfg.proto}:{k}:trailers", lambda: {"case": what, "seen": tr})
    rec.nontrivial((cfg.key(), k, err, repr((hdr, trl)), only))


def to_wire(rec, rng, idx):
    """Metadata sent by an independent client to the application, and its answer on the wire."""
    cfg = E.random_cfg(rng, pair=rng.choice(E.FULL))
    k = rng.choice(["unary", "get", "idem", "client_stream", "server_stream", "bidi"])
    spec, script, wq, wh, wt, outcome = make_call(rng, cfg, k)
    items = [(n, v) for n, vs in wq.items() for v in vs]
    w = R.request(cfg.proto, k, cfg.codec, spec.msgs, headers=items)
    log = E.Log()
    app = E.build_app(cfg, E.as_pick(script), log)
    ex = E.serve_raw(cfg, app, w)
    what = {**cfg.brief(), "kind": k, "outcome": outcome}
    if not rec.check(len(log.calls) == 1, "to-wire:handler-calls", lambda: {"case": what, "resp": repr(ex.resp())[:300]}):
        return
    got = user(log.calls[0].headers, R.RESERVED_REQ)
    rec.check(same_req(cfg, wq, got), f"to-wire:{cfg.server}:request-headers", lambda: {"case": what, "sent": wq, "seen": got})
    s = R.read_response(cfg.proto, k, cfg.codec, E.wire_resp(ex))
    rec.check(s.headers == wh, f"to-wire:{cfg.server}:{cfg.proto}:headers", lambda: {"case": what, "set": wh, "wire": s.headers, "trailers": s.trailers})
    rec.check(s.trailers == wt, f"to-wire:{cfg.server}:{cfg.proto}:trailers", lambda: {"case": what, "set": wt, "wire": s.trailers, "headers": s.headers})
    rec.ev("values", sum(map(len, [*wq.values(), *wh.values(), *wt.values()])))
    rec.nontrivial((cfg.key(), k, outcome, repr((wq, wh, wt))))


def scopes(rec, rng, idx):
    """Blocks capturing metadata, one after another and nested, left normally or by an error, with calls inside and outside:
    every call's metadata is in the innermost block open when it was made, and nowhere else."""
    cfg = E.random_cfg(rng)
    is_async = cfg.client == "async"
    blocks: list = []    # (ResponseMetadata, cids of the calls it captures)
    made: list = []
    kinds = ["unary", "get", "client_stream", "server_stream", "bidi"]

    def plan(depth):
        out = []
        for _ in range(rng.randint(1, 3)):
            if depth < 3 and rng.random() < 0.45:
                out.append(("block", rng.random() < 0.4, plan(depth + 1)))
            else:
                out.append(("call", rng.choice(kinds), rng.random() < 0.4))
        return out

    shape = [("block", rng.random() < 0.4, plan(1)), *plan(0)]

    def script(name, req, ctx):
        cid = ctx.request_headers["x-cid"]
        fails = ctx.request_headers["x-fails"] == "1"
        s = [("recvall",)] * (name in E.STREAM_IN) + [("hdr", "x-h", cid), ("trl", "x-t", cid)]
        if fails:
            return [*s, ("raise", lambda: ConnectError(Code.ABORTED, cid))]
        return [*s, ("send" if name in E.STREAM_OUT else "ret", M.Out(id=cid))]

    class Leave(Exception):
        pass

    def call(kind, fails, captures):
        cid = f"c{len(made)}"
        made.append(cid)
        if captures is not None:
            captures.append(cid)
        return E.Spec(kind, [M.Msg(id=cid)], headers={"x-cid": cid, "x-fails": "1" if fails else "0"}, cid=cid)

    async def arun(client, steps, captures):
        for st in steps:
            if st[0] == "call":
                await E.acall(client, call(st[1], st[2], captures), meta=False)
            else:
                mine: list = []
                try:
                    with ResponseMetadata() as rm:
                        blocks.append((rm, mine))
                        await arun(client, st[2], mine)
                        if st[1]:
                            raise Leave
                except Leave:
                    pass

    def srun(client, steps, captures):
        for st in steps:
            if st[0] == "call":
                E.scall(client, call(st[1], st[2], captures), meta=False)
            else:
                mine: list = []
                try:
                    with ResponseMetadata() as rm:
                        blocks.append((rm, mine))
                        srun(client, st[2], mine)
                        if st[1]:
                            raise Leave
                except Leave:
                    pass

    log = E.Log()
    app = E.build_app(cfg, script, log)
    tr = E.build_transport(cfg, app)
    if is_async:
        rep = vloop.run(lambda: arun(E.build_client(cfg, tr), shape, None))
        if rep.exc is not None:
            raise rep.exc
        if rep.deadlock:
            rec.fail("scopes:hang", {"case": cfg.brief(), "stacks": rep.stacks})
            return
    else:
        with vtime.activate(vtime.Clock()), vloop.cpu_guard():
            srun(E.build_client(cfg, tr), shape, None)
    what = {**cfg.brief(), "shape": repr(shape), "calls": len(made)}
    rec.check(len(log.calls) == len(made), "scopes:handler-calls", lambda: {"case": what, "calls": len(log.calls)})
    for rm, mine in blocks:
        h, t = rm.headers.getall("x-h"), rm.trailers.getall("x-t")
        rec.ev("blocks_judged")
        # several calls in one block: the last one's, possibly after those before it
        bad = [v for v in [*h, *t] if v not in mine]
        if bad or (mine and (mine[-1] not in h or mine[-1] not in t)):
            rec.fail(f"scopes:{cfg.client}:{cfg.proto}:{'other-calls-metadata' if bad else 'own-metadata-missing'}", {"case": what, "calls_in_block": mine, "headers": list(h), "trailers": list(t)})
            return
    rec.nontrivial((cfg.key(), repr(shape)))


WORKLOADS = {
    "scopes": Workload(scopes, 1500, 20000),
    "one": Workload(one, len(MATRIX) * 50, len(MATRIX) * 600),
    "session": Workload(session, 1000, 12000),
    "from_wire": Workload(from_wire, 3000, 40000),
    "to_wire": Workload(to_wire, 3000, 40000),
}
