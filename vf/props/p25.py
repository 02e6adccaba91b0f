"""P25: RPCs with a single request or response enforce exactly one."""
from __future__ import annotations

from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import ref as R
from ..bridge import Plan
from ..core import Workload
from ..gen.verif_pb import Msg, Out

ID = "P25"
RULE = ("A case sends a body with a chosen number of messages (none, one, two, many; empty, zero-byte or compressed ones among them; in any chunks) to a real "
        "application, or answers a real client with one, and compares the outcome with the number the RPC kind allows, then makes a normal call on the same "
        "application or client. Non-trivial: every case; distinct by kind, protocol, codec, counts, sizes, compression and chunks.")
ASSUME = ["a Connect unary body is always exactly one message, also when it has no bytes"]

S_KINDS = ["unary", "get", "idem", "server_stream", "watch", "client_stream", "bidi"]
SINGLE_IN = {"unary", "get", "idem", "server_stream", "watch"}
SINGLE_OUT = {"unary", "get", "idem", "client_stream"}
COUNTS = [0, 1, 2, 3, 17]


def bodies(rng, cls, n, codec):
    """Messages, some of which encode to nothing."""
    mk = M.msg if cls is Msg else M.out
    style = rng.randint(0, 3)
    if style == 0:
        return [cls() for _ in range(n)]
    if style == 1:
        m = mk(rng)
        return [m] * n
    return [cls() if rng.random() < 0.3 else mk(rng) for _ in range(n)]


def chunked(rng, body):
    k = rng.randint(0, 4)
    if k == 0:
        return None
    if k == 1:
        return [body[i:i + 1] for i in range(len(body))][:4000] + [body[4000:]]
    if k == 2:  # one message at a time
        out, p = [], 0
        for f, d in R.envs(body)[0]:
            out.append(body[p:p + 5 + len(d)])
            p += 5 + len(d)
        return [*out, body[p:]] if p < len(body) else out
    if k == 3:  # prefix and payload apart
        out, p = [], 0
        for f, d in R.envs(body)[0]:
            out += [body[p:p + 5], body[p + 5:p + 5 + len(d)]]
            p += 5 + len(d)
        return [x for x in [*out, body[p:]] if x]
    return [x for x in (body[i:i + 7] for i in range(0, len(body), 7))]


def combos(kinds):
    return [(p, k, n) for p in E.PROTOS for k in kinds for n in COUNTS if R.enveloped(p, k)]


S_COMBOS = combos(S_KINDS)
C_COMBOS = combos(["unary", "get", "idem", "client_stream", "server_stream", "watch", "bidi"])


def server(rec, rng, idx):
    p, k, n = S_COMBOS[idx % len(S_COMBOS)]
    cfg = E.random_cfg(rng, proto=p, pair=rng.choice(E.FULL))
    cfg.server_comps = ["gzip", "br", "zstd"]
    ins = bodies(rng, Msg, n, cfg.codec)
    comp = rng.choice([None, None, "gzip", "zstd"])
    w = R.request(p, k, cfg.codec, ins, comp=comp, accept="gzip", per_msg=[rng.random() < 0.6 for _ in ins])
    if n == 0 and rng.random() < 0.3:
        w.headers.append(("content-length", "0"))
    outs = [M.out(rng) for _ in range(3 if k in E.STREAM_OUT else 1)]
    log = E.Log()
    script = ([("recvall",)] if k in E.STREAM_IN else []) + ([("send", o) for o in outs] if k in E.STREAM_OUT else [("ret", outs[0])])
    app = E.build_app(cfg, E.as_pick(script), log)
    chunks = chunked(rng, w.body)
    ex = E.serve_raw(cfg, app, w, chunks=chunks)
    wr = E.wire_resp(ex)
    what = {"proto": p, "kind": k, "codec": cfg.codec, "server": cfg.server, "n": n, "sizes": [len(d) for _, d in R.envs(w.body)[0]], "comp": comp, "chunks": chunks and len(chunks)}
    s = R.read_response(p, k, cfg.codec, wr)
    tag = f"server:{p}:{k}:{'none' if n == 0 else 'one' if n == 1 else 'many'}"
    if not rec.check(not s.problems, f"{tag}:response", lambda: {"case": what, "problems": s.problems[:4], "response": repr(wr)[:400]}):
        return
    rec.ev("requests_refused" if not s.ok else "requests_accepted")
    if k in SINGLE_IN and n != 1:
        rec.check(not s.ok and s.error is not None and s.error[0] == "unimplemented", f"{tag}:not-refused", lambda: {"case": what, "ok": s.ok, "error": s.error})
        rec.check(s.msgs == [], f"{tag}:handler-result-returned", lambda: {"case": what, "messages": len(s.msgs)})
        if k not in E.STREAM_OUT:
            rec.check(not log.calls, f"{tag}:handler-ran", what)
        elif log.calls:
            rec.ev("handler_started_but_unheard")
    else:
        if not rec.check(s.ok and len(log.calls) == 1, f"{tag}:refused", lambda: {"case": what, "error": s.error, "calls": len(log.calls)}):
            return
        rec.check(M.canons(log.calls[0].reqs) == M.canons(ins), f"{tag}:requests", lambda: {"case": what, **O.diff(M.canons(ins), M.canons(log.calls[0].reqs))})
        rec.check(s.msgs == M.canons(outs), f"{tag}:responses", lambda: {"case": what, **O.diff(M.canons(outs), s.msgs)})
    if ex.monitor is not None:
        rec.check(not ex.monitor.bad, f"{tag}:contract", lambda: {"case": what, "bad": ex.monitor.bad[:3]})
    # the application goes on
    log.calls.clear()
    w2 = R.request(p, k, cfg.codec, [Msg()])
    s2 = R.read_response(p, k, cfg.codec, E.wire_resp(E.serve_raw(cfg, app, w2)))
    rec.check(s2.ok and len(log.calls) == 1 and s2.msgs == M.canons(outs), f"{tag}:next-call", lambda: {"case": what, "next": repr(s2)[:300]})
    rec.nontrivial((p, k, cfg.codec, cfg.server, n, M.canons(ins), comp, chunks and len(chunks)))
    rec.sample(what)


def client(rec, rng, idx):
    p, k, n = C_COMBOS[idx % len(C_COMBOS)]
    cfg = E.random_cfg(rng, proto=p, pair=rng.choice(E.FULL))
    cfg.accept = ["gzip", "br", "zstd"]
    outs = bodies(rng, Out, n, cfg.codec)
    comp = rng.choice([None, None, "gzip", "br"])
    error = (rng.choice(R.CODES), "e", ()) if rng.random() < 0.25 else None
    w = R.response(p, k, cfg.codec, outs, comp=comp, per_msg=[rng.random() < 0.6 for _ in outs], error=error, trailers_only=rng.random() < 0.5)
    chunks = chunked(rng, w.body) or [w.body]
    steps: list = []
    for c in chunks:
        steps.append(c)
        if len(chunks) < 40 and rng.random() < 0.3:
            steps.append(("sleep", 0.01))
    ins = [M.msg(rng) for _ in range(rng.choice([0, 1, 3]) if k in E.STREAM_IN else 1)]
    good = R.Fake.of(R.response(p, k, cfg.codec, [Out()]))
    it = iter([R.Fake.of(w, steps=steps), good])
    t = E.run_fake(cfg, lambda got: next(it), [E.Spec(k, ins), E.Spec(k, [Msg()])])
    what = {"proto": p, "kind": k, "codec": cfg.codec, "client": cfg.client, "n": n, "sizes": [len(d) for _, d in R.envs(w.body)[0]], "comp": comp, "chunks": len(chunks), "status": error and error[0]}
    tag = f"client:{p}:{k}:{'none' if n == 0 else 'one' if n == 1 else 'many'}{':error' if error else ''}"
    if O.hang(rec, t, tag, what, 2):
        return
    r = t.res[0]
    o = r.outcome()
    rec.ev("responses_refused" if o[0] != "ok" else "responses_accepted")
    if k not in SINGLE_OUT:
        want = ("ok",) if error is None else ("err", error[0], "e", ())
        rec.check(o == want and M.canons(r.msgs) == M.canons(outs), f"{tag}:stream", lambda: {"case": what, "got": repr(o)[:300], "messages": len(r.msgs)})
    elif n == 1:
        want = ("ok",) if error is None else ("err", error[0], "e", ())
        rec.check(o == want and M.canons(r.msgs) == (M.canons(outs) if error is None else []), f"{tag}:outcome", lambda: {"case": what, "got": repr(o)[:300], "messages": len(r.msgs)})
    elif error is not None and n == 0:
        rec.check(o == ("err", error[0], "e", ()), f"{tag}:outcome", lambda: {"case": what, "got": repr(o)[:300]})
    elif error is not None:  # refused for either reason
        rec.check(o[0] == "err" and o[1] in (error[0], "unimplemented"), f"{tag}:outcome", lambda: {"case": what, "got": repr(o)[:300]})
    else:
        rec.check(o[0] == "err" and o[1] == "unimplemented" and not r.msgs, f"{tag}:not-refused", lambda: {"case": what, "got": repr(o)[:300], "messages": len(r.msgs)})
    r2 = t.res[1]
    rec.check(r2.ok and len(r2.msgs) == 1, f"{tag}:next-call", lambda: {"case": what, "next": repr(r2.outcome())[:300]})
    rec.nontrivial((p, k, cfg.codec, cfg.client, n, M.canons(outs), comp, len(chunks), error))
    rec.sample(what)


def plain(rec, rng, idx):
    """Connect unary: the body is the message, and no bytes are a message."""
    k = rng.choice(["unary", "get", "idem"])
    codec = "proto"
    cfg = E.Cfg(proto="connect", codec=codec, server=rng.choice(["asgi", "wsgi"]), plan=Plan.random(rng))
    cfg.client = "async" if cfg.server == "asgi" else "sync"
    o = rng.choice([Out(), M.out(rng)])
    log = E.Log()
    app = E.build_app(cfg, E.as_pick([("ret", o)]), log)
    get = k == "get" and rng.random() < 0.5
    w = R.request("connect", k, codec, [Msg()], get=get)
    if not get and rng.random() < 0.5:
        w.headers.append(("content-length", "0"))
    ex = E.serve_raw(cfg, app, w)
    s = R.read_response("connect", k, codec, E.wire_resp(ex))
    what = {"kind": k, "get": get, "server": cfg.server, "empty_answer": M.canon(o) == M.canon(Out())}
    rec.check(s.ok and not s.problems and s.msgs == [M.canon(o)] and len(log.calls) == 1 and M.canons(log.calls[0].reqs) == M.canons([Msg()]), "connect:unary:empty-body", lambda: {"case": what, "seen": repr(s)[:300]})
    t = E.run_fake(cfg, R.Fake.of(R.response("connect", k, codec, [o])), E.Spec(k, [Msg()], use_get=get))
    if O.hang(rec, t, "connect:unary", what):
        return
    rec.check(t.r.ok and M.canons(t.r.msgs) == [M.canon(o)], "connect:unary:client-empty-body", lambda: {"case": what, "got": repr(t.r.outcome())})
    rec.nontrivial((k, get, cfg.server, M.canon(o)))


WORKLOADS = {
    "server": Workload(server, 30 * len(S_COMBOS), 1000 * len(S_COMBOS)),
    "client": Workload(client, 30 * len(C_COMBOS), 1000 * len(C_COMBOS)),
    "plain": Workload(plain, 400, 4000),
}
