"""P03: a truncated or aborted exchange never looks like success."""
from __future__ import annotations

from pyqwest import ReadError, StreamError, StreamErrorCode, WriteError

from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import ref as R
from .. import vtime
from ..bridge import Plan
from ..core import Workload

ID = "P03"
LEVEL = "fault_enumeration"
RULE = ("A case injects one fault: a response or request cut at an offset in some way (clean end, reset, read error, disconnect), "
        "or the application cancelled or its sends failing at a step. The monitor requires an error at the consumer, at most the "
        "complete messages before the cut, and no success on the wire unless everything was sent. Non-trivial: something that "
        "the protocol requires was missing; distinct by configuration, kind, offset and way of cutting.")
ASSUME = ["a Connect unary body ended cleanly but too early is detected by HTTP (content-length, chunking), not by this library; "
          "those cuts are injected as transport errors"]

CODES = [c for c in dir(StreamErrorCode) if c.isupper()]


def faults(rng):
    return [("end", lambda: None), ("read-error", lambda: ReadError("connection closed")), ("oserror", lambda: ConnectionResetError("reset")),
            ("timeout", lambda: TimeoutError("timed out")), ("runtime", lambda: RuntimeError("transport bug"))] + \
           [("rst-" + c, lambda c=c: StreamError("stream reset", getattr(StreamErrorCode, c))) for c in CODES]


KINDS = ["unary", "get", "client_stream", "server_stream", "bidi"]
# protocol x kind x codec x client; every offset of the body is enumerated inside the case
MATRIX = [(p, k, c, cl) for p in E.PROTOS for k in KINDS for c in ("proto", "json") for cl in ("async", "sync")]


def client_cut(rec, rng, idx):
    """Every offset of one response, with several ways of cutting at each."""
    p, k, codec, cl = MATRIX[idx % len(MATRIX)]
    comp = rng.choice([None, "gzip", "br", "zstd"])
    if p == "connect" and not R.enveloped(p, k):
        comp = None
    n = rng.choice([1, 2, 3]) if k in E.STREAM_OUT else 1
    ms = [M.out(rng, size=rng.choice([0, 1, 9])) if rng.random() < 0.6 else M.Out() for _ in range(n)]
    w = R.response(p, k, codec, ms, comp=comp, trailers=[("x-t", "1")], headers=[("x-h", "2")])
    cfg = E.Cfg(proto=p, codec=codec, client=cl, accept=["gzip", "br", "zstd"])
    env = R.enveloped(p, k)
    canon = M.canons(ms)
    ends, pos = [], 0
    if env:
        for _, d in R.envs(w.body)[0]:
            pos += 5 + len(d)
            ends.append(pos)
    fs = faults(rng)
    offsets = list(range(len(w.body) + 1))
    if len(offsets) > 90:
        offsets = sorted(set(rng.sample(offsets, 60) + [x for e in ends for x in (e - 1, e, e + 1, e + 4, e + 5) if 0 <= x <= len(w.body)]))
    for off in offsets:
        for name, mk in [fs[0], rng.choice(fs[1:5]), rng.choice(fs[5:])]:
            for with_trailers in ([True, False] if p == "grpc" else [False]):
                e = mk()
                if name == "end" and not env:
                    continue
                if name == "end" and off == len(w.body) and (p != "grpc" or with_trailers):
                    continue  # nothing missing
                if name == "end" and with_trailers and k in E.STREAM_OUT and off in [0, *ends]:
                    continue  # a legitimate shorter stream: the status is there
                body = w.body[:off]
                how = rng.choice(["one", "bytes", "two"])
                chunks = [body] if how == "one" else [body[i:i + 1] for i in range(len(body))] if how == "bytes" else [body[:off // 2], body[off // 2:]]
                steps = [c for c in chunks if c] + ([e] if e is not None else [])
                f = R.Fake(200, w.headers, steps, w.trailers if with_trailers else None)
                t = E.run_fake(cfg, f, E.Spec(k, [M.Msg(id="q")]))
                what = {**cfg.brief(), "kind": k, "offset": off, "of": len(w.body), "fault": name, "http_trailers": with_trailers, "messages_end_at": ends}
                rec.ev("cuts_injected")
                if E.hung(t):
                    rec.fail(f"client:{cl}:hangs-on-cut", {"case": what, **E.describe(t)})
                    return
                r = t.r
                complete = (p != "grpc" and off == len(w.body) and env)  # end-of-stream message received before the fault
                if r.exc is not None:
                    rec.fail(f"client:{cl}:not-a-connect-error", {"case": what, "outcome": repr(r.outcome())})
                    return
                if r.ok and not complete:
                    rec.fail(f"client:{cl}:{'stream' if env else 'unary'}-cut-looks-like-success", {"case": what, "msgs": len(r.msgs)})
                    return
                got = M.canons(r.msgs)
                full = sum(1 for x in ends[:len(ms)] if x <= off) if env else 0
                if k in E.STREAM_OUT:
                    if got != canon[:full]:
                        # all complete messages are delivered, nothing else
                        if not O.is_prefix(got, canon[:full]) or name == "end":
                            rec.fail(f"client:{cl}:wrong-messages-before-cut", {"case": what, "delivered": len(got), "complete": full})
                            return
                elif got and not r.ok:
                    rec.fail(f"client:{cl}:message-and-error", what)
                    return
                rec.nontrivial((p, k, codec, cl, comp, off, name, with_trailers, w.body))
                rec.seen("error_codes", (name, r.err.code.value if r.err else "ok"))
    rec.sample({**cfg.brief(), "kind": k, "offsets": len(offsets), "response": w.body[:80].hex()})


def server_cut(rec, rng, idx):
    """Every offset of one request; the application consumes it to the end."""
    p = rng.choice(list(E.PROTOS))
    k = KINDS[idx % len(KINDS)]
    codec = rng.choice(["proto", "json"])
    sv = ["asgi", "wsgi"][(idx // len(KINDS)) % 2]
    comp = rng.choice([None, "gzip", "br", "zstd"])
    n = rng.choice([1, 2, 3]) if k in E.STREAM_IN else 1
    ms = [M.msg(rng, size=rng.choice([0, 1, 9])) if rng.random() < 0.6 else M.Msg() for _ in range(n)]
    w = R.request(p, k, codec, ms, comp=comp)
    cfg = E.Cfg(proto=p, codec=codec, server=sv, server_comps=["gzip", "br", "zstd"])
    env = R.enveloped(p, k)
    ends, pos = [], 0
    if env:
        for _, d in R.envs(w.body)[0]:
            pos += 5 + len(d)
            ends.append(pos)
    canon = M.canons(ms)
    offsets = list(range(len(w.body) + 1))
    if len(offsets) > 90:
        offsets = sorted(set(rng.sample(offsets, 60) + [x for e in ends for x in (e - 1, e, e + 1, e + 4, e + 5) if 0 <= x <= len(w.body)]))
    out = M.Out(id="r")
    for off in offsets:
        for end in ("final", "disconnect") + (("short",) if sv == "wsgi" else ()):
            at_boundary = off in [0, *ends]
            if end == "short" and off == len(w.body):
                continue
            if end == "final" and (not env or (at_boundary and k in E.STREAM_IN) or off == len(w.body)):
                continue  # a legitimate shorter stream, or undetectable here
            log = E.Log()
            script = [("recvall",)] * (k in E.STREAM_IN) + [("send" if k in E.STREAM_OUT else "ret", out)]
            app = E.build_app(cfg, E.as_pick(script), log)
            body = w.body[:off]
            how = rng.choice(["one", "bytes", "two"])
            chunks = [body] if how == "one" else [body[i:i + 1] for i in range(len(body))] if how == "bytes" else [body[:off // 2], body[off // 2:]]
            # `short`: the server was told how much to expect and the input ends before it
            w1 = R.WireReq(w.method, w.path, [*w.headers, ("content-length", str(len(w.body)))], w.body) if end == "short" else w
            ex = E.serve_raw(cfg, app, w1, chunks=[c for c in chunks if c], end="final" if end == "short" else end)
            what = {**cfg.brief(), "kind": k, "offset": off, "of": len(w.body), "end": end, "messages_end_at": ends}
            rec.ev("cuts_injected")
            s = R.read_response(p, k, codec, E.wire_resp(ex)) if ex.monitor.status is not None else R.Seen()
            if ex.report is not None and ex.report.deadlock:
                rec.fail(f"server:{sv}:hangs-on-cut", {"case": what})
                return
            if k in E.STREAM_IN:
                c = log.calls[0] if log.calls else None
                if c is not None:
                    if c.recv_end:
                        rec.fail(f"server:{sv}:shortened-stream-looks-complete", {"case": what, "received": len(c.reqs)})
                        return
                    full = sum(1 for x in ends if x <= off)
                    if not O.is_prefix(M.canons(c.reqs), canon[:full]) or (end != "disconnect" and len(c.reqs) != full):
                        rec.fail(f"server:{sv}:wrong-messages-before-cut", {"case": what, "received": len(c.reqs), "complete": full})
                        return
            elif log.calls:
                # the request was not complete (a disconnect follows the last byte without the end of the body)
                rec.fail(f"server:{sv}:handler-run-for-cut-request", what)
                return
            if s.ok or s.msgs:
                rec.fail(f"server:{sv}:success-for-cut-request", {"case": what, "status": ex.monitor.status})
                return
            rec.nontrivial((p, k, codec, sv, comp, off, end, w.body))
    rec.sample({**cfg.brief(), "kind": k, "offsets": len(offsets), "request": w.body[:80].hex()})


def _script(rng, k, outs):
    s: list = []
    pauses = rng.random() < 0.7
    if k in E.STREAM_IN:
        s.append(("recvall",))
    for o in outs:
        if pauses:
            s.append(("sleep", rng.choice([0.0, 0.5, 1.0])))
        s.append(("send" if k in E.STREAM_OUT else "ret", o))
    if pauses and k in E.STREAM_OUT:
        s.append(("sleep", 0.5))
    return s


def server_abort(rec, rng, idx):
    """The application is cancelled, or cannot send, at every step of an exchange."""
    p = list(E.PROTOS)[idx % 3]
    k = KINDS[(idx // 3) % len(KINDS)]
    codec = rng.choice(["proto", "json"])
    n_in = rng.choice([1, 3]) if k in E.STREAM_IN else 1
    n_out = rng.choice([1, 3]) if k in E.STREAM_OUT else 1
    ms = [M.msg(rng, size=3) for _ in range(n_in)]
    outs = [M.out(rng, size=3) for _ in range(n_out)]
    w = R.request(p, k, codec, ms)
    cfg = E.Cfg(proto=p, codec=codec, server="asgi")
    script = _script(rng, k, outs)
    canon = M.canons(outs)
    plan = Plan(rng, req_mode="random", delay=rng.choice([0, 0.3]))

    def go(**kw):
        log = E.Log()
        app = E.build_app(cfg, E.as_pick(script), log)
        ex = E.serve_raw(cfg, app, w, plan=plan, **kw)
        return log, ex

    log, ex = go()
    steps = len(ex.steps)
    sends = sum(1 for x in ex.steps if x == "send")
    plans = [{"cancel_at": i} for i in range(steps)] + [{"send_fail_at": i} for i in range(sends)] + \
            [{"cancel_time": t} for t in (0.0, 0.1, 0.4, 0.6, 0.9, 1.2, 1.7, 2.2, 3.1)]
    for kw in plans:
        log, ex = go(**kw)
        what = {**cfg.brief(), "kind": k, "out": n_out, **kw, "steps": ex.steps[:30]}
        rec.ev("aborts_injected")
        if ex.report.deadlock:
            rec.fail("server:asgi:hangs-on-abort", what)
            return
        # A plain HTTP server turns an unfinished response into an aborted one.
        if not ex.monitor.complete:
            rec.nontrivial((p, k, codec, sorted(kw.items()), n_out, idx))
            continue
        s = R.read_response(p, k, codec, E.wire_resp(ex))
        if s.ok:
            done = bool(log.calls) and log.calls[0].finished == "ok"
            if s.msgs != canon or not done:
                rec.fail("server:asgi:success-for-aborted-response", {"case": what, "messages": len(s.msgs), "expected": len(outs), "handler": log.calls[0].finished if log.calls else "not run"})
                return
        elif s.error is None:
            rec.fail("server:asgi:no-status-for-aborted-response", {"case": what, "problems": s.problems[:4]})
            return
        rec.nontrivial((p, k, codec, sorted(kw.items()), n_out, idx))
        rec.seen("abort_outcomes", (p, k, s.ok, s.error and s.error[0]))
    rec.sample({**cfg.brief(), "kind": k, "steps": steps})


def end_to_end(rec, rng, idx):
    """Real client and application; the request iterator or the handler fails midway."""
    cfg = E.random_cfg(rng, pair=rng.choice(E.FULL))
    k = rng.choice(["client_stream", "server_stream", "bidi"])
    n_in = rng.choice([0, 1, 3]) if k in E.STREAM_IN else 1
    n_out = rng.choice([0, 1, 3]) if k in E.STREAM_OUT else 1
    ins = [M.msg(rng) for _ in range(n_in)]
    outs = [M.out(rng) for _ in range(n_out)]
    spec = E.Spec(k, ins)
    script: list = [("recvall",)] * (k in E.STREAM_IN)
    mode = rng.choice(["request-fails", "handler-boom"]) if k in E.STREAM_IN else "handler-boom"
    cut = n_out
    if mode == "request-fails":
        spec.request_error = rng.choice([E.Boom("caller broke"), ValueError("x"), KeyError("k")])
        script += [("send" if k in E.STREAM_OUT else "ret", o) for o in (outs or [M.Out()])]
    else:
        cut = rng.randint(0, n_out) if k in E.STREAM_OUT else 0
        script += [("send", o) for o in outs[:cut]] + [("raise", lambda: E.Boom("handler broke"))]
    what = {**cfg.brief(), "kind": k, "mode": mode, "in": n_in, "out": cut}
    t = E.run_one(cfg, script, spec)
    if O.hang(rec, t, "e2e", what):
        return
    rec.ev("faults_injected")
    if not rec.check(not t.r.ok, f"e2e:{mode}-looks-like-success", lambda: {"case": what, **E.describe(t)}):
        return
    if not rec.check(t.r.exc is None or isinstance(t.r.exc, (E.Boom, ValueError, KeyError)), "e2e:not-a-connect-error", lambda: {"case": what, **E.describe(t)}):
        return
    if mode == "request-fails":
        for c in t.calls:
            rec.check(not c.recv_end, "e2e:handler-saw-complete-request", lambda: {"case": what, **E.describe(t)})
            rec.check(M.canons(c.reqs) == M.canons(ins)[:len(c.reqs)], "e2e:handler-messages", lambda: {"case": what, **E.describe(t)})
    else:
        rec.check(M.canons(t.r.msgs) == M.canons(outs[:cut] if k in E.STREAM_OUT else []), "e2e:client-messages", lambda: {"case": what, **E.describe(t)})
    rec.nontrivial((cfg.key(), k, mode, n_in, cut, idx))


def client_header_status(rec, rng, idx):
    """gRPC servers and proxies that put a status among the headers although a body follows: the headers were sent before
    the body, so nothing in them can say that the body is complete."""
    p = ["grpc", "grpcweb"][idx % 2]
    k = KINDS[(idx // 2) % len(KINDS)]
    cl = ["async", "sync"][(idx // 10) % 2]
    codec = rng.choice(["proto", "json"])
    comp = rng.choice([None, "gzip"])
    n = rng.choice([1, 2, 3]) if k in E.STREAM_OUT else 1
    ms = [M.out(rng, size=rng.choice([0, 1, 9])) for _ in range(n)]
    w = R.response(p, k, codec, ms, comp=comp)
    cfg = E.Cfg(proto=p, codec=codec, client=cl, accept=["gzip", "br", "zstd"])
    ends, pos = [], 0
    for flags, d in R.envs(w.body)[0]:
        pos += 5 + len(d)
        if not flags & 0x80:
            ends.append(pos)
    data_end = ends[-1]
    offsets = sorted({0, 1, 4, 5, *ends, *(e - 1 for e in ends), *(e + 1 for e in ends if e < data_end), rng.randint(0, data_end)})
    for off in offsets:
        for hs in ("0", "5"):
            for name, mk in (("end", lambda: None), ("reset", lambda: StreamError("stream reset", rng.choice([getattr(StreamErrorCode, c) for c in CODES])))):
                for tr in ([], [("x-t", "1")]):
                    e = mk()
                    steps = ([w.body[:off]] if off else []) + ([e] if e is not None else [])
                    headers = [*w.headers, ("grpc-status", hs), *([("grpc-message", "no")] if hs == "5" else [])]
                    f = R.Fake(200, headers, steps, tr if p == "grpc" else None)
                    t = E.run_fake(cfg, f, E.Spec(k, [M.Msg(id="q")]))
                    what = {**cfg.brief(), "kind": k, "offset": off, "data_ends": data_end, "header_status": hs, "fault": name, "http_trailers": tr, "messages_end_at": ends}
                    rec.ev("cuts_injected")
                    if E.hung(t):
                        rec.fail(f"client:{cl}:hangs-on-cut", {"case": what, **E.describe(t)})
                        return
                    if t.r.exc is not None:
                        rec.fail(f"client:{cl}:not-a-connect-error", {"case": what, "outcome": repr(t.r.outcome())})
                        return
                    if t.r.ok and not (off == 0 and hs == "0" and k in E.STREAM_OUT and name == "end"):
                        rec.fail(f"client:{cl}:header-status-looks-like-success", {"case": what, "msgs": len(t.r.msgs)})
                        return
                    got = M.canons(t.r.msgs)
                    full = sum(1 for x in ends if x <= off)
                    if k in E.STREAM_OUT and not O.is_prefix(got, M.canons(ms)[:full]) or k not in E.STREAM_OUT and got:
                        rec.fail(f"client:{cl}:wrong-messages-before-cut", {"case": what, "delivered": len(got), "complete": full})
                        return
                    rec.nontrivial((p, k, codec, cl, comp, off, hs, name, bool(tr), w.body))
                    rec.seen("error_codes", ("header-status", name, t.r.err.code.value if t.r.err else "ok"))
    rec.sample({**cfg.brief(), "kind": k, "offsets": len(offsets)})


WORKLOADS = {
    "client_header_status": Workload(client_header_status, 120, 3000),
    "client_cut": Workload(client_cut, len(MATRIX) * 3, len(MATRIX) * 60),
    "server_cut": Workload(server_cut, 200, 6000),
    "server_abort": Workload(server_abort, 300, 6000),
    "end_to_end": Workload(end_to_end, 1500, 30000),
}
