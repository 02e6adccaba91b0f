"""P08: applications follow the ASGI and WSGI contracts on every path."""
from __future__ import annotations

import gc
import io

from connectrpc.code import Code
from connectrpc.errors import ConnectError

from .. import bridge
from .. import engine as E
from .. import msgs as M
from .. import mutate as MU
from .. import ref as R
from .. import vloop, vtime
from ..bridge import Plan
from ..core import Workload
from . import p07

ID = "P08"
LEVEL = "fault_enumeration"
RULE = ("A case is one request to a real application with a scripted handler (success, errors before/after messages, wrong types, "
        "metadata) under a server variant (optional keys and extensions present or not, back pressure) and possibly one injected "
        "event (disconnect, failing send, cancellation at a step, early close). Online monitors check the grammar of ASGI messages "
        "or of PEP 3333 calls. Non-trivial: at least one response event was monitored; distinct by configuration, script and injection.")
ASSUME = ["handlers set legal header names and values"]

KINDS = ["unary", "get", "GET", "idem", "client_stream", "server_stream", "bidi", "watch"]
OUTCOMES = ["ok", "ok", "error", "boom", "late-error", "late-boom", "wrong-type", "late-wrong-type", "empty", "ignore-request", "twice-headers"]


def script(rng, kind, outcome):
    hdr = [("hdr", *h) for h in E.metadata(rng, n=rng.randint(0, 2))]
    trl = [("trl", *h) for h in E.metadata(rng, n=rng.randint(0, 2))]
    s: list = []
    if kind in E.STREAM_IN and outcome != "ignore-request":
        s.append(rng.choice([("recvall",), ("recvall",), ("recv",)]))
    s += hdr
    stream = kind in E.STREAM_OUT
    n = rng.choice([1, 2, 4])
    err = lambda: ConnectError(rng.choice(list(Code)), rng.choice(["", "m", "é\n%"]), details=[M.Msg(id="d")] if rng.random() < 0.3 else ())  # noqa: E731
    if outcome in ("error", "boom"):
        s += trl
        s.append(("raise", err if outcome == "error" else (lambda: E.Boom("boom é"))))
    elif outcome == "wrong-type":
        s += trl
        s.append(("send" if stream else "ret", rng.choice(["text", 5, object()])))
    elif stream:
        if outcome != "empty":
            s += [("send", M.out(rng)) for _ in range(n)]
        s += trl
        if outcome == "late-error":
            s.append(("raise", err))
        elif outcome == "late-boom":
            s.append(("raise", lambda: E.Boom("late")))
        elif outcome == "late-wrong-type":
            s.append(("send", rng.choice(["text", 5, object()])))
        elif outcome == "twice-headers":
            s.insert(-1 if s else 0, ("hdr", "x-late", "1"))
    else:
        s += trl + [("ret", M.out(rng))]
    if rng.random() < 0.3:
        s.insert(rng.randint(0, len(s)), ("sleep", 0.5))
    return s


def variant(rng, cfg, plan, proto) -> list[str]:
    """Server variants: what a conforming server may leave out or add."""
    v = []
    if cfg.server == "asgi":
        drop = []
        for k in ("client", "scheme", "root_path", "extensions", "raw_path", "query_string", "server", "state", "http_version"):
            if rng.random() < 0.25:
                drop.append(k)
        plan.drop = drop
        if rng.random() < 0.2:
            plan.client = None
        if "extensions" in drop or rng.random() < 0.2:
            plan.trailers_ext = False
        if rng.random() < 0.15:
            plan.scope_extra["extensions"] = None
            plan.trailers_ext = False
        v = drop + (["no-trailers"] if not plan.trailers_ext else []) + (["no-client"] if plan.client is None else [])
    else:
        for k in ("REMOTE_ADDR", "REMOTE_PORT", "HTTP_HOST", "QUERY_STRING", "SERVER_PROTOCOL", "CONTENT_LENGTH"):
            if rng.random() < 0.2 and not (k == "QUERY_STRING"):
                plan.environ_extra[k] = None
                v.append(k)
        if rng.random() < 0.3:
            plan.http_version = "1.1"
            v.append("http/1.1")
        if rng.random() < 0.2:
            plan.trailers_ext = False
            v.append("no-trailers")
    return v


def make_request(rng, proto, kind, codec):
    get = kind == "GET"
    k = "get" if get else kind
    n = rng.choice([0, 1, 3]) if k in E.STREAM_IN else 1
    comp = rng.choice([None, "gzip", "br", "zstd"])
    return k, R.request(proto, k, codec, [M.msg(rng) for _ in range(n)], comp=comp, get=get, accept=rng.choice([None, "gzip", "zstd,br", "foo"]))


def scope_of(plan, w):
    sc = bridge.make_scope(plan, w.method, E.BASE + w.path, w.headers)
    for k in getattr(plan, "drop", ()):
        if k == "query_string" and w.method == "GET":
            continue
        sc.pop(k, None)
    return sc


MATRIX = [(sv, p, k) for sv in ("asgi", "wsgi") for p in E.PROTOS for k in KINDS if not (k == "GET" and p != "connect")]


def setup_case(rng, idx):
    sv, p, kind = MATRIX[idx % len(MATRIX)]
    codec = rng.choice(["proto", "json"])
    cfg = E.Cfg(proto=p, codec=codec, server=sv, server_comps=["gzip", "br", "zstd"])
    if rng.random() < 0.3:
        plan = Plan(rng, delay=rng.choice([0, 0.01, 0.2]), req_mode=rng.choice(["asis", "random", "bytes"]), empty_chunks=sv == "asgi", short_reads=True)
    else:
        plan = Plan(rng)
    v = variant(rng, cfg, plan, p)
    outcome = rng.choice(OUTCOMES)
    if rng.random() < 0.15:
        names = [n for n in p07.DEFECTS if n not in ("get_raw_query",)]
        d = p07.make_defect(rng, rng.choice(names), p, kind, sv)
        if d is not None:
            c, info, expect, kw, _ = d
            if "path_raw" in kw:
                plan.scope_extra["path"] = kw["path_raw"]
                plan.environ_extra["PATH_INFO"] = kw["path_raw"].encode("utf-8").decode("latin-1")
            return cfg, plan, v, c["kind"], c["w"], "hostile", script(rng, c["kind"], "ok"), kind
    k, w = make_request(rng, p, kind, codec)
    return cfg, plan, v, k, w, outcome, script(rng, k, outcome), kind


def asgi_monitored(rec, cfg, ex, what, *, must_complete: bool, may_raise: bool) -> bool:
    mon = ex.monitor
    rec.ev("asgi_events_monitored", mon.n)
    if ex.report is not None and ex.report.deadlock:
        rec.fail("asgi:never-completes", {"case": what, "deadlock": ex.report.deadlock, "stacks": ex.report.stacks})
        return False
    if mon.bad:
        rec.fail("asgi:contract:" + mon.bad[0].split(":")[0][:60], {"case": what, "bad": mon.bad[:5]})
        return False
    if must_complete and not mon.complete:
        rec.fail("asgi:incomplete-response", {"case": what, "state": mon.state, "status": mon.status, "exc": repr(ex.app_exc)})
        return False
    if mon.complete and mon.announced and mon.trailers is None:
        rec.fail("asgi:announced-trailers-missing", what)
        return False
    return True


def plain(rec, rng, idx):
    """No fault: the response must be complete and well-formed whatever the handler does."""
    cfg, plan, v, k, w, outcome, sc, kind = setup_case(rng, idx)
    log = E.Log()
    app = E.build_app(cfg, E.as_pick(sc), log)
    what = {"server": cfg.server, "proto": cfg.proto, "kind": kind, "codec": cfg.codec, "outcome": outcome, "variant": v, "script": repr(sc)[:300]}
    if cfg.server == "asgi":
        ex = bridge.asgi_once(app, w.method, E.BASE + w.path, w.headers, w.body, plan, scope=scope_of(plan, w), do_gc=False)
        if not asgi_monitored(rec, cfg, ex, what, must_complete=True, may_raise=True):
            return
    else:
        clock = vtime.Clock()
        hs = w.headers
        if w.method != "GET" and plan.environ_extra.get("CONTENT_LENGTH", 1) is not None and rng.random() < 0.5:
            hs = [*hs, ("content-length", str(len(w.body)))]
        with vtime.activate(clock), vloop.cpu_guard():
            ex = bridge.wsgi_once(app, w.method, E.BASE + w.path, hs, w.body, plan)
        if not wsgi_monitored(rec, cfg, ex, what):
            return
    st, hs, body, trl = ex.resp()
    no_trailers_grpc = cfg.proto == "grpc" and not plan.trailers_ext
    if outcome in ("ok", "empty", "ignore-request", "twice-headers") and not no_trailers_grpc:
        s = R.read_response(cfg.proto, k, cfg.codec, R.WireResp(st, hs, body, trl))
        rec.check(s.ok, f"{cfg.server}:successful-call-without-success", {"case": what, "seen": repr(s)[:300], "exc": repr(ex.app_exc)})
    elif outcome != "hostile" or no_trailers_grpc:
        if no_trailers_grpc:
            # impossible to serve; refused with an HTTP level failure
            rec.check(st is not None and st >= 400, f"{cfg.server}:grpc-without-trailers", {"case": what, "status": st})
        elif outcome not in ("late-error", "late-boom", "late-wrong-type") or k in E.STREAM_OUT:
            s = R.read_response(cfg.proto, k, cfg.codec, R.WireResp(st, hs, body, trl))
            rec.check(not s.ok and s.error is not None, f"{cfg.server}:failed-call-without-error", {"case": what, "seen": repr(s)[:300]})
    if cfg.proto == "grpc" and plan.trailers_ext and outcome != "hostile":
        rec.check(trl is not None, f"{cfg.server}:grpc-without-trailers-sent", what)
    rec.seen("shapes", (cfg.server, st, len(body) > 0, trl is not None, outcome))
    rec.nontrivial((cfg.server, cfg.proto, kind, cfg.codec, outcome, tuple(v), repr(sc)[:200], w.body[:50]))
    rec.sample(what)


def wsgi_monitored(rec, cfg, ex, what, *, closed_early: bool = False) -> bool:
    mon = ex.monitor
    rec.ev("wsgi_events_monitored", mon.started + mon.trailer_calls + (1 if mon.body else 0))
    if mon.bad:
        rec.fail("wsgi:contract:" + mon.bad[0].split(":")[0][:60], {"case": what, "bad": mon.bad[:5]})
        return False
    if ex.app_exc is not None:
        rec.fail("wsgi:application-raised", {"case": what, "exc": repr(ex.app_exc), "started": mon.started})
        return False
    if mon.started != 1:
        rec.fail("wsgi:start_response-calls", {"case": what, "n": mon.started})
        return False
    return True


def injected(rec, rng, idx):
    """ASGI: one disconnect, failing send or cancellation, at every step."""
    cfg, plan, v, k, w, outcome, sc, kind = setup_case(rng, idx % (len(MATRIX) // 2) if False else idx)
    cfg.server = "asgi"
    plan.environ_extra = {}
    if not hasattr(plan, "drop"):
        plan.drop = []
    app = lambda: E.build_app(cfg, E.as_pick(sc), E.Log())  # noqa: E731
    base = bridge.asgi_once(app(), w.method, E.BASE + w.path, w.headers, w.body, plan, scope=scope_of(plan, w))
    n = len(base.steps)
    sends = base.steps.count("send")
    pts = [("cancel", i) for i in range(n)] + [("send-fails", i) for i in range(sends)] + [("disconnect", i) for i in range(3)]
    if len(pts) > 24:
        pts = rng.sample(pts, 24)
    for what_inj, i in pts:
        kw: dict = {}
        if what_inj == "cancel":
            kw["cancel_at"] = i
        elif what_inj == "send-fails":
            kw["send_fail_at"] = i
        else:
            cut = rng.randrange(len(w.body) + 1) if w.body else 0
            if i == 0:
                kw.update(chunks=[w.body[:cut]], end="disconnect")
            elif i == 1:
                kw.update(chunks=[w.body], end="disconnect")
            else:
                kw["disconnect_at"] = rng.choice([0.0, 0.1, 0.3, 0.5, 0.7])
        ex = bridge.asgi_once(app(), w.method, E.BASE + w.path, w.headers, w.body, plan, scope=scope_of(plan, w), settle=2.0, **kw)
        what = {"proto": cfg.proto, "kind": kind, "codec": cfg.codec, "outcome": outcome, "variant": v, "inject": (what_inj, i), "steps": ex.steps[:30], "script": repr(sc)[:200]}
        rec.ev("faults_injected")
        if not asgi_monitored(rec, cfg, ex, what, must_complete=False, may_raise=True):
            return
        if ex.report and ex.report.leaked_tasks:
            rec.fail("asgi:task-outlives-request", {"case": what, "tasks": ex.report.leaked_tasks})
            return
        rec.nontrivial((cfg.proto, kind, cfg.codec, outcome, what_inj, i, tuple(ex.steps)))
        rec.seen("traces", tuple(ex.steps))
    rec.sample({"proto": cfg.proto, "kind": kind, "points": len(pts), "base": base.steps[:20]})


def wsgi_early(rec, rng, idx):
    """WSGI: the server stops iterating after n items and closes; reads of the input fail or end early."""
    cfg, plan, v, k, w, outcome, sc, kind = setup_case(rng, idx)
    cfg.server = "wsgi"
    plan.scope_extra = {}
    mode = rng.choice(["close", "close", "input-fails", "input-short"])
    what = {"proto": cfg.proto, "kind": kind, "codec": cfg.codec, "outcome": outcome, "variant": v, "mode": mode, "script": repr(sc)[:200]}
    for stop in range(4) if mode == "close" else [None]:
        log = E.Log()
        app = E.build_app(cfg, E.as_pick(sc), log)
        clock = vtime.Clock()
        with vtime.activate(clock), vloop.cpu_guard():
            if mode != "close":
                cut = rng.randrange(len(w.body) + 1) if w.body else 0
                hs = [*w.headers, ("content-length", str(len(w.body)))] if w.body and rng.random() < 0.5 else w.headers
                ex = bridge.wsgi_once(app, w.method, E.BASE + w.path, hs, w.body, plan, chunks=[w.body[:cut]], end="disconnect" if mode == "input-fails" else "final")
                rec.ev("faults_injected")
                if not (mode == "input-fails" and isinstance(ex.app_exc, OSError)):
                    # an input that raises may surface: the client is gone
                    if not wsgi_monitored(rec, cfg, ex, what):
                        return
                elif ex.monitor.bad:
                    rec.fail("wsgi:contract-after-input-error", {"case": what, "bad": ex.monitor.bad})
                    return
            else:
                ex = bridge.Exchange()
                inp = bridge._Input(w.body, plan, ex, __import__("contextvars").copy_context())
                env = bridge.make_environ(plan, w.method, E.BASE + w.path, w.headers, inp, io.StringIO())
                run = bridge.WsgiRun(app, env, ex, plan.trailers_ext)
                run.start()
                for _ in range(stop):
                    if run.next() is None:
                        break
                run.close()
                rec.ev("faults_injected")
                if not wsgi_monitored(rec, cfg, ex, {**what, "stop": stop}):
                    return
                # a server lets go of the iterable and of the environment after closing
                ex = run = env = inp = app = None
                gc.collect()
                for c in log.calls:
                    if c.finished == "" or c.cleanups != 1:
                        rec.fail("wsgi:handler-not-closed", {"case": {**what, "stop": stop}, "finished": c.finished, "cleanups": c.cleanups})
                        return
        rec.nontrivial((cfg.proto, kind, cfg.codec, outcome, mode, stop, repr(sc)[:100]))


WORKLOADS = {
    "plain": Workload(plain, len(MATRIX) * 300, len(MATRIX) * 8000),
    "injected": Workload(injected, len(MATRIX) * 16, len(MATRIX) * 400),
    "wsgi_early": Workload(wsgi_early, 2500, 80000),
}
