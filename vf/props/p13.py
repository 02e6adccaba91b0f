"""P13: cancelled or abandoned calls release everything promptly."""
from __future__ import annotations

import asyncio
import gc

from connectrpc.code import Code
from connectrpc.errors import ConnectError

from .. import bridge
from .. import engine as E
from .. import msgs as M
from .. import mutate as MU
from .. import oracle as O
from .. import ref as R
from .. import vloop, vtime
from ..core import Workload

ID = "P13"
RULE = ("A case interrupts a call - cancels the caller's task after a chosen number of scheduling steps or at a virtual time, closes or "
        "drops a stream after n messages, disconnects or cancels the server's side, or makes one side fail while the other is busy - and "
        "then watches until everything is quiet: outcome, cleanup counts of request iterators and handlers, tasks and asynchronous "
        "generators alive in the loop, reads pending, reports to the loop's exception handler, unraisable exceptions, never-awaited "
        "coroutines. Non-trivial: the interruption happened while the call was running; distinct by configuration, kind and point of interruption.")
ASSUME = ["a stream dropped with `break` and never closed is cleaned up by the interpreter's collection of generators, as in any Python code",
          "a handler waiting for something of its own is stopped at its next message after a disconnect, or when the server cancels it",
          "the workload's transports behave like HTTP clients and servers: closing a response resets the stream and closes the request iterator"]

KINDS = ["unary", "get", "client_stream", "server_stream", "bidi"]


def clean(rec, tag, what, rep, lib_gc: bool = False) -> bool:
    """Nothing of the library is left and nothing was reported."""
    if rep is None:
        return True
    rec.ev("loops_inspected")
    for name, v in (("leaked-task", rep.leaked_tasks), ("open-generator", rep.lib_open_agens()), ("loop-report", rep.exc_reports),
                    ("unraisable", rep.unraisable), ("warning", rep.warnings)):
        if v:
            rec.fail(f"{tag}:{name}", {"case": what, name: v[:4]})
            return False
    if lib_gc and rep.lib_gc_agens():
        rec.fail(f"{tag}:generator-left-to-gc", {"case": what, "generators": rep.lib_gc_agens()[:4]})
        return False
    return True


def strip(e, depth: int = 0) -> None:
    """An exception that somebody keeps also keeps the frames of its traceback alive."""
    if e is not None and depth < 10:
        e.__traceback__ = None
        strip(e.__cause__, depth + 1)
        strip(e.__context__, depth + 1)


def strip_all(r, calls, exchanges) -> None:
    for e in [r and r.err, r and r.exc, *(c.recv_error for c in calls), *(ex.app_exc for ex in exchanges)]:
        strip(e)


def handlers_done(rec, tag, what, calls) -> bool:
    for c in calls:
        rec.ev("handlers_inspected")
        if c.cleanups != 1:
            rec.fail(f"{tag}:handler-cleanup", {"case": what, "method": c.method, "cleanups": c.cleanups, "finished": c.finished})
            return False
    return True


def script_for(rng, kind, n):
    s: list = []
    read = kind in E.STREAM_IN and rng.random() < 0.85
    mode = rng.choice(["all", "some", "interleave"]) if read else "none"
    if mode == "all":
        s.append(("recvall",))
    elif mode == "some":
        s += [("recv",)] * rng.randint(1, 2)
    for op in ("hdr", "trl"):
        if rng.random() < 0.3:
            s.insert(rng.randint(0, len(s)), (op, "x-own", "1"))
    for i in range(n):
        s.append(("sleep", rng.choice([0, 0, 0.1, 1.0])))
        if mode == "interleave":
            s.append(("recv",))
        s.append(("send" if kind in E.STREAM_OUT else "ret", M.Out(id=str(i))))
    if kind in E.STREAM_OUT:
        s.append(("sleep", rng.choice([0, 0.5, 3.0])))
    return s


async def caller(client, spec: E.Spec, r: E.Res, st: dict) -> None:
    """Like engine.acall, but records whether the library or this code is waiting."""
    st["started"] = True

    async def reqs():
        st["req_started"] = st.get("req_started", 0) + 1
        try:
            for i, m in enumerate(spec.msgs):
                if i < len(spec.gaps) and spec.gaps[i]:
                    await asyncio.sleep(spec.gaps[i])
                r.req_pulled += 1
                yield m
            if spec.request_error is not None:
                raise spec.request_error
        finally:
            r.req_closed += 1

    fn = getattr(client, spec.kind)
    kw = E._kwargs(spec)
    try:
        if spec.kind in E.STREAM_OUT:
            arg = reqs() if spec.kind in E.STREAM_IN else spec.msgs[0]
            stream = fn(arg, **kw)
            it = aiter(stream)
            while True:
                st["lib"] = True
                try:
                    m = await anext(it)
                except StopAsyncIteration:
                    break
                finally:
                    st["lib"] = False
                r.msgs.append(m)
                if spec.think:
                    try:
                        await asyncio.sleep(spec.think)
                    except asyncio.CancelledError:
                        st["own"] = True
                        st["lib"] = True
                        await stream.aclose()
                        raise
        else:
            arg = reqs() if spec.kind in E.STREAM_IN else spec.msgs[0]
            st["lib"] = True
            try:
                r.msgs.append(await fn(arg, **kw))
            finally:
                st["lib"] = False
    except ConnectError as e:
        r.err = e
    except BaseException as e:  # noqa: BLE001
        r.exc = e
        if isinstance(e, (vloop.Spin, vloop.Deadlock)):
            raise
    finally:
        st["lib"] = False
        st["over"] = True


def cancel(rec, rng, idx):
    p = list(E.PROTOS)[idx % 3]
    kind = KINDS[(idx // 3) % len(KINDS)]
    server = ["asgi", "asgi", "asgi", "wsgi"][(idx // 15) % 4]
    cfg = E.random_cfg(rng, proto=p, pair=("async", server))
    use_get = kind == "get" and p == "connect" and rng.random() < 0.6
    n = rng.choice([1, 2, 4]) if kind in E.STREAM_OUT else 1
    script = script_for(rng, kind, n)
    nq = rng.choice([0, 1, 3]) if kind in E.STREAM_IN else 1
    by_steps = rng.random() < 0.7
    k = rng.randint(0, rng.choice([12, 40, 120])) if by_steps else 0
    at = rng.choice([0.05, 0.1, 0.15, 0.55, 1.0, 1.05, 2.2])
    twice = rng.random() < 0.15
    if cfg.plan is not None and rng.random() < 0.7:
        cfg.plan.delay = rng.choice([0, 0.03])
    spec = E.Spec(kind, [M.Msg(id=f"q{i}") for i in range(nq)], gaps=[rng.choice([0, 0.1, 0.4]) for _ in range(nq)], use_get=use_get,
                  think=rng.choice([0, 0, 0.2]), timeout_ms=rng.choice([None, None, 100000]))
    log = E.Log()
    app = E.build_app(cfg, E.as_pick(script), log)
    tr = E.build_transport(cfg, app)
    r, st = E.Res(), {}
    obs: dict = {}

    async def main():
        client = E.build_client(cfg, tr)
        task = asyncio.ensure_future(caller(client, spec, r, st))
        if by_steps:
            for _ in range(k):
                await asyncio.sleep(0)
        else:
            await asyncio.sleep(at)
        obs["where"] = "before" if not st.get("started") else "over" if st.get("over") else "lib" if st.get("lib") else "own"
        obs["msgs"] = len(r.msgs)
        obs["handler"] = [e[2] for e in log.events if e[1] == "h"][-1:]
        t0 = vtime.monotonic()
        task.cancel()
        if twice:
            await asyncio.sleep(0)
            task.cancel()
        await asyncio.wait([task])
        obs["took"] = vtime.monotonic() - t0
        obs["raised"] = None if task.cancelled() else task.exception()
        del task
        await asyncio.sleep(50)
        strip_all(r, log.calls, tr.exchanges)

    rep = vloop.run(main, settle=60.0, do_gc=True)
    what = {**cfg.brief(), "kind": kind, "get": use_get, "script": repr(script)[:200], "cancel_after_steps": k if by_steps else None,
            "cancel_at": None if by_steps else at, "twice": twice, "gaps": spec.gaps, "think": spec.think, **{x: repr(y) for x, y in obs.items()}}
    tag = f"cancel:{server}"
    if rep.deadlock or rep.exc:
        rec.fail(f"{tag}:never-completes", {"case": what, "deadlock": rep.deadlock, "exc": repr(rep.exc), "stacks": rep.stacks[:5]})
        return
    rec.ev("cancellations")
    rec.ev("cancelled_" + obs["where"])
    if obs["took"] > 0.5:
        rec.fail(f"{tag}:slow-to-end", {"case": what})
        return
    if obs["where"] == "lib" and not twice:
        if r.err is None or r.err.code is not Code.CANCELED:
            rec.fail(f"{tag}:not-canceled", {"case": what, "outcome": repr(r.outcome())})
            return
    elif r.err is not None and not twice and obs["where"] != "lib":
        rec.fail(f"{tag}:error", {"case": what, "outcome": repr(r.outcome())})
        return
    if not clean(rec, tag, what, rep, lib_gc=False):
        return
    if not handlers_done(rec, tag, what, log.calls):
        return
    if st.get("req_started", 0) > 1 or r.req_closed != st.get("req_started", 0):
        rec.fail(f"{tag}:request-iterator", {"case": what, "started": st.get("req_started", 0), "closed": r.req_closed})
        return
    for ex in tr.exchanges:
        if ex.app_task is not None and not ex.app_task.done():
            rec.fail(f"{tag}:server-still-running", {"case": what})
            return
    if obs["where"] in ("lib", "own"):
        rec.nontrivial((cfg.key(), kind, use_get, repr(script), k if by_steps else -at, twice, tuple(spec.gaps), spec.think))
        rec.seen("cancel_points", (kind, p, server, obs["where"], obs["msgs"], repr(obs["handler"])))
    rec.sample(what)


def stop(rec, rng, idx):
    """Streams closed or dropped after n messages."""
    pair = E.PAIRS[idx % len(E.PAIRS)]
    p = list(E.PROTOS)[(idx // 4) % 3]
    kind = ["server_stream", "bidi"][(idx // 12) % 2]
    cfg = E.random_cfg(rng, proto=p, pair=pair)
    n = rng.choice([1, 3, 6])
    k = rng.randint(0, n)
    how = rng.choice(["aclose", "aclose", "break"])
    script = script_for(rng, kind, n)
    nq = rng.choice([0, 1, 3, 10]) if kind == "bidi" else 1
    spec = E.Spec(kind, [M.Msg(id=f"q{i}") for i in range(nq)], gaps=[rng.choice([0, 0.2]) for _ in range(nq)], stop_after=k, how_stop=how)
    if pair[0] == "sync":
        spec.gaps = []
    log = E.Log()
    app = E.build_app(cfg, E.as_pick(script), log)
    t = E.run_one(cfg, script, spec, app=app, settle=60.0, do_gc=True)
    gc.collect()
    what = {**cfg.brief(), "kind": kind, "script": repr(script)[:200], "requests": nq, "stop_after": k, "how": how}
    tag = f"stop:{pair[0]}-{pair[1]}"
    if O.hang(rec, t, tag, what):
        return
    rec.ev("streams_stopped")
    if not t.r.ok:
        rec.fail(f"{tag}:error", {"case": what, "outcome": repr(t.r.outcome())})
        return
    if not clean(rec, tag, what, t.report):
        return
    if not handlers_done(rec, tag, what, log.calls):
        return
    if t.r.req_closed > 1 or (t.r.req_pulled and t.r.req_closed != 1):
        rec.fail(f"{tag}:request-iterator", {"case": what, "closed": t.r.req_closed, "pulled": t.r.req_pulled})
        return
    if k == 0 and log.calls:
        rec.fail(f"{tag}:call-made-although-never-iterated", what)
        return
    if t.exchanges and not all(ex.app_done for ex in t.exchanges):
        rec.fail(f"{tag}:server-still-running", what)
        return
    if 0 < k:
        rec.nontrivial((cfg.key(), kind, repr(script), nq, k, how))
    rec.sample(what)


def server_side(rec, rng, idx):
    """The client goes away, the server cancels, sending fails - at every step."""
    p = list(E.PROTOS)[idx % 3]
    kind = KINDS[(idx // 3) % len(KINDS)]
    sv = ["asgi", "asgi", "asgi", "wsgi"][(idx // 15) % 4]
    cfg = E.random_cfg(rng, proto=p, pair=("async", sv))
    cfg.server = sv
    n = rng.choice([1, 2, 5]) if kind in E.STREAM_OUT else 1
    script = script_for(rng, kind, n)
    bad_cleanup = rng.random() < 0.15
    nq = rng.choice([0, 1, 3]) if kind in E.STREAM_IN else 1
    w = R.request(p, kind, cfg.codec, [M.Msg(id=f"q{i}") for i in range(nq)], get=kind == "get" and p == "connect" and rng.random() < 0.5)
    log = E.Log()
    app = E.build_app(cfg, E.as_pick(script), log)
    snap: list = []
    if sv == "asgi":
        inner = app

        async def app(scope, receive, send):
            try:
                await inner(scope, receive, send)
            finally:
                snap.append([(c.method, c.cleanups) for c in log.calls])

        how = rng.choice(["cancel_at", "cancel_at", "cancel_time", "disconnect", "disconnect_at", "send_fail"])
        kw: dict = {}
        chunks = None
        if how == "cancel_at":
            kw["cancel_at"] = rng.randint(0, 12)
        elif how == "cancel_time":
            kw["cancel_time"] = rng.choice([0.0, 0.05, 0.15, 1.0, 1.05, 2.5])
        elif how == "disconnect":
            kw["end"] = "disconnect"
            cut = rng.randint(0, len(w.body))
            chunks = [w.body[:cut]] if cut else []
        elif how == "disconnect_at":
            kw["disconnect_at"] = rng.choice([0.0, 0.05, 0.15, 1.0, 1.05])
        else:
            kw["send_fail_at"] = rng.randint(0, 5)
        what = {**cfg.brief(), "kind": kind, "how": how, **kw, "script": repr(script)[:200], "requests": nq}
        ex = bridge.asgi_once(app, w.method, cfg.base + w.path, w.headers, w.body, cfg.plan or bridge.Plan(), chunks=chunks, settle=60.0, do_gc=True,
                              after=lambda ex: strip_all(None, log.calls, [ex]), **kw)
        rep = ex.report
        if rep.deadlock or not ex.app_done:
            rec.fail(f"server:asgi:{how}:never-completes", {"case": what, "deadlock": rep.deadlock, "stacks": rep.stacks[:5]})
            return
        rec.ev("interruptions")
        if kind in E.STREAM_OUT or kind in E.STREAM_IN:
            left = [x for x in (snap[0] if snap else []) if x[1] != 1]
            if left:
                rec.fail(f"server:asgi:{how}:handler-outlives-call", {"case": what, "handlers": left})
                return
        if not clean(rec, f"server:asgi:{how}", what, rep):
            return
        # a request that never ended is not taken for one that did
        if how == "disconnect" and w.method == "POST":
            for c in log.calls:
                if c.finished == "ok" and (kind not in E.STREAM_OUT and kind not in E.STREAM_IN or ("recvall",) in script):
                    rec.fail("server:asgi:disconnect:taken-for-the-end", {"case": what, "method": c.method, "messages": len(c.reqs)})
                    return
        # after a disconnect a streaming handler gets no further than its next message
        if how == "disconnect_at" and kind == "server_stream" and log.calls:
            t_d = 1000.0 + kw["disconnect_at"]
            later = [e for e in log.events if e[2] == "send" and e[0] > t_d + 1e-9]
            if len(later) > 1 and any(e[0] > later[0][0] for e in later[1:]):
                rec.fail("server:asgi:disconnect:handler-continues", {"case": what, "messages_after": len(later)})
                return
    else:
        how = rng.choice(["close", "close-early", "input-error"])
        what = {**cfg.brief(), "kind": kind, "how": how, "script": repr(script)[:200], "requests": nq}
        ex = bridge.Exchange()
        import contextvars
        import io
        clock = vtime.Clock()
        with vtime.activate(clock), vloop.cpu_guard():
            plan = cfg.plan or bridge.Plan()
            if how == "input-error":
                cut = rng.randint(0, len(w.body))

                def parts():
                    if cut:
                        yield w.body[:cut]
                    raise OSError("client disconnected")
                inp = bridge._Input(parts(), plan, ex, contextvars.copy_context())
            else:
                inp = bridge._Input(w.body, plan, ex, contextvars.copy_context())
            env = bridge.make_environ(plan, w.method, cfg.base + w.path, w.headers, inp, io.StringIO())
            run = bridge.WsgiRun(app, env, ex, True)
            k = 0
            try:
                run.start()
                if how == "close":
                    k = rng.randint(1, 6)
                    for _ in range(k):
                        if run.next() is None:
                            break
                elif how == "input-error":
                    while run.next() is not None:
                        pass
            except Exception:
                pass
            what["chunks_taken"] = k
            run.close()
            run.result = run.it = None
            del run, env, inp
        gc.collect()
        rec.ev("interruptions")
    if not handlers_done(rec, f"server:{sv}:{how}", what, log.calls):
        return
    if log.calls:
        rec.nontrivial((cfg.key(), kind, repr(what)))
        rec.seen("interruption_points", (kind, p, sv, how, log.calls[0].finished, len(log.events)))
    rec.sample(what)


def one_side_fails(rec, rng, idx):
    """One side ends the call while the other is busy: early answers, failing iterators, unusable responses."""
    p = list(E.PROTOS)[idx % 3]
    kind = ["client_stream", "bidi"][(idx // 3) % 2]
    how = ["early-error", "early-ok", "iterator-raises", "fake", "two-messages"][(idx // 6) % 5]
    pair = [("async", "asgi"), ("sync", "wsgi")][(idx // 30) % 2]
    cfg = E.random_cfg(rng, proto=p, pair=pair)
    endless = {"n": 0, "closed": 0}
    gap = rng.choice([0.05, 0.5])
    r = E.Res()
    what = {**cfg.brief(), "kind": kind, "how": how, "gap": gap}

    async def areqs():
        try:
            while True:
                endless["n"] += 1
                if endless["n"] > 3000:
                    raise AssertionError("request iterator is never closed")
                if how == "iterator-raises" and endless["n"] > 2:
                    raise ValueError("request iterator failed")
                yield M.Msg(id="q", data=b"x" * rng.choice([0, 100]))
                await asyncio.sleep(gap)
        finally:
            endless["closed"] += 1

    def sreqs():
        try:
            while True:
                endless["n"] += 1
                if endless["n"] > 3000:
                    raise AssertionError("request iterator is never closed")
                if how == "iterator-raises" and endless["n"] > 2:
                    raise ValueError("request iterator failed")
                yield M.Msg(id="q")
        finally:
            endless["closed"] += 1

    script: list = [("recv",)] * rng.randint(0, 2) + [("sleep", rng.choice([0, 0.7]))]
    if how == "early-error":
        script.append(("raise", lambda: ConnectError(Code.ABORTED, "enough")))
        want = "aborted"
    elif how in ("early-ok", "iterator-raises"):
        script.append(("ret" if kind == "client_stream" else "send", M.Out(id="r")))
        if how == "iterator-raises":
            script.insert(0, ("recvall",))
        want = None
    log = E.Log()
    if how in ("fake", "two-messages"):
        w = R.response(p, kind, cfg.codec, [M.out(rng)] * (1 if how == "fake" else 3))
        if how == "fake":
            f = rng.choice([lambda: R.Fake.of(w, [b"\x09\x00\x00"]), lambda: R.Fake(503, [("content-type", "text/html")], [b"no"], None),
                            lambda: R.Fake(200, [("content-type", "text/html")], [b"no"], None), lambda: R.Fake.of(w, [w.body[:4], ("sleep", 1.0), ConnectionError("gone")])])()
        else:
            f = R.Fake.of(w)
        tr = R.FakeServer(f) if pair[0] == "async" else R.FakeServerSync(f)
    else:
        app = E.build_app(cfg, E.as_pick(script), log)
        tr = E.build_transport(cfg, app)
    st: dict = {}
    if pair[0] == "async":
        async def main():
            client = E.build_client(cfg, tr)
            try:
                if kind == "client_stream":
                    r.msgs.append(await client.client_stream(areqs()))
                else:
                    async for m in client.bidi(areqs()):
                        r.msgs.append(m)
            except ConnectError as e:
                r.err = e
            except BaseException as e:  # noqa: BLE001
                r.exc = e
                if isinstance(e, (vloop.Spin, vloop.Deadlock)):
                    raise
            st["n"] = endless["n"]
            await asyncio.sleep(50)
            strip_all(r, log.calls, [])

        rep = vloop.run(main, settle=60.0, do_gc=True)
        if rep.deadlock or rep.exc:
            rec.fail(f"fails:{how}:never-completes", {"case": what, "deadlock": rep.deadlock, "exc": repr(rep.exc), "stacks": rep.stacks[:5]})
            return
        if not clean(rec, f"fails:{how}", what, rep):
            return
    else:
        with vtime.activate(vtime.Clock()), vloop.cpu_guard():
            client = E.build_client(cfg, tr)
            try:
                if kind == "client_stream":
                    r.msgs.append(client.client_stream(sreqs()))
                else:
                    for m in client.bidi(sreqs()):
                        r.msgs.append(m)
            except ConnectError as e:
                r.err = e
            except Exception as e:  # noqa: BLE001
                r.exc = e
            st["n"] = endless["n"]
            strip_all(r, log.calls, [])
        gc.collect()
    rec.ev("one_sided_failures")
    if r.exc is not None:
        rec.fail(f"fails:{how}:{pair[0]}:not-a-connect-error", {"case": what, "outcome": repr(r.outcome())})
        return
    if how == "early-error" and (r.err is None or r.err.code.value != want):
        rec.fail(f"fails:{how}:{pair[0]}:outcome", {"case": what, "outcome": repr(r.outcome())})
        return
    if how == "early-ok" and r.err is not None:
        rec.fail(f"fails:{how}:{pair[0]}:outcome", {"case": what, "outcome": repr(r.outcome())})
        return
    if how in ("fake", "iterator-raises") and r.err is None:
        rec.fail(f"fails:{how}:{pair[0]}:success", {"case": what, "msgs": len(r.msgs)})
        return
    if endless["n"] and endless["closed"] != 1:
        rec.fail(f"fails:{how}:{pair[0]}:request-iterator", {"case": what, "closed": endless["closed"], "pulled": endless["n"]})
        return
    if endless["n"] > st["n"] + 2:
        rec.fail(f"fails:{how}:{pair[0]}:iterator-runs-on", {"case": what, "at_end": st["n"], "finally": endless["n"]})
        return
    if not handlers_done(rec, f"fails:{how}:{pair[0]}", what, log.calls):
        return
    rec.nontrivial((cfg.key(), kind, how, gap, repr(script)))
    rec.sample({**what, "outcome": repr(r.outcome())})


def messy_cleanup(rec, rng, idx):
    """Handlers whose cleanup itself waits or raises when they are stopped early."""
    p = list(E.PROTOS)[idx % 3]
    kind = ["server_stream", "bidi"][(idx // 3) % 2]
    mode = ["waits", "raises", "waits-and-raises"][(idx // 6) % 3]
    how = rng.choice(["stop", "cancel", "server-cancel", "disconnect_at"])
    cfg = E.random_cfg(rng, proto=p, pair=("async", "asgi"))
    done: list = []
    begun: list = []

    class H(E.AHandler):
        def _steps(self, name, request, ctx, single):
            async def gen():
                begun.append(1)
                try:
                    for i in range(20):
                        yield M.Out(id=str(i))
                        await asyncio.sleep(0.1)
                finally:
                    if "waits" in mode:
                        await asyncio.sleep(0)
                        await asyncio.sleep(0.01)
                    done.append(1)
                    if "raises" in mode:
                        raise ValueError("cleanup failed")
            return gen()

    log = E.Log()
    app = E.build_app(cfg, None, log, handler=H(None, log))
    what = {**cfg.brief(), "kind": kind, "cleanup": mode, "how": how}
    if how in ("server-cancel", "disconnect_at"):
        w = R.request(p, kind, cfg.codec, [M.Msg(id="q")])
        at = rng.choice([0.05, 0.35, 1.01])
        ex = bridge.asgi_once(app, w.method, cfg.base + w.path, w.headers, w.body, cfg.plan or bridge.Plan(), settle=60.0, do_gc=True,
                              after=lambda ex: strip_all(None, log.calls, [ex]), **({"cancel_time": at} if how == "server-cancel" else {"disconnect_at": at}))
        rep = ex.report
        ended = ex.app_done
    else:
        tr = E.build_transport(cfg, app)
        k = rng.randint(1, 5)

        async def main():
            client = E.build_client(cfg, tr)
            if how == "stop":
                await E.acall(client, E.Spec(kind, [M.Msg(id="q")], stop_after=k))
            else:
                t = asyncio.ensure_future(E.acall(client, E.Spec(kind, [M.Msg(id="q")])))
                await asyncio.sleep(0.1 * k - 0.05)
                t.cancel()
                await asyncio.wait([t])
                strip_all(t.result(), [], tr.exchanges)

        rep = vloop.run(main, settle=60.0, do_gc=True)
        ended = all(ex.app_done for ex in tr.exchanges)
    if rep.deadlock or rep.exc or not ended:
        rec.fail(f"messy:{how}:never-completes", {"case": what, "deadlock": rep.deadlock, "exc": repr(rep.exc), "stacks": rep.stacks[:4]})
        return
    rec.ev("cleanups_observed", len(done))
    if len(done) != len(begun):
        rec.fail(f"messy:{how}:cleanup-count", {"case": what, "begun": len(begun), "cleanups": len(done)})
        return
    if not clean(rec, f"messy:{how}", what, rep):
        return
    rec.nontrivial((cfg.key(), kind, mode, how))
    rec.sample(what)


def refused(rec, rng, idx):
    """A response the client gives up on: its connection is released when the call ends, not when the exception is forgotten."""
    p = list(E.PROTOS)[idx % 3]
    kind = E.KINDS[(idx // 3) % len(E.KINDS)]
    sync = bool((idx // 15) % 2)
    how = rng.choice(["two-messages", "two-messages", "too-large", "corrupt", "bad-type", "error-then-more", "bad-trailer"])
    cfg = E.random_cfg(rng, proto=p, pair=("sync", "wsgi") if sync else ("async", "asgi"))
    cfg.client_timeout = rng.choice([None, 3000])
    if how == "too-large":
        cfg.client_max = 20
    w = R.response(p, kind, cfg.codec, [M.out(rng, size=10) for _ in range(3)] if kind in E.STREAM_OUT or how == "two-messages" else [M.out(rng, size=10)])
    body = w.body
    if how == "too-large":
        w = R.response(p, kind, cfg.codec, [M.Out(id="x" * 500)] * (3 if kind in E.STREAM_OUT else 1))
        body = w.body
    elif how == "corrupt":
        body = MU.mutate(rng, body)[1]
    elif how == "bad-type":
        w = R.WireResp(w.status, [(k, v) for k, v in w.headers if k.lower() != "content-type"] + [("content-type", "text/html")], w.body, w.trailers)
    elif how == "bad-trailer":
        body = body + b"\x01\x00\x00\x00\x01\xff" + body
    cut = rng.randint(0, len(body))
    more = rng.choice([[], [("sleep", 0.5)], [b"\x00" * 50], [("sleep", 0.1), b"\x00\x00", ("sleep", 5000.0)]])
    if sync or cfg.client_timeout is None:
        more = [m for m in more if m != ("sleep", 5000.0)]
    f = R.Fake(w.status, w.headers, [body[:cut], body[cut:], *more], w.trailers)
    fs = (R.FakeServerSync if sync else R.FakeServer)(f)
    spec = E.Spec(kind, [M.msg(rng, size=5)] * (rng.randint(0, 2) if kind in E.STREAM_IN else 1))
    what = {**cfg.brief(), "kind": kind, "how": how, "cut": cut, "more": more}
    log = E.Log()
    rs: list = []
    closed: list = []
    if sync:
        with vtime.activate(vtime.Clock()), vloop.cpu_guard():
            rs.append(E.scall(E.build_client(cfg, fs), spec, log))
            closed = [g.closed for g in fs.got]
        gc.collect()
    else:
        async def main():
            rs.append(await E.acall(E.build_client(cfg, fs), spec, log))
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            closed.extend(g.closed for g in fs.got)
            strip_all(rs[0], [], [])
        rep = vloop.run(main, settle=60.0, do_gc=True)
        if rep.deadlock or rep.exc:
            rec.fail("refused:never-completes", {"case": what, "deadlock": rep.deadlock, "exc": repr(rep.exc), "stacks": rep.stacks[:5]})
            return
        if not clean(rec, "refused", what, rep):
            return
    rec.ev("refused_responses", rs[0].err is not None)
    if closed != [1 if fs.got[0].pulled else 0]:   # (closing a generator that never ran is not observable)
        rec.fail(f"refused:{'sync' if sync else 'async'}:connection-not-released", {"case": what, "closed": closed, "outcome": repr(rs[0].outcome())[:300]})
        return
    rec.nontrivial((cfg.key(), kind, how, cut, repr(more)))
    rec.seen("refusals", (how, repr(rs[0].outcome())[:60]))


WORKLOADS = {
    "refused": Workload(refused, 1500, 30000),
    "cancel": Workload(cancel, 6000, 150000),
    "stop": Workload(stop, 2400, 40000),
    "server_side": Workload(server_side, 4000, 100000),
    "one_side_fails": Workload(one_side_fails, 1200, 20000),
    "messy_cleanup": Workload(messy_cleanup, 600, 8000),
}
