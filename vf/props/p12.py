"""P12: concurrent calls on shared objects do not interfere."""
from __future__ import annotations

import asyncio
import dataclasses
import random
import sys
import threading
import time

from connectrpc.code import Code
from connectrpc.errors import ConnectError

from .. import bridge
from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import vloop, vtime
from ..core import Workload

ID = "P12"
RULE = ("A case runs many calls at once through one client, transport and application, each with its own messages, headers, trailers, "
        "timeout, outcome and random waits, and compares what every call returned and what every handler saw with what that call alone "
        "must give. Tasks run in virtual time; threads run in real time with preemption injected at random lines of the library. "
        "Non-trivial: at least two calls overlapped; distinct by the observed interleaving of events.")
ASSUME = ["threads are interleaved by the interpreter with injected preemption at lines of library code, not exhaustively"]

KINDS = ["unary", "get", "GET", "idem", "client_stream", "server_stream", "bidi"]
LIBDIRS = ("/connectrpc/",)


class Plan1:
    """What one call does and must return."""

    def __init__(self, rng, i: int, proto: str, sync: bool, timed: bool) -> None:
        self.cid = f"call{i}"
        kind = rng.choice(KINDS)
        if kind == "GET" and proto != "connect":
            kind = "get"
        self.get = kind == "GET"
        self.kind = "get" if self.get else kind
        self.sin, self.sout = self.kind in E.STREAM_IN, self.kind in E.STREAM_OUT
        n = rng.choice([0, 1, 3, 6]) if self.sin else 1
        size = rng.choice([0, 10, 2000])
        self.reqs = [M.Msg(id=f"{self.cid}-q{j}", data=self.cid.encode() * (size // 5)) for j in range(n)]
        m = rng.choice([0, 1, 3, 6]) if self.sout else 1
        self.outs = [M.Out(id=f"{self.cid}-r{j}", data=self.cid.encode() * (size // 5)) for j in range(m)]
        self.err_at = rng.choice([None, None, None, *range(m + 1)]) if self.sout else rng.choice([None, None, 0])
        self.code = rng.choice(list(Code))
        self.exc = E.Denied if rng.random() < 0.2 else ConnectError
        self.echo = self.kind == "bidi" and rng.random() < 0.5
        if self.echo:
            self.err_at = None
        self.hdrs = [("x-h", f"{self.cid}-h{j}") for j in range(rng.randint(0, 2))]
        self.trls = [("x-t", f"{self.cid}-t{j}") for j in range(rng.randint(0, 2))]
        self.sleeps = [rng.choice([0, 0, 0.001, 0.01, 0.5]) for _ in range(2 * m + 4)]
        self.gaps = [rng.choice([0, 0, 0.001, 0.02]) for _ in self.reqs]
        self.timeout = None
        self.stuck = False
        self.cancel_at = None
        if timed:
            self.timeout = rng.choice([None, 10**7 * (i + 1)])
            if not sync and rng.random() < 0.1:
                self.stuck, self.timeout = True, rng.choice([5, 50, 700])
            elif not sync and rng.random() < 0.1:
                self.cancel_at = rng.choice([0, 0.001, 0.01, 0.3])
        self.spec = E.Spec(self.kind, self.reqs, headers={"x-cid": self.cid, "x-mine": self.cid * 2}, timeout_ms=self.timeout,
                           use_get=self.get, gaps=self.gaps, cid=self.cid, think=rng.choice([0, 0, 0.002]))

    def script(self):
        sl = iter(self.sleeps * 3)
        yield ("timeout",)
        for k, v in self.hdrs:
            yield ("hdr", k, v)
        yield ("sleep", next(sl))
        for k, v in self.trls:
            yield ("trl", k, v)
        if self.stuck:
            yield ("sleep", 1000.0)
        if self.echo:
            yield ("echoall", lambda m: M.Out(id=m.id, data=m.data))
            return
        if self.sin:
            yield ("recvall",)
        for j, o in enumerate(self.outs):
            yield ("sleep", next(sl))
            if self.err_at == j:
                yield ("raise", self.exc(self.code, f"{self.cid}-error"))
            yield ("send" if self.sout else "ret", o)
        yield ("sleep", next(sl))
        if self.err_at is not None:
            yield ("raise", self.exc(self.code, f"{self.cid}-error"))

    def expected(self):
        if self.echo:
            return [m.id for m in self.reqs], ("ok",)
        if self.err_at is None:
            return [o.id for o in self.outs], ("ok",)
        return ([o.id for o in self.outs[:self.err_at]] if self.sout else []), ("err", self.code.value, f"{self.cid}-error", ())


def others(rng, cfg, p):
    """Clients with other settings which use the same transport and application."""
    cfgs = [cfg]
    for _ in range(rng.choice([0, 0, 1, 2])):
        c = E.random_cfg(rng, proto=p if rng.random() < 0.5 else None, pair=(cfg.client, cfg.server))
        have = cfg.server_comps if cfg.server_comps is not None else ["gzip"]
        cfgs.append(dataclasses.replace(cfg, proto=c.proto, codec=c.codec, accept=c.accept, send=rng.choice([None, *have])))
    return cfgs


class Meta:
    """A metadata interceptor shared by all calls; tokens must not be mixed up."""

    def __init__(self, bad: list) -> None:
        self.bad, self.n = bad, 0

    async def on_start(self, ctx):
        self.n += 1
        await asyncio.sleep(0)
        return ctx.request_headers.get("x-cid"), id(ctx)

    async def on_end(self, token, ctx, error):
        if token != (ctx.request_headers.get("x-cid"), id(ctx)):
            self.bad.append((token, ctx.request_headers.get("x-cid")))


class MetaSync:
    def __init__(self, bad: list) -> None:
        self.bad, self.n = bad, 0

    def on_start_sync(self, ctx):
        return ctx.request_headers.get("x-cid"), id(ctx)

    def on_end_sync(self, token, ctx, error):
        if token != (ctx.request_headers.get("x-cid"), id(ctx)):
            self.bad.append((token, ctx.request_headers.get("x-cid")))


def judge(rec, tag, what, plans, results, calls, default_ms, bad, virtual: bool) -> bool:
    by_cid: dict = {}
    for c in calls:
        by_cid.setdefault(c.cid, []).append(c)
    for p, r in zip(plans, results):
        rec.ev("calls_compared")
        cs = by_cid.get(p.cid, [])
        det = {"case": what, "call": p.cid, "kind": p.kind}
        if p.cancel_at is not None:
            if len(cs) > 1:
                rec.fail(f"{tag}:handler-ran-{len(cs)}-times", det)
                return False
            if r is None or not r.ok:
                continue
        if r is None:
            rec.fail(f"{tag}:no-result", det)
            return False
        if len(cs) != 1 and not (p.stuck and not cs):
            rec.fail(f"{tag}:handler-ran-{len(cs)}-times", det)
            return False
        c = cs[0] if cs else None
        if p.stuck:
            if r.err is None or r.err.code.value != "deadline_exceeded":
                rec.fail(f"{tag}:stuck-call", {**det, "outcome": repr(r.outcome())})
                return False
            continue
        ids, out = p.expected()
        got = ([m.id for m in r.msgs], r.outcome())
        if got != (ids, out):
            rec.fail(f"{tag}:outcome", {**det, "got": repr(got)[:600], "expected": repr((ids, out))[:600]})
            return False
        if any(m.data != (p.reqs[0] if p.reqs else p.outs[0]).data for m in r.msgs):
            rec.fail(f"{tag}:payload", det)
            return False
        if c.method != p.kind or (not (p.err_at is not None and not p.sin) and [m.id for m in c.reqs] != [m.id for m in p.reqs]):
            rec.fail(f"{tag}:handler-saw", {**det, "method": c.method, "got": [m.id for m in c.reqs]})
            return False
        hd = dict(c.headers)
        if hd.get("x-mine") != p.cid * 2:
            rec.fail(f"{tag}:request-headers", {**det, "got": hd.get("x-mine")})
            return False
        h = [(k, v) for k, v in r.headers if k == "x-h"]
        t = [(k, v) for k, v in r.trailers if k == "x-t"]
        if h != p.hdrs or t != p.trls:
            rec.fail(f"{tag}:response-metadata", {**det, "got": [h, t], "expected": [p.hdrs, p.trls]})
            return False
        to = next((v for _, w, v in c.events if w == "timeout"), None)
        ms = p.timeout if p.timeout is not None else default_ms
        if (to is None) != (ms is None) or (ms is not None and not ms - 9000000 < to <= ms + 1e-3):
            rec.fail(f"{tag}:timeout", {**det, "seen": to, "given": ms})
            return False
    if bad:
        rec.fail(f"{tag}:interceptor-token", {"case": what, "bad": bad[:3]})
        return False
    known = {p.cid for p in plans}
    if set(by_cid) - known:
        rec.fail(f"{tag}:unknown-call", {"case": what, "cids": sorted(set(by_cid) - known)})
        return False
    return True


def overlapping(calls_events) -> int:
    """The largest number of handlers inside at the same time."""
    cur = best = 0
    for _, who, what, _i in calls_events:
        if who == "h" and what == "enter":
            cur += 1
            best = max(best, cur)
        elif who == "h" and what == "exit":
            cur -= 1
    return best


def tasks(rec, rng, idx):
    p = list(E.PROTOS)[idx % 3]
    cfg = E.random_cfg(rng, proto=p, pairs=[("async", "asgi")])
    if cfg.plan is None or rng.random() < 0.6:
        cfg.plan = bridge.Plan(rng, delay=rng.choice([0, 0.001, 0.02]))
    cfg.client_timeout = rng.choice([None, 500000000])
    bad: list = []
    if rng.random() < 0.5:
        cfg.client_interceptors = [Meta(bad)]
    if rng.random() < 0.5:
        cfg.server_interceptors = [Meta(bad)]
    n = rng.choice([2, 3, 5, 8, 16])
    cfgs = others(rng, cfg, p)
    use = [rng.randrange(len(cfgs)) for _ in range(n)]
    plans = [Plan1(rng, i, cfgs[use[i]].proto, False, True) for i in range(n)]
    by = {x.cid: x for x in plans}
    log = E.Log()
    app = E.build_app(cfg, lambda name, req, ctx: by[ctx.request_headers["x-cid"]].script(), log)
    tr = E.build_transport(cfg, app)
    starts = [rng.choice([0, 0, 0.001, 0.01, 0.4]) for _ in plans]
    results: list = [None] * n

    async def main():
        clients = [E.build_client(c, tr) for c in cfgs]

        async def one(i):
            await asyncio.sleep(starts[i])
            results[i] = await E.acall(clients[use[i]], plans[i].spec, log)

        ts = [asyncio.ensure_future(one(i)) for i in range(n)]
        for i, x in enumerate(plans):
            if x.cancel_at is not None:
                asyncio.get_running_loop().call_later(starts[i] + x.cancel_at, ts[i].cancel)
        await asyncio.wait(ts)
        for t in ts:
            if not t.cancelled() and t.exception():
                raise t.exception()

    rep = vloop.run(main, settle=20.0)
    what = {**cfg.brief(), "clients": [c.brief() for c in cfgs[1:]], "kinds": [x.kind for x in plans], "cancelled": sum(x.cancel_at is not None for x in plans)}
    if rep.deadlock or rep.exc:
        rec.fail("tasks:broken", {"case": what, "deadlock": rep.deadlock, "exc": repr(rep.exc), "stacks": rep.stacks[:5]})
        return
    if not judge(rec, "tasks", what, plans, results, log.calls, cfg.client_timeout, bad, True):
        return
    ov = overlapping(log.events)
    rec.ev("events_interleaved", len(log.events))
    if ov > 1:
        sched = tuple((w, i if isinstance(i, str) else (i or ("",))[-1 if w == "enter" else 0]) for _, _, w, i in log.events)
        rec.nontrivial(sched)
        rec.seen("interleavings", sched)
        rec.seen("overlap", ov)
    rec.sample({**what, "max_overlap": ov})


class Preempt:
    """A trace function that gives up the processor at random lines of library code."""

    def __init__(self, seed, prob) -> None:
        self.seed, self.prob, self.hits = seed, prob, 0
        self.local = threading.local()
        self.order: list = []

    def trace(self, frame, event, arg):
        if any(d in frame.f_code.co_filename for d in LIBDIRS):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line":
            r = getattr(self.local, "rng", None)
            if r is None:
                r = self.local.rng = random.Random(f"{self.seed}{threading.current_thread().name}")
            x = r.random()
            if x < self.prob:
                self.hits += 1
                if len(self.order) < 400:
                    self.order.append((threading.current_thread().name, frame.f_lineno))
                time.sleep(0 if x < self.prob / 2 else 0.0002)
        return self.line


def run_threads(n, fn, seed, prob):
    """fn(i) in n threads started together; returns exceptions."""
    errs: list = []
    bar = threading.Barrier(n)
    pre = Preempt(seed, prob)

    def body(i):
        try:
            if prob:
                sys.settrace(pre.trace)
            bar.wait(20)
            fn(i)
        except BaseException as e:  # noqa: BLE001
            errs.append(e)
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=body, args=(i,), name=f"t{i}", daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        alive = [t.name for t in ts if t.is_alive()]
    finally:
        sys.setswitchinterval(old)
    return errs, alive, pre


def threads(rec, rng, idx):
    p = list(E.PROTOS)[idx % 3]
    cfg = E.random_cfg(rng, proto=p, pairs=[("sync", "wsgi")])
    cfg.plan = bridge.Plan(rng)
    bad: list = []
    if rng.random() < 0.5:
        cfg.client_interceptors = [MetaSync(bad)]
    if rng.random() < 0.5:
        cfg.server_interceptors = [MetaSync(bad)]
    nt = rng.choice([2, 3, 4, 8])
    per = rng.choice([1, 2, 3])
    cfgs = others(rng, cfg, p)
    use = [rng.randrange(len(cfgs)) for _ in range(nt * per)]
    plans = [Plan1(rng, i, cfgs[use[i]].proto, True, True) for i in range(nt * per)]
    by = {x.cid: x for x in plans}
    log = E.Log()
    app = E.build_app(cfg, lambda name, req, ctx: by[ctx.request_headers["x-cid"]].script(), log)
    tr = E.build_transport(cfg, app)
    clients = [E.build_client(c, tr) for c in cfgs]
    results: list = [None] * len(plans)

    def one(i):
        for j in range(i, len(plans), nt):
            results[j] = E.scall(clients[use[j]], plans[j].spec, log)

    prob = rng.choice([0.0, 0.003, 0.02, 0.1])
    errs, alive, pre = run_threads(nt, one, f"{rec.seed}:{idx}", prob)
    what = {**cfg.brief(), "clients": [c.brief() for c in cfgs[1:]], "kinds": [x.kind for x in plans], "threads": nt, "per_thread": per, "preemption": prob}
    if alive:
        rec.fail("threads:never-completes", {"case": what, "threads": alive})
        return
    if errs:
        raise errs[0]
    if not judge(rec, "threads", what, plans, results, log.calls, None, bad, False):
        return
    ov = overlapping(log.events)
    rec.ev("events_interleaved", len(log.events))
    rec.ev("preemptions_injected", pre.hits)
    if ov > 1:
        sched = tuple((w, i if isinstance(i, str) else (i or ("",))[-1 if w == "enter" else 0]) for _, _, w, i in list(log.events))
        rec.nontrivial(sched)
        rec.seen("thread_interleavings", (sched, tuple(pre.order)))
        rec.seen("overlap", ov)
    rec.sample({**what, "max_overlap": ov})


def loops(rec, rng, idx):
    """One application and one client object used from event loops in several threads."""
    p = list(E.PROTOS)[idx % 3]
    cfg = E.random_cfg(rng, proto=p, pairs=[("async", "asgi")])
    cfg.plan = bridge.Plan(rng)
    bad: list = []
    if rng.random() < 0.5:
        cfg.server_interceptors = [Meta(bad)]
    nt, per = rng.choice([2, 3, 4]), rng.choice([1, 3])
    cfgs = others(rng, cfg, p)
    use = [rng.randrange(len(cfgs)) for _ in range(nt * per)]
    plans = [Plan1(rng, i, cfgs[use[i]].proto, True, True) for i in range(nt * per)]
    for x in plans:
        x.sleeps = [min(s, 0.001) for s in x.sleeps]
        x.gaps[:] = [min(s, 0.001) for s in x.gaps]
        x.spec.think = 0
    by = {x.cid: x for x in plans}
    log = E.Log()
    app = E.build_app(cfg, lambda name, req, ctx: by[ctx.request_headers["x-cid"]].script(), log)
    tr = E.build_transport(cfg, app)
    clients = [E.build_client(c, tr) for c in cfgs]
    results: list = [None] * len(plans)

    def one(i):
        async def main():
            async def call(j):
                results[j] = await E.acall(clients[use[j]], plans[j].spec, log)
            await asyncio.gather(*(call(j) for j in range(i, len(plans), nt)))
        asyncio.run(main())

    prob = rng.choice([0.0, 0.003, 0.02])
    errs, alive, pre = run_threads(nt, one, f"{rec.seed}:{idx}", prob)
    what = {**cfg.brief(), "clients": [c.brief() for c in cfgs[1:]], "kinds": [x.kind for x in plans], "threads": nt, "per_thread": per, "preemption": prob}
    if alive:
        rec.fail("loops:never-completes", {"case": what, "threads": alive})
        return
    if errs:
        raise errs[0]
    if not judge(rec, "loops", what, plans, results, log.calls, None, bad, False):
        return
    ov = overlapping(log.events)
    rec.ev("events_interleaved", len(log.events))
    rec.ev("preemptions_injected", pre.hits)
    if ov > 1:
        rec.nontrivial(tuple((w, repr(i)) for _, _, w, i in list(log.events)))
        rec.seen("overlap", ov)
    rec.sample({**what, "max_overlap": ov})


def headers(rec, rng, idx):
    """One headers object given to many overlapping calls of different clients."""
    sync = idx % 3 == 2
    cfg = E.random_cfg(rng, pairs=[("sync", "wsgi") if sync else ("async", "asgi")])
    cfg.plan = bridge.Plan(rng)
    n = rng.choice([2, 3, 5])
    cfgs = others(rng, cfg, cfg.proto)
    use = [rng.randrange(len(cfgs)) for _ in range(n)]
    own = rng.choice(["x-own", "authorization", "user-agent"])
    mapping = rng.random() < 0.3
    shared = {own: "mine"} if mapping else E.Headers([(own, "mine"), ("x-two", "1"), ("x-two", "2")])
    before = list(shared.items() if mapping else shared.allitems())
    kinds = [rng.choice(KINDS[:6]) for _ in range(n)]
    specs = []
    for i in range(n):
        get = kinds[i] == "GET" and cfgs[use[i]].proto == "connect"
        k = "get" if kinds[i] == "GET" else kinds[i]
        specs.append(E.Spec(k, [M.Msg(id=f"q{i}")], headers=shared, timeout_ms=rng.choice([None, 10**6 * (i + 1)]), use_get=get, cid=f"c{i}"))
    log = E.Log()

    def script(name, request, ctx):
        k = ctx.method.name
        return ([("recvall",)] if k == "ClientStream" else []) + [("sleep", 1.0), ("send" if k == "ServerStream" else "ret", M.Out(id="r"))]

    app = E.build_app(cfg, script, log)
    tr = E.build_transport(cfg, app)
    touch = rng.random() < 0.5 and not sync

    class Adds:
        """Gives every call a header of its own."""

        def __init__(self) -> None:
            self.n = 0

        async def on_start(self, ctx):
            self.n += 1
            ctx.request_headers["x-call"] = str(self.n)

        async def on_end(self, token, ctx, error):
            pass

    # what each call sends when it has the headers to itself
    def alone(i):
        s = dataclasses.replace(specs[i], headers=dict(before) if mapping else E.Headers(before))
        tr1 = E.build_transport(cfg, E.build_app(cfg, script, E.Log()))
        c = dataclasses.replace(cfgs[use[i]], client_interceptors=[])
        if sync:
            with vtime.activate(vtime.Clock()), vloop.cpu_guard():
                r = E.scall(E.build_client(c, tr1), s)
        else:
            async def one():
                return await E.acall(E.build_client(c, tr1), s)
            rep = vloop.run(one, settle=1.0)
            r = rep.result if hasattr(rep, "result") else None
        return r, tr1.exchanges[0].req_headers

    want = [alone(i)[1] for i in range(n)]
    results: list = [None] * n
    if sync:
        with vtime.activate(vtime.Clock()), vloop.cpu_guard():
            clients = [E.build_client(c, tr) for c in cfgs]
            for i in range(n):
                results[i] = E.scall(clients[use[i]], specs[i], log)
    else:
        if touch:
            cfgs = [dataclasses.replace(c, client_interceptors=[Adds()]) for c in cfgs]

        async def main():
            clients = [E.build_client(c, tr) for c in cfgs]

            async def one(i):
                await asyncio.sleep(0.01 * (i + 1))
                results[i] = await E.acall(clients[use[i]], specs[i], log)
            await asyncio.gather(*(one(i) for i in range(n)))
        rep = vloop.run(main, settle=20.0)
        if rep.deadlock or rep.exc:
            rec.fail("headers:broken", {"deadlock": rep.deadlock, "exc": repr(rep.exc)})
            return
    what = {**cfg.brief(), "clients": [c.brief() for c in cfgs[1:]], "kinds": kinds, "mapping": mapping, "own": own, "interceptor": touch}
    rec.ev("calls_compared", n)
    if list(shared.items() if mapping else shared.allitems()) != before:
        rec.fail("headers:changed", {"case": what, "now": list(shared.items())[:20]})
        return
    if any(not r.ok for r in results):
        rec.fail("headers:failed", {"case": what, "outcomes": [repr(r.outcome()) for r in results]})
        return
    for i, ex in enumerate(tr.exchanges):
        a, b = sorted(ex.req_headers), sorted(want[i])
        if touch:
            if sum(k == "x-call" for k, _ in a) != 1:
                rec.fail("headers:interceptor", {"case": what, "call": i, "got": a})
                return
            a = [x for x in a if x[0] != "x-call"]
        drop = ("connect-timeout-ms", "grpc-timeout")
        if [x for x in a if x[0] not in drop] != [x for x in b if x[0] not in drop] or {x[0] for x in a} != {x[0] for x in b}:
            rec.fail("headers:differ", {"case": what, "call": i, "sent": a, "alone": b})
            return
    if len(set(use)) > 1 or n > 1:
        rec.nontrivial(repr(what))
    rec.sample(what)


WORKLOADS = {
    "tasks": Workload(tasks, 2400, 40000),
    "threads": Workload(threads, 640, 12000),
    "headers": Workload(headers, 600, 12000),
    "loops": Workload(loops, 160, 3000),
}
