"""P19: lifespan sets up the service once and always tears it down."""
from __future__ import annotations

import asyncio
import contextlib
import contextvars

from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.server import ConnectASGIApplication

from .. import bridge, vloop, vtime
from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from ..core import Workload

ID = "P19"
RULE = ("A case is one history of an application's life: startup and shutdown as a server sends them, requests before, between and during, "
        "failures and delays in the service generator's setup and cleanup. An event log written by the generator, the handlers and the lifespan "
        "channel is checked against the life-cycle specification (setup once and first, the yielded instance serves everything, cleanup once and "
        "before the shutdown answer, failures reported). Non-trivial: the lifespan conversation was completed or requests were refused; distinct by history.")
ASSUME = ["servers send startup first and shutdown after it, as ASGI prescribes; requests in flight are finished before shutdown",
          "cleanup is written in finally or async-with blocks"]

ERRS = [lambda s: RuntimeError(s), lambda s: ValueError(s), lambda s: E.Boom(s), lambda s: ConnectError(Code.UNAVAILABLE, s), lambda s: OSError(5, s),
        lambda s: TimeoutError(s), lambda s: KeyError(s)]


class Svc(E.AHandler):
    def __init__(self, name, ev, delay) -> None:
        super().__init__(self._script, E.Log())
        self.name, self.ev, self.delay = name, ev, delay

    def _script(self, name, request, ctx):
        self.ev.append((vtime.monotonic(), "served", self.name))
        s: list = [("sleep", self.delay)] if self.delay else []
        if name in E.STREAM_IN:
            s.append(("recvall",))
        if name in E.STREAM_OUT:
            return [*s, ("send", M.Out(id=self.name)), ("sleep", self.delay), ("send", M.Out(id=self.name + "+"))]
        return [*s, ("ret", M.Out(id=self.name))]


class Res:
    """A resource of the service that is released by an async-with block."""

    def __init__(self, ev, name, delay) -> None:
        self.ev, self.name, self.delay = ev, name, delay

    async def __aenter__(self):
        await asyncio.sleep(self.delay)
        self.ev.append((vtime.monotonic(), "acquired", self.name))
        return self

    async def __aexit__(self, *exc):
        await asyncio.sleep(self.delay)
        self.ev.append((vtime.monotonic(), "released", self.name))


def service(plan: dict, ev: list, name: str):
    def note(what, info=None):
        ev.append((vtime.monotonic(), what, info if info is not None else name))

    async def gen():
        note("setup")
        async with contextlib.AsyncExitStack() as st:
            for i in range(plan["resources"]):
                await st.enter_async_context(Res(ev, f"{name}.r{i}", plan["delay"]))
            await asyncio.sleep(plan["setup"])
            if plan["setup_fails"] is not None:
                note("setup-fails")
                raise plan["setup_fails"]
            if plan["no_yield"]:
                note("setup-fails")
                return
            note("ready")
            try:
                yield Svc(name, ev, plan["work"])
            finally:
                note("cleanup")
                await asyncio.sleep(plan["cleanup"])
                note("cleaned")
                if plan["cleanup_fails"] is not None:
                    raise plan["cleanup_fails"]
                if plan["yields_again"]:
                    yield Svc("late", ev, 0)
    return gen()


def random_plan(rng) -> dict:
    f = rng.random()
    msg = rng.choice(["boom", "", "späß", "x" * 300, "a\nb"])
    again = 0.35 <= f < 0.4
    return {"setup": rng.choice([0, 0, 0.5, 3]), "cleanup": rng.choice([0, 0, 0.5, 3]), "work": rng.choice([0, 0, 0.2]), "delay": rng.choice([0, 0.1]),
            "resources": 0 if again else rng.randint(0, 3), "setup_fails": rng.choice(ERRS)(msg) if f < 0.15 else None, "no_yield": 0.15 <= f < 0.2,
            "cleanup_fails": rng.choice(ERRS)(msg) if 0.2 <= f < 0.35 else None, "yields_again": again}


class Channel:
    """The server's end of the lifespan conversation."""

    def __init__(self, app, ev) -> None:
        self.app, self.ev = app, ev
        self.answers = 0
        self.on_started = None     # called while the application reports that it has started
        self.q: asyncio.Queue = asyncio.Queue()
        self.sent: list = []
        self.exc: BaseException | None = None
        self.changed = asyncio.Event()
        self.task = asyncio.get_running_loop().create_task(self._run(), context=contextvars.Context())

    async def _run(self) -> None:
        try:
            await self.app({"type": "lifespan", "asgi": {"version": "3.0", "spec_version": "2.0"}, "state": {}}, self.q.get, self._send)
        except BaseException as e:  # noqa: BLE001
            self.exc = e
        finally:
            self.ev.append((vtime.monotonic(), "lifespan-over", None))
            self.changed.set()

    async def _send(self, m) -> None:
        await asyncio.sleep(0)
        self.sent.append(m)
        self.ev.append((vtime.monotonic(), m.get("type"), m.get("message")))
        if m.get("type") == "lifespan.startup.complete" and self.on_started:
            await self.on_started()
        self.answers += 1
        self.changed.set()

    async def say(self, what: str) -> str | None:
        """Sends an event and waits for the answer (or for the application to be over)."""
        n = self.answers
        self.ev.append((vtime.monotonic(), "->" + what, None))
        self.q.put_nowait({"type": "lifespan." + what})
        while self.answers == n and not self.task.done():
            self.changed.clear()
            await self.changed.wait()
        return self.sent[n]["type"] if len(self.sent) > n else None


def one_request(rng, client, kind=None):
    kind = kind or rng.choice(["unary", "server_stream", "client_stream", "bidi", "get"])
    return E.acall(client, E.Spec(kind, [M.Msg(id="q")]))


def life(rec, rng, idx):
    """Histories of one or two applications with generator services."""
    n_apps = 1 if rng.random() < 0.8 else 2
    plans = [random_plan(rng) for _ in range(n_apps)]
    inside = rng.random() < 0.3
    early = rng.random() < 0.3          # requests before and during startup
    n_req = rng.choice([0, 1, 3, 8])
    shutdown = rng.random() < 0.9
    icept = rng.random() < 0.3
    icept_log: list = []
    events: list[list] = [[] for _ in plans]
    chans: list = []
    early_res: list[list] = [[] for _ in plans]
    res: list[list] = [[] for _ in plans]
    started: list = [None] * n_apps
    stopped: list = [None] * n_apps
    n_early: list = [0] * n_apps

    class Meta:
        async def on_start(self, ctx):
            icept_log.append("start")

        async def on_end(self, token, ctx, error):
            icept_log.append("end")

    async def drive(i):
        ev = events[i]
        gen = service(plans[i], ev, f"s{i}")
        cfg = E.Cfg(plan=bridge.Plan(rng), proto=rng.choice(list(E.PROTOS)))
        if icept:
            cfg.server_interceptors = iter([Meta()])
        app = E.build_app(cfg, None, E.Log(), handler=gen)
        tr = bridge.AsgiBridge(app, cfg.plan)
        client = E.build_client(cfg, tr)
        ch = Channel(app, ev)
        chans.append(ch)
        pre = []
        at_once: list = []
        if inside:
            # the server serves requests as soon as it has the answer
            async def on_started():
                n_early[i] = len(tr.exchanges)
                at_once.append(await one_request(rng, client))
            ch.on_started = on_started
        if early:
            if rng.random() < 0.5:
                pre.append(asyncio.create_task(one_request(rng, client)))
                await asyncio.sleep(0.01)
            starting = asyncio.create_task(ch.say("startup"))
            # while the setup runs
            for _ in range(rng.randint(0, 2)):
                await asyncio.sleep(rng.choice([0, 0.0137, 0.2917]))
                if not ch.sent and plans[i]["setup"]:
                    pre.append(asyncio.create_task(one_request(rng, client)))
                    await asyncio.sleep(0)
            started[i] = await starting
        else:
            started[i] = await ch.say("startup")
        early_res[i] = [await t for t in pre]
        if not at_once:
            n_early[i] = len(tr.exchanges)
        if started[i] == "lifespan.startup.complete":
            if rng.random() < 0.5:
                res[i] = list(await asyncio.gather(*[one_request(rng, client) for _ in range(n_req)]))
            else:
                res[i] = [await one_request(rng, client) for _ in range(n_req)]
            res[i] += at_once
            if shutdown:
                stopped[i] = await ch.say("shutdown")
        else:
            # a server gives up, but requests that still come are refused
            res[i] = [await one_request(rng, client) for _ in range(rng.randint(0, 1))]
        if not (shutdown and started[i] == "lifespan.startup.complete") and not ch.task.done():
            ch.task.cancel()
        with contextlib.suppress(BaseException):
            await ch.task
        ev.append((vtime.monotonic(), "over", None))
        await client.close()
        # what the specification leaves open is cleaned up here
        with contextlib.suppress(BaseException):
            async for _ in gen:
                pass
        for ex in tr.exchanges[:n_early[i]]:
            ev.append((vtime.monotonic(), "early-exchange", type(ex.app_exc).__name__ if ex.app_exc else None))
        rec.seen("early", tuple(type(ex.app_exc).__name__ for ex in tr.exchanges[:n_early[i]]))

    async def main():
        await asyncio.gather(*[drive(i) for i in range(n_apps)])

    rep = vloop.run(main, settle=1.0, limit=100000)
    what = {"plans": [{k: repr(v) for k, v in p.items()} for p in plans], "early": early, "requests": n_req, "shutdown": shutdown, "inside": inside, "interceptor": icept}
    if rep.exc is not None:
        raise rep.exc
    if rep.deadlock:
        rec.fail("life:never-completes", {"case": what, "deadlock": rep.deadlock, "events": events})
        return
    for i, p in enumerate(plans):
        ev = events[i]
        name = f"s{i}"
        d = {"case": what, "app": i, "events": [(round(t, 3), w, x) for t, w, x in ev][:40]}
        ch = chans[i] if n_apps == 1 else next(c for c in chans if c.ev is ev)
        bad = p["setup_fails"] is not None or p["no_yield"]
        seq = [w for _, w, _ in ev]
        seq = seq[:seq.index("over")]

        def at(w):
            return seq.index(w)
        if seq.count("setup") != 1 or seq.count("acquired") != p["resources"]:
            rec.fail("life:setup-count", d)
            return
        if at("setup") < at("->startup"):
            rec.fail("life:setup-before-startup", d)
            return
        if ch.exc is not None and not isinstance(ch.exc, asyncio.CancelledError):
            rec.fail("life:lifespan-raises", {**d, "exc": repr(ch.exc)})
            return
        if any(m.get("type") not in ("lifespan.startup.complete", "lifespan.startup.failed", "lifespan.shutdown.complete", "lifespan.shutdown.failed") for m in ch.sent):
            rec.fail("life:unknown-event", {**d, "sent": ch.sent})
            return
        rec.ev("lifespan_answers", len(ch.sent))
        # requests that came too early are refused and reach nobody
        rec.ev("early_requests", len(early_res[i]))
        if any(r.ok for r in early_res[i]):
            rec.fail("life:early-request-served", d)
            return
        if [x for _, w, x in ev if w == "early-exchange" and x is None]:
            rec.fail("life:early-request-accepted", d)
            return
        if bad:
            if started[i] != "lifespan.startup.failed" or len(ch.sent) != 1 or seq.count("served"):
                rec.fail("life:startup-failure-lost", d)
                return
            if p["setup_fails"] is not None and str(p["setup_fails"]) not in ch.sent[0].get("message", ""):
                rec.fail("life:startup-failure-text", {**d, "sent": ch.sent})
                return
            if any(r.ok for r in res[i]):
                rec.fail("life:served-after-failed-startup", d)
                return
            if seq.count("released") != p["resources"]:
                rec.fail("life:failed-setup-not-unwound", d)
                return
            rec.ev("failed_startups")
            continue
        if started[i] != "lifespan.startup.complete" or at("ready") > at("lifespan.startup.complete"):
            rec.fail("life:startup-answer", d)
            return
        served = [x for _, w, x in ev if w == "served"]
        if any(x != name for x in served) or len(served) != len(res[i]):
            rec.fail("life:instance", d)
            return
        for r in res[i]:
            if not r.ok or r.msgs[0].id != name:
                rec.fail("life:response", {**d, "outcome": repr(r.outcome())})
                return
        rec.ev("requests_served", len(served))
        if not shutdown:
            continue
        if seq.count("cleanup") != 1 or seq.count("cleaned") != 1 or seq.count("released") != p["resources"]:
            rec.fail("life:cleanup-count", d)
            return
        failed = p["cleanup_fails"] is not None or p["yields_again"]
        if stopped[i] != ("lifespan.shutdown.failed" if failed else "lifespan.shutdown.complete") or len(ch.sent) != 2:
            rec.fail("life:shutdown-answer", {**d, "sent": ch.sent})
            return
        if p["cleanup_fails"] is not None and str(p["cleanup_fails"]) not in ch.sent[1].get("message", ""):
            rec.fail("life:shutdown-failure-text", {**d, "sent": ch.sent})
            return
        if not at("->shutdown") < at("cleanup") < at("cleaned") < at(stopped[i]):
            rec.fail("life:cleanup-order", d)
            return
        if p["resources"] and max(k for k, w in enumerate(seq) if w == "released") > at(stopped[i]):
            rec.fail("life:release-order", d)
            return
        rec.ev("shutdowns")
    if icept and (icept_log.count("start") != icept_log.count("end") or icept_log.count("start") != sum(len(r) for i, r in enumerate(res) if started[i] == "lifespan.startup.complete")):
        rec.fail("life:interceptor-runs", {"case": what, "log": icept_log})
        return
    if shutdown and (rep.lib_gc_agens() or rep.leaked_tasks or rep.exc_reports):
        rec.fail("life:leaks", {"case": what, "gc": rep.gc_agens, "tasks": rep.leaked_tasks, "reports": rep.exc_reports})
        return
    rec.nontrivial((tuple(map(str, what.values())), tuple(len(r) for r in res)))
    rec.seen("histories", tuple(w for e in events for _, w, _ in e if w != "served"))
    rec.sample(what)


def none(rec, rng, idx):
    """Servers without lifespan, and plain instances with and without it."""
    generator = idx % 2 == 0
    lifespan = idx % 4 == 3
    ev: list = []
    cfg = E.Cfg(plan=bridge.Plan(rng), proto=rng.choice(list(E.PROTOS)), codec=rng.choice(["proto", "json"]))
    kinds = [rng.choice(["unary", "get", "server_stream", "client_stream", "bidi"]) for _ in range(rng.randint(1, 3))]
    before = rng.random() < 0.5
    cycles = rng.choice([1, 1, 2, 3]) if lifespan else 1     # servers that start it again
    icepts = 0 if generator else rng.choice([0, 1, 2])
    seen: list = []
    plan = {**random_plan(rng), "setup_fails": None, "no_yield": False}
    what = {"generator": generator, "lifespan": lifespan, "kinds": kinds, "requests_before_startup": before, "proto": cfg.proto, "cycles": cycles, "interceptors": icepts}
    res: list = []
    sent: list = []
    exs: list = []

    class Meta:
        def __init__(self, n) -> None:
            self.n = n

        async def on_start(self, ctx):
            seen.append(("start", self.n))

        async def on_end(self, token, ctx, error):
            seen.append(("end", self.n))

    cfg.server_interceptors = [Meta(i) for i in range(icepts)]

    async def main():
        h = service(plan, ev, "g") if generator else Svc("p", ev, 0)
        app = E.build_app(cfg, None, E.Log(), handler=h)
        tr = bridge.AsgiBridge(app, cfg.plan)
        client = E.build_client(cfg, tr)
        todo = list(kinds)
        ch = None
        if lifespan and before:
            res.append(await one_request(rng, client, todo[0]))
        for _ in range(cycles):
            if lifespan:
                ch = Channel(app, ev)
                await ch.say("startup")
            for k in todo:
                res.append(await one_request(rng, client, k))
            if ch:
                await ch.say("shutdown")
                await ch.task
                sent.extend(m["type"] for m in ch.sent)
                if ch.exc is not None:
                    sent.append(repr(ch.exc))
        exs.extend(tr.exchanges)
        await client.close()
        if generator:
            await h.aclose()

    rep = vloop.run(main, settle=1.0)
    if rep.exc is not None:
        raise rep.exc
    if rep.deadlock:
        rec.fail("none:never-completes", what)
        return
    rec.ev("requests", len(res))
    if generator:
        if any(r.ok for r in res) or any(w in ("setup", "served") for _, w, _ in ev):
            rec.fail("none:generator-served-without-lifespan", {"case": what, "events": ev[:10], "outcomes": [repr(r.outcome()) for r in res]})
            return
        if any(not isinstance(ex.app_exc, RuntimeError) for ex in exs):
            rec.fail("none:no-clear-refusal", {"case": what, "exc": [repr(ex.app_exc) for ex in exs]})
            return
        rec.ev("refusals", len(res))
    else:
        if any(not r.ok or r.msgs[0].id != "p" for r in res) or sum(w == "served" for _, w, _ in ev) != len(res):
            rec.fail("none:plain-instance", {"case": what, "outcomes": [repr(r.outcome()) for r in res]})
            return
        if sent != (["lifespan.startup.complete", "lifespan.shutdown.complete"] * cycles if lifespan else []):
            rec.fail("none:plain-lifespan", {"case": what, "sent": sent})
            return
        each = [("start", i) for i in range(icepts)] + [("end", i) for i in reversed(range(icepts))]
        rec.ev("interceptor_events", len(seen))
        if seen != each * len(res):
            rec.fail("none:plain-interceptors", {"case": what, "seen": seen[:20], "requests": len(res)})
            return
    rec.nontrivial((tuple(map(str, what.values())), len(res)))
    rec.sample(what)


class EmptyApp(ConnectASGIApplication):
    """What is generated for a service without methods."""

    def __init__(self, service, endpoints, **kw) -> None:
        super().__init__(service=service, endpoints=endpoints, **kw)

    @property
    def path(self) -> str:
        return "/verif.v1.Nothing"


def empty(rec, rng, idx):
    """A service without methods lives like any other, and has nothing at any path."""
    generator = idx % 2 == 0
    ev: list = []
    p = {**random_plan(rng), "setup_fails": None, "no_yield": False}
    n = rng.randint(0, 3)
    cfg = E.Cfg(plan=bridge.Plan(rng), proto=rng.choice(list(E.PROTOS)), codec=rng.choice(["proto", "json"]))
    what = {"generator": generator, "plan": {k: repr(v) for k, v in p.items()}, "requests": n, "proto": cfg.proto, "codec": cfg.codec}
    res: list = []
    exs: list = []
    answers: list = []
    served: list = []

    def endpoints(svc):
        served.append(getattr(svc, "name", None))
        return {}

    async def main():
        h = service(p, ev, "s0") if generator else Svc("s0", ev, 0)
        app = EmptyApp(h, endpoints)
        ch = Channel(app, ev)
        answers.append(await ch.say("startup"))
        tr = bridge.AsgiBridge(app, cfg.plan)
        client = E.build_client(cfg, tr)
        for _ in range(n):
            res.append(await one_request(rng, client))
        exs.extend(tr.exchanges)
        await client.close()
        answers.append(await ch.say("shutdown"))
        with contextlib.suppress(BaseException):
            await ch.task
        if ch.exc is not None:
            answers.append(repr(ch.exc))
        if generator:
            with contextlib.suppress(BaseException):
                async for _ in h:
                    pass

    rep = vloop.run(main, settle=1.0)
    if rep.exc is not None:
        raise rep.exc
    d = {"case": what, "answers": answers, "served": served, "responses": [(e.monitor.status, repr(e.app_exc)) for e in exs], "events": ev[:20]}
    failed = generator and (p["cleanup_fails"] is not None or p["yields_again"])
    if rep.deadlock or answers != ["lifespan.startup.complete", "lifespan.shutdown." + ("failed" if failed else "complete")]:
        rec.fail("empty:lifespan", {**d, "deadlock": rep.deadlock})
        return
    if generator and [w for _, w, _ in ev].count("cleaned") != 1:
        rec.fail("empty:cleanup-count", d)
        return
    if not served or set(served) != {"s0"}:
        rec.fail("empty:instance", d)
        return
    rec.ev("requests", len(exs))
    if any(e.app_exc is not None or e.monitor.status != 404 for e in exs):
        rec.fail("empty:not-404", d)
        return
    rec.nontrivial((tuple(map(str, what.values())),))
    rec.sample(what)


WORKLOADS = {
    "life": Workload(life, 2400, 40000),
    "empty": Workload(empty, 300, 4000),
    "none": Workload(none, 1200, 12000),
}
_ = O
