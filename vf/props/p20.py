"""P20: telemetry records every call once, truthfully and linked."""
from __future__ import annotations

import asyncio
import contextlib
import time

from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc_otel import OpenTelemetryInterceptor
from opentelemetry.propagators.composite import CompositePropagator
from opentelemetry import trace
from opentelemetry.trace import NonRecordingSpan, SpanContext, SpanKind, TraceFlags, get_current_span
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator

from .. import bridge
from .. import engine as E
from .. import msgs as M
from .. import otel, vloop, vtime
from ..core import Workload
from .p12 import Plan1, overlapping, run_threads

ID = "P20"
RULE = ("A case runs one or many calls with telemetry on the client, the server or both, and compares the spans and metric points "
        "collected by an in-memory recorder with what the callers and handlers themselves experienced: one ended span per call and side, "
        "its name, kind, attributes, status and parent, the span current in handler, inner and outer interceptors, and nothing left "
        "current afterwards. Non-trivial: at least one span was judged; distinct by configuration, outcome and observed interleaving.")
ASSUME = ["for calls cancelled or abandoned by the caller only the existence, naming and linkage of the spans is judged, not their status",
          "client and server run in the same process but in separate contexts, so linkage can only come from the wire"]

PROP = {"connect": ("http", 80), }
BASES = [("http://svc.test", "svc.test", 80), ("http://svc.test:8080", "svc.test", 8080), ("https://svc.test", "svc.test", 443),
         ("https://svc.test:9443", "svc.test", 9443), ("http://[::1]:7001", "[::1]", 7001), ("http://10.1.2.3:50051", "10.1.2.3", 50051)]


class NoProp(CompositePropagator):
    def __init__(self) -> None:
        super().__init__([])


class OtherProp(TraceContextTextMapPropagator):
    """The same information in headers of another name."""

    class _Get:
        def __init__(self, g):
            self.g = g

        def get(self, carrier, key):
            return self.g.get(carrier, "x-custom-" + key)

        def keys(self, carrier):
            return self.g.keys(carrier)

    def extract(self, carrier, context=None, getter=None):
        from opentelemetry.propagators.textmap import default_getter
        return super().extract(carrier, context, self._Get(getter or default_getter))

    def inject(self, carrier, context=None, setter=None):
        d: dict = {}
        super().inject(d, context)
        for k, v in d.items():
            setter.set(carrier, "x-custom-" + k, v)


class Spy:
    """A metadata interceptor recording which span is current."""

    def __init__(self, seen: dict, where: str, times: dict) -> None:
        self.seen, self.where, self.times = seen, where, times

    def note(self, ctx, what) -> None:
        self.times.setdefault((ctx.request_headers.get("x-cid"), self.where), {}).setdefault(what, []).append(time.perf_counter())
        self.seen.setdefault(ctx.request_headers.get("x-cid"), []).append((self.where, what, cur()))

    async def on_start(self, ctx):
        self.note(ctx, "start")

    async def on_end(self, token, ctx, error):
        self.note(ctx, "end")


class SpySync(Spy):
    async def on_start(self, ctx):  # pragma: no cover
        raise AssertionError

    def on_start_sync(self, ctx):
        self.note(ctx, "start")

    def on_end_sync(self, token, ctx, error):
        self.note(ctx, "end")


def cur() -> tuple[int, int]:
    c = get_current_span().get_span_context()
    return (c.trace_id, c.span_id)


NONE = (0, 0)


class Setup:
    """Configures telemetry on both sides of a Cfg and remembers what must be observed."""

    def __init__(self, rng, cfg, rig, *, link=None, sides=None, spies: bool = True) -> None:
        self.rig, self.cfg = rig, cfg
        self.sides = sides or rng.choice(["both"] * 5 + ["client", "server"])
        self.link = link or rng.choice(["default"] * 4 + ["none", "custom", "client-only-none"])
        self.seen: dict = {}
        self.times: dict = {}
        prop = {"default": None, "none": NoProp(), "custom": OtherProp(), "client-only-none": None}[self.link]
        kw = {"tracer_provider": rig.tp, "meter_provider": rig.mp}
        ci: list = []
        si: list = []
        acl, asv = cfg.client == "async", cfg.server == "asgi"
        if self.sides in ("both", "client"):
            cp = NoProp() if self.link == "client-only-none" else prop
            ci.append(OpenTelemetryInterceptor(client=True, propagator=cp, **kw))
        if self.sides in ("both", "server"):
            si.append(OpenTelemetryInterceptor(propagator=prop, **kw))
        if spies:
            ci = [(Spy if acl else SpySync)(self.seen, "c-out", self.times), *ci, (Spy if acl else SpySync)(self.seen, "c-in", self.times)]
            si = [(Spy if asv else SpySync)(self.seen, "s-out", self.times), *si, (Spy if asv else SpySync)(self.seen, "s-in", self.times)]
        cfg.client_interceptors, cfg.server_interceptors = ci, si
        self.handler: dict = {}   # cid -> spans current in the handler
        self.parents: dict = {}   # cid -> the application's span around the call
        self.linked = self.link in ("default", "custom") and self.sides == "both"
        self.base = next(b for b in BASES if b[0] == cfg.base)

    def brief(self) -> dict:
        return {**self.cfg.brief(), "sides": self.sides, "link": self.link, "base": self.cfg.base}

    def span_of(self, side, n):
        """How long all calls took inside and outside the telemetry of this side."""
        c, out = side[0], []
        for pos in ("-in", "-out"):
            at = {cid: v for (cid, w), v in self.times.items() if w == c + pos}
            out.append((set(at), 0.0))
            for v in at.values():
                if len(v.get("start", [])) != 1 or len(v.get("end", [])) != 1:
                    return None
                out[-1] = (out[-1][0], out[-1][1] + v["end"][0] - v["start"][0])
        if len(out[0][0]) != n or out[0][0] != out[1][0]:
            return None
        return out[0][1], out[1][1]

    def look(self, cid):
        def f(ctx, call):
            self.handler.setdefault(cid, []).append(cur())
        return ("do", f)

    def script(self, plan):
        n = 0
        for st in plan.script():
            if n < 6:
                yield self.look(plan.cid)
            n += 1
            yield st


def judge(rec, tag, s: Setup, plans, results, calls, *, inner_parent=None) -> bool:
    rig = s.rig
    det0 = {"case": s.brief()}

    def bad(sig, **kw):
        rec.fail(f"{tag}:{sig}", {**det0, **kw})
        return False

    if (u := rig.unpaired()):
        return bad("span-not-ended-once", what=u)
    if rig.complaints:
        return bad("telemetry-complains", lines=rig.complaints[:3])
    by_id = {otel.ids(x): x for x in rig.rec.ended}
    cspans, sspans = rig.rpc_spans(SpanKind.CLIENT), rig.rpc_spans(SpanKind.SERVER)
    stray = [x.name for x in rig.rec.ended if x.instrumentation_scope.name == "connectrpc-otel" and x.kind not in (SpanKind.CLIENT, SpanKind.SERVER)]
    if stray:
        return bad("span-kind", spans=stray)
    exp_c: dict = {}
    exp_s: dict = {}
    by_cid: dict = {}
    for c in calls:
        by_cid.setdefault(c.cid, []).append(c)
    used: set = set()
    n_server = 0
    for p, r in zip(plans, results):
        d = {"call": p.cid, "kind": p.kind, "outcome": repr(r.outcome()) if r else None}
        loose = p.cancel_at is not None or (r is not None and r.stopped)
        name = "verif.v1.Probe/" + E.PATHS[p.kind]
        base = {"rpc.system.name": "connectrpc", "rpc.method": name, "server.address": s.base[1], "server.port": s.base[2]}
        seen = s.seen.get(p.cid, [])
        hc = by_cid.get(p.cid, [])
        cspan = None
        par = s.parents.get(p.cid)
        if s.sides in ("both", "client"):
            mine = [x for x in cspans if otel.ids(x) in {v for w, _, v in seen if w == "c-in"}]
            started = any(w == "c-in" for w, _, v in seen)
            if not started and (loose or p.stuck):
                # given up before the call began
                if mine:
                    return bad("client-span", **d, n=len(mine))
            else:
                if len(mine) != 1:
                    return bad("client-span-not-current-inside", **d, n=len(mine), seen=seen)
                cspan = mine[0]
                used.add(otel.ids(cspan))
                rec.ev("client_spans_judged")
                if cspan.name != name:
                    return bad("client-span-name", **d, got=cspan.name)
                if otel.parent_ids(cspan) != par:
                    return bad("client-span-parent", **d, got=otel.parent_ids(cspan), expected=par)
                if not check_attrs(rec, tag, d, det0, cspan, base, None if loose else outcome_of_result(r)):
                    return False
                if not loose:
                    key = frozenset({**base, **(err_attrs(outcome_of_result(r)) or {})}.items())
                    exp_c[key] = exp_c.get(key, 0) + 1
                if any(v != otel.ids(cspan) for w, _, v in seen if w == "c-in"):
                    return bad("inner-interceptor-sees-other-span", **d, seen=seen)
            if any(v != (par or NONE) for w, _, v in seen if w == "c-out"):
                return bad("client-span-leaks-to-outer-interceptor", **d, seen=seen, parent=par)
        if s.sides in ("both", "server"):
            cand = {v for w, _, v in seen if w == "s-in"}
            mine = [x for x in sspans if otel.ids(x) in cand]
            if hc or cand:
                if len(mine) != 1 or len(cand) != 1:
                    return bad("server-span-not-current-inside", **d, n=len(mine), seen=seen)
                sp = mine[0]
                used.add(otel.ids(sp))
                n_server += 1
                rec.ev("server_spans_judged")
                if sp.name != name:
                    return bad("server-span-name", **d, got=sp.name)
                if any(v != otel.ids(sp) for v in s.handler.get(p.cid, [])):
                    return bad("handler-sees-other-span", **d, seen=s.handler[p.cid], expected=otel.ids(sp))
                want = inner_parent(p) if inner_parent else None
                if want is None and s.linked and cspan is not None:
                    want = otel.ids(cspan)
                if otel.parent_ids(sp) != want:
                    return bad("server-span-parent", **d, got=otel.parent_ids(sp), expected=want)
                if want is None and cspan is not None and sp.get_span_context().trace_id == cspan.get_span_context().trace_id:
                    return bad("linked-although-disabled", **d)
                cl = s.cfg.plan.client if s.cfg.plan is not None else ("127.0.0.1", 111)
                sbase = dict(base)
                if cl:
                    sbase |= {"client.address": str(cl[0]), "client.port": cl[1]}
                out = outcome_of_call(p, hc[0]) if hc and not loose and not p.stuck else None
                if not check_attrs(rec, tag, d, det0, sp, sbase, out):
                    return False
                if not cl and ("client.address" in sp.attributes or "client.port" in sp.attributes):
                    return bad("invented-client-address", **d, got=dict(sp.attributes))
                if out is not None:
                    key = frozenset({**base, **(err_attrs(out) or {})}.items())
                    exp_s[key] = exp_s.get(key, 0) + 1
                outer = inner_parent(p) if inner_parent and inner_parent.__name__ == "outer_span" else None
                if any(v != (outer or NONE) for w, _, v in seen if w == "s-out"):
                    return bad("server-span-leaks-to-outer-interceptor", **d, seen=seen)
    left = [x for x in cspans + sspans if otel.ids(x) not in used]
    if left:
        return bad("more-spans-than-calls", spans=[(x.name, x.kind.name) for x in left][:4], calls=len(plans))
    if len({i for i in by_id}) != len(rig.rec.ended):
        return bad("span-exported-twice")
    pts = rig.points()
    for metric, exp, n, side in (("rpc.client.call.duration", exp_c, len(cspans), "client"), ("rpc.server.call.duration", exp_s, len(sspans), "server")):
        got = pts.get(metric, {})
        total = sum(got.values())
        rec.ev("metric_points_judged", total)
        if s.sides in ("both", side):
            if total != n:
                return bad(f"{side}-metric-count", got=total, expected=n)
            for k, v in exp.items():
                # calls whose outcome is not judged may add to any point
                have = sum(x for g, x in got.items() if g != "negative" and k <= g and ("error.type" in dict(g)) == ("error.type" in dict(k)))
                if have < v:
                    return bad(f"{side}-metric-attributes", got=[(sorted(map(str, g)), x) for g, x in got.items()], missing=sorted(map(str, k)), count=v)
        elif total:
            return bad(f"{side}-metric-of-other-side", got=total)
        if "negative" in got:
            return bad(f"{side}-negative-duration")
        if total and (span := s.span_of(side, total)) is not None:
            # an interceptor inside takes no longer, one outside no less
            lo, hi = span
            have = rig.sums[metric] * {"s": 1, "ms": 1e-3}.get(rig.units[metric], 1)
            if not lo - 1e-6 <= have <= hi + 1e-6:
                return bad(f"{side}-metric-duration", got=have, at_least=lo, at_most=hi, unit=rig.units[metric])
            rec.ev("durations_judged", total)
            if hi > 0.001:
                rec.ev("durations_that_took_time", total)
    return True


def outcome_of_result(r):
    if r.err is not None:
        return ("ConnectError", r.err.code.value)
    if r.exc is not None:
        return (type(r.exc).__qualname__, "unknown")
    return ("ok",)


BOOMS = {t.__name__: t for t in (E.Boom, TimeoutError, KeyError, ConnectionResetError, NotImplementedError)}


def outcome_of_call(p, c):
    if c.finished == "ok":
        return ("ok",)
    if c.finished == "error:ConnectError":
        return ("ConnectError", p.code.value)
    if c.finished == "error:Denied":
        return ("Denied", p.code.value)
    if c.finished.removeprefix("error:") in BOOMS:
        return (c.finished.removeprefix("error:"), "unknown")
    return None


def err_attrs(out):
    return None if out == ("ok",) else {"error.type": out[0], "rpc.response.status_code": out[1]}


def check_attrs(rec, tag, d, det0, span, base, out) -> bool:
    at = dict(span.attributes)
    rec.ev("attribute_sets_judged")
    wrong = {k: (at.get(k), v) for k, v in base.items() if at.get(k) != v}
    if wrong:
        rec.fail(f"{tag}:{span.kind.name.lower()}-attributes", {**det0, **d, "wrong": wrong})
        return False
    if out is None:
        return True
    err = err_attrs(out)
    got = {k: at[k] for k in ("error.type", "rpc.response.status_code") if k in at}
    if got != (err or {}):
        rec.fail(f"{tag}:{span.kind.name.lower()}-error-attributes", {**det0, **d, "got": got, "expected": err})
        return False
    if otel.is_error(span) != (err is not None):
        rec.fail(f"{tag}:{span.kind.name.lower()}-status", {**det0, **d, "status": span.status.status_code.name, "expected": out})
        return False
    exc = [e for e in span.events if e.name == "exception"]
    if (len(exc) > 0) != (err is not None) or (exc and not str(exc[0].attributes.get("exception.type", "")).endswith(err["error.type"])):
        rec.fail(f"{tag}:{span.kind.name.lower()}-recorded-error", {**det0, **d, "events": [dict(e.attributes) for e in exc], "expected": out})
        return False
    return True


def maybe_boom(rng, plans) -> None:
    """Some handlers fail with an error of their own."""
    for p in plans:
        if p.err_at is not None and rng.random() < 0.25:
            p.boom = True
            orig = p.script
            cls = BOOMS[rng.choice(list(BOOMS))]

            def script(orig=orig, cls=cls):
                for st in orig():
                    yield ("raise", cls("boom")) if st[0] == "raise" else st
            p.script = script


def stale(rng, s, plans) -> None:
    """Some callers pass on headers which carry the trace of something else; the call's own span takes their place."""
    for p in plans:
        if s.linked and rng.random() < 0.3:
            name = rng.choice(["traceparent", "Traceparent"])
            h = {**p.spec.headers, ("x-custom-" if s.link == "custom" else "") + name: f"00-{rng.getrandbits(128):032x}-{rng.getrandbits(64):016x}-01"}
            p.spec.headers = E.Headers(h) if rng.random() < 0.3 else h


def base_for(rng, cfg) -> None:
    cfg.base = rng.choice(BASES)[0]
    cfg.plan = cfg.plan or bridge.Plan(rng)
    cfg.plan.client = rng.choice([("127.0.0.1", 111), ("10.9.8.7", 65535), ("2001:db8::1", 4444), None])


@contextlib.contextmanager
def app_span(rng_choice, s: Setup, cid):
    if not rng_choice:
        yield
        return
    with s.rig.tracer.start_as_current_span("app") as sp:
        s.parents[cid] = otel.ids(sp)
        yield


def tasks(rec, rng, idx):
    p = list(E.PROTOS)[idx % 3]
    cfg = E.random_cfg(rng, proto=p, pairs=[("async", "asgi")])
    if cfg.plan is None or rng.random() < 0.6:
        cfg.plan = bridge.Plan(rng, delay=rng.choice([0, 0.001, 0.02]))
    base_for(rng, cfg)
    rig = otel.Rig()
    s = Setup(rng, cfg, rig)
    n = rng.choice([1, 2, 3, 5, 8])
    plans = [Plan1(rng, i, p, False, True) for i in range(n)]
    maybe_boom(rng, plans)
    stale(rng, s, plans)
    for x in plans:
        if x.cancel_at is not None:
            # A consumer cancelled in its own code leaves the stream open (see `interleaved`).
            x.spec.think = 0
    by = {x.cid: x for x in plans}
    log = E.Log()
    app = E.build_app(cfg, lambda name, req, ctx: s.script(by[ctx.request_headers["x-cid"]]), log)
    tr = E.build_transport(cfg, app)
    starts = [rng.choice([0, 0, 0.001, 0.01, 0.4]) for _ in plans]
    par = [rng.random() < 0.6 for _ in plans]
    results: list = [None] * n
    after: list = []

    async def main():
        client = E.build_client(cfg, tr)

        async def one(i):
            await asyncio.sleep(starts[i])
            with app_span(par[i], s, plans[i].cid):
                before = cur()
                try:
                    results[i] = await E.acall(client, plans[i].spec, log)
                finally:
                    if cur() != before:
                        after.append((plans[i].cid, before, cur()))

        ts = [asyncio.ensure_future(one(i)) for i in range(n)]
        for i, x in enumerate(plans):
            if x.cancel_at is not None:
                asyncio.get_running_loop().call_later(starts[i] + x.cancel_at, ts[i].cancel)
        await asyncio.wait(ts)
        for t in ts:
            if not t.cancelled() and t.exception():
                raise t.exception()

    rep = vloop.run(main, settle=2000.0)
    try:
        if rep.deadlock or rep.exc:
            rec.fail("tasks:broken", {"case": s.brief(), "deadlock": rep.deadlock, "exc": repr(rep.exc)})
            return
        if after:
            rec.fail("tasks:span-left-current", {"case": s.brief(), "calls": after[:3]})
            return
        if not judge(rec, "tasks", s, plans, results, log.calls):
            return
        sched = tuple((w, i if isinstance(i, str) else (i or ("",))[-1 if w == "enter" else 0]) for _, _, w, i in log.events)
        rec.nontrivial((s.sides, s.link, cfg.key(), sched))
        rec.seen("interleavings", sched)
        rec.seen("overlap", overlapping(log.events))
        rec.sample(s.brief())
    finally:
        rig.close()


def threads(rec, rng, idx):
    p = list(E.PROTOS)[idx % 3]
    cfg = E.random_cfg(rng, proto=p, pairs=[("sync", "wsgi")])
    cfg.plan = bridge.Plan(rng)
    base_for(rng, cfg)
    rig = otel.Rig()
    s = Setup(rng, cfg, rig)
    nt, per = rng.choice([2, 3, 4]), rng.choice([1, 2, 3])
    plans = [Plan1(rng, i, p, True, True) for i in range(nt * per)]
    maybe_boom(rng, plans)
    stale(rng, s, plans)
    by = {x.cid: x for x in plans}
    par = [rng.random() < 0.6 for _ in plans]
    log = E.Log()
    app = E.build_app(cfg, lambda name, req, ctx: s.script(by[ctx.request_headers["x-cid"]]), log)
    tr = E.build_transport(cfg, app)
    client = E.build_client(cfg, tr)
    results: list = [None] * len(plans)
    after: list = []

    def one(i):
        for j in range(i, len(plans), nt):
            with app_span(par[j], s, plans[j].cid):
                before = cur()
                results[j] = E.scall(client, plans[j].spec, log)
                if cur() != before:
                    after.append((plans[j].cid, before, cur()))

    errs, alive, pre = run_threads(nt, one, f"{rec.seed}:{idx}", rng.choice([0.0, 0.003, 0.02]))
    try:
        if alive or errs:
            rec.fail("threads:broken", {"case": s.brief(), "threads": alive, "errors": [repr(e) for e in errs]})
            return
        if after:
            rec.fail("threads:span-left-current", {"case": s.brief(), "calls": after[:3]})
            return
        if not judge(rec, "threads", s, plans, results, log.calls):
            return
        rec.nontrivial((s.sides, s.link, cfg.key(), tuple((w, repr(i)) for _, _, w, i in list(log.events))))
        rec.seen("overlap", overlapping(log.events))
        rec.ev("preemptions_injected", pre.hits)
    finally:
        rig.close()


def sequential(rec, rng, idx):
    """Every pairing, one call after another in one context, with streams abandoned."""
    pair = E.PAIRS[idx % 4]
    p = list(E.PROTOS)[(idx // 4) % 3]
    cfg = E.random_cfg(rng, proto=p, pair=pair)
    base_for(rng, cfg)
    rig = otel.Rig()
    s = Setup(rng, cfg, rig)
    n = rng.choice([1, 2, 4])
    plans = [Plan1(rng, i, p, True, True) for i in range(n)]
    maybe_boom(rng, plans)
    stale(rng, s, plans)
    for x in plans:
        if x.sout and rng.random() < 0.35:
            x.spec.stop_after = rng.choice([0, 1, 2])
    by = {x.cid: x for x in plans}
    log = E.Log()
    app = E.build_app(cfg, lambda name, req, ctx: s.script(by[ctx.request_headers["x-cid"]]), log)
    tr = E.build_transport(cfg, app)
    par = [rng.random() < 0.6 for _ in plans]
    results: list = []
    after: list = []
    if cfg.client == "async":
        async def main():
            client = E.build_client(cfg, tr)
            for i, x in enumerate(plans):
                with app_span(par[i], s, x.cid):
                    before = cur()
                    results.append(await E.acall(client, x.spec, log))
                    if cur() != before:
                        after.append((x.cid, before, cur()))
        rep = vloop.run(main, settle=2000.0)
        if rep.deadlock or rep.exc:
            rec.fail("sequential:broken", {"case": s.brief(), "deadlock": rep.deadlock, "exc": repr(rep.exc)})
            return
    else:
        with vtime.activate(vtime.Clock()), vloop.cpu_guard():
            client = E.build_client(cfg, tr)
            for i, x in enumerate(plans):
                with app_span(par[i], s, x.cid):
                    before = cur()
                    results.append(E.scall(client, x.spec, log))
                    if cur() != before:
                        after.append((x.cid, before, cur()))
    try:
        if after:
            rec.fail("sequential:span-left-current", {"case": s.brief(), "calls": after[:3]})
            return
        if not judge(rec, "sequential", s, plans, results, log.calls):
            return
        rec.nontrivial((s.sides, s.link, cfg.key(), tuple((x.kind, x.err_at, x.spec.stop_after) for x in plans)))
        rec.seen("outcomes", tuple((x.kind, r.outcome()[:2]) for x, r in zip(plans, results)))
    finally:
        rig.close()


TP = ["00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-00",
      "01-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01-future", "ff-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01",
      "00-00000000000000000000000000000000-b7ad6b7169203331-01", "00-0af7651916cd43dd8448eb211c80319c-0000000000000000-01",
      "garbage", "", "00-0af7", "00-0AF7651916CD43DD8448EB211C80319C-b7ad6b7169203331-01", "\u00e9\u00e9", "00-" + "z" * 32 + "-" + "y" * 16 + "-01",
      "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01, 00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"]


def remote(rec, rng, idx):
    """Requests of peers with their own trace headers, or none; servers below another server span."""
    p = list(E.PROTOS)[idx % 3]
    cfg = E.random_cfg(rng, proto=p, pair=[("async", "asgi"), ("sync", "wsgi")][(idx // 3) % 2])
    base_for(rng, cfg)
    rig = otel.Rig()
    s = Setup(rng, cfg, rig, link="default", sides="server")
    x = Plan1(rng, 0, p, True, True)
    maybe_boom(rng, [x])
    hs = {"x-cid": x.cid, "x-mine": "m"}
    value = None
    if rng.random() < 0.85:
        value = rng.choice(TP) if rng.random() < 0.7 else f"00-{rng.getrandbits(128):032x}-{rng.getrandbits(64):016x}-0{rng.randint(0, 1)}"
        if value and not value.isascii():
            value = "00-%zz"
        hs["traceparent"] = value
    if rng.random() < 0.3:
        hs["tracestate"] = rng.choice(["a=1,b=2", "bad state", ",,", "a=1," * 40])
    x.spec.headers = hs
    outer = rng.random() < 0.35
    outer_ids: list = []
    log = E.Log()
    app = E.build_app(cfg, lambda name, req, ctx: s.script(x), log)
    unrecorded = outer and idx % 5 < 2

    def around():
        if unrecorded:
            # a span that is not recorded (another sampler's decision) is a parent all the same
            return trace.use_span(NonRecordingSpan(SpanContext(rng.getrandbits(127) + 1, rng.getrandbits(63) + 1, is_remote=rng.random() < 0.5,
                                                               trace_flags=TraceFlags(rng.randint(0, 1)))))
        return rig.tracer.start_as_current_span("http", kind=SpanKind.SERVER)

    if outer:
        inner = app
        if cfg.server == "asgi":
            async def app(scope, receive, send):  # noqa: F811
                with around() as sp:
                    outer_ids.append(otel.ids(sp))
                    await inner(scope, receive, send)
        else:
            def app(environ, start_response):
                with around() as sp:
                    outer_ids.append(otel.ids(sp))
                    yield from inner(environ, start_response)
    t = E.run_many(cfg, None, [x.spec], app=app)
    t.calls = log.calls
    try:
        if E.hung(t):
            rec.fail("remote:never-completes", {"case": s.brief(), "traceparent": value})
            return
        import re
        want = None
        if value:
            v = value.split(",")[0].strip() if ", " in value else value
            m = re.fullmatch(r"([0-9a-f]{2})-([0-9a-f]{32})-([0-9a-f]{16})-([0-9a-f]{2})(-.*)?", v)
            if m and m[1] != "ff" and set(m[2]) != {"0"} and set(m[3]) != {"0"} and not (m[1] == "00" and m[5]):
                want = (int(m[2], 16), int(m[3], 16))
        if ", " in (value or ""):
            # whether a repeated header counts is up to the propagator
            rec.ev("repeated_traceparent")
            sp = rig.rpc_spans(SpanKind.SERVER)
            want = otel.parent_ids(sp[0]) if sp else None

        def outer_span(p):
            return outer_ids[0] if outer_ids else None

        def remote_span(p):
            return want
        s.linked = False
        if not judge(rec, "remote", s, [x], t.res, log.calls, inner_parent=outer_span if outer else remote_span):
            return
        rec.nontrivial((p, cfg.server, x.kind, value, outer, unrecorded))
        rec.seen("traceparents", value)
    finally:
        rig.close()


def interleaved(rec, rng, idx):
    """Streams and other calls interleaved in one task: spans must not become each other's parents."""
    import itertools
    p, kind, inside = list(itertools.product(list(E.PROTOS), ["server_stream", "bidi"], ["call-in-loop", "two-streams", "break"]))[idx % 18]
    sync = (idx // 18) % 2 == 1
    cfg = E.Cfg(proto=p, client="sync" if sync else "async", server="wsgi" if sync else "asgi")
    cfg.plan = bridge.Plan(rng)
    rig = otel.Rig()
    s = Setup(rng, cfg, rig, link="default", sides="both", spies=False)
    log = E.Log()
    app = E.build_app(cfg, lambda name, req, ctx: [("send", M.Out(id="1")), ("send", M.Out(id="2"))] if name in E.STREAM_OUT else [("ret", M.Out(id="u"))], log)
    tr = E.build_transport(cfg, app)
    seen: dict = {}

    def arg(fn):
        if kind == "bidi":
            if sync:
                return fn(iter([M.Msg(id="q")]))

            async def one():
                yield M.Msg(id="q")
            return fn(one())
        return fn(M.Msg(id="q"))

    if sync:
        with vtime.activate(vtime.Clock()), vloop.cpu_guard(), rig.tracer.start_as_current_span("app") as sp:
            client = E.build_client(cfg, tr)
            seen["app"] = otel.ids(sp)
            st = arg(getattr(client, kind))
            next(st)
            seen["loop"] = cur()
            if inside == "call-in-loop":
                client.unary(M.Msg(id="x"))
            elif inside == "two-streams":
                st2 = arg(getattr(client, kind))
                next(st2)
                list(st)
                list(st2)
            if inside != "break":
                list(st)
            else:
                client.unary(M.Msg(id="x"))
            seen["after"] = cur()
            st.close()
    else:
        async def main():
            client = E.build_client(cfg, tr)
            with rig.tracer.start_as_current_span("app") as sp:
                seen["app"] = otel.ids(sp)
                st = arg(getattr(client, kind))
                await anext(st)
                seen["loop"] = cur()
                if inside == "call-in-loop":
                    await client.unary(M.Msg(id="x"))
                elif inside == "two-streams":
                    st2 = arg(getattr(client, kind))
                    await anext(st2)
                    async for _ in st:
                        pass
                    async for _ in st2:
                        pass
                if inside != "break":
                    async for _ in st:
                        pass
                else:
                    await client.unary(M.Msg(id="x"))
                seen["after"] = cur()
                await st.aclose()
        rep = vloop.run(main, settle=20.0)
        if rep.deadlock or rep.exc:
            rec.fail("interleaved:broken", {"deadlock": rep.deadlock, "exc": repr(rep.exc)})
            return
    try:
        what = {**s.brief(), "kind": kind, "inside": inside}
        rec.ev("histories_judged")
        rec.nontrivial((p, kind, inside, sync))
        cs = rig.rpc_spans(SpanKind.CLIENT)
        n = 2
        if inside == "two-streams" or inside in ("call-in-loop", "break"):
            if len(cs) != n or len(rig.rpc_spans(SpanKind.SERVER)) != n:
                rec.fail("interleaved:span-count", {"case": what, "client": len(cs), "server": len(rig.rpc_spans(SpanKind.SERVER))})
                return
        cids = {otel.ids(c) for c in cs}
        if any(otel.parent_ids(x) not in cids for x in rig.rpc_spans(SpanKind.SERVER)):
            rec.fail("interleaved:server-span-parent", {"case": what})
            return
        if any(otel.parent_ids(c) != seen["app"] for c in cs) or seen["loop"] != seen["app"]:
            rec.fail("interleaved:open-stream-is-current-in-its-consumer", {"case": what})
            return
        if rig.unpaired():
            rec.fail("interleaved:span-not-ended-once", {"case": what, "why": rig.unpaired()})
    finally:
        rig.close()


WORKLOADS = {
    "tasks": Workload(tasks, 1500, 30000),
    "threads": Workload(threads, 320, 8000),
    "sequential": Workload(sequential, 1500, 30000),
    "remote": Workload(remote, 900, 12000),
    "interleaved": Workload(interleaved, 36, 360),
}
