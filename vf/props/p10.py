"""P10: deadlines are propagated and enforced."""
from __future__ import annotations

import asyncio
import re

from pyqwest import StreamError, StreamErrorCode

from connectrpc.errors import ConnectError

from .. import bridge
from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import ref as R
from .. import vloop, vtime
from ..core import Workload

ID = "P10"
RULE = ("A case is a call (or raw request) with a timeout in virtual time. Monitors record the announced duration, the remaining "
        "time seen by handlers and interceptors, the instant and outcome at which the call ended and cancellations that reach the "
        "consumer's code; all are compared exactly with the configured duration. Non-trivial: a deadline was announced, seen or "
        "decided the outcome; distinct by configuration, kind, place where the exchange is stuck and times.")
ASSUME = ["the synchronous client relies on the HTTP library's timeout for waits inside the HTTP library, as documented there; the "
          "workload's transports implement it and check the value passed",
          "a timeout of 0 means the default (not judged)"]

KINDS = ["unary", "get", "GET", "idem", "client_stream", "server_stream", "bidi"]
EPS = 1e-6
UNITS = [("n", 1e-6), ("u", 1e-3), ("m", 1), ("S", 1000), ("M", 60000), ("H", 3600000)]


def duration(rng) -> int:
    k = rng.random()
    if k < 0.3:
        return rng.choice([1, 2, 9, 10, 999, 1000, 1001, 59999, 60000, 3599999, 3600000, 86400000])
    if k < 0.6:
        return max(1, 10 ** rng.randint(1, 13) + rng.choice([-1, 0, 1]))
    if k < 0.8:
        b = rng.choice([10**8, 10**11, 6 * 10**12])
        return max(1, b + rng.choice([-1, 0, 1, 999, 59999, rng.randint(-10**5, 10**5)]))
    return rng.randint(1, 10 ** rng.randint(1, 13))


def announced(rec, proto, ms, headers, what) -> bool:
    """The announced duration, judged."""
    name = "connect-timeout-ms" if proto == "connect" else "grpc-timeout"
    vals = [v for k, v in headers if k == name]
    other = [v for k, v in headers if k in ("connect-timeout-ms", "grpc-timeout") and k != name]
    if other:
        rec.fail("announce:other-protocols-header", {"case": what, "headers": headers})
        return False
    if ms is None:
        if vals:
            rec.fail("announce:without-timeout", {"case": what, "values": vals})
            return False
        return True
    if len(vals) != 1:
        rec.fail("announce:missing", {"case": what, "values": vals})
        return False
    v = vals[0]
    if proto == "connect":
        ok = re.fullmatch(r"[0-9]{1,10}", v) and int(v) == min(ms, 9999999999)
    else:
        m = re.fullmatch(r"([0-9]{1,8})([HMSmun])", v)
        ok = False
        if m:
            unit = dict(UNITS)[m[2]]
            got = int(m[1]) * unit
            finest = next(u for _, u in UNITS[2:] if ms / u < 10**8 or u == 3600000)
            ok = got <= ms + 1e-9 and ms - got < max(finest, 1e-9) + (0 if finest > 1 else 1e-9)
            if ms / 3600000 >= 10**8:
                ok = True
    if not ok:
        rec.fail("announce:wrong-duration", {"case": what, "announced": v, "timeout_ms": ms})
        return False
    rec.ev("announcements_checked")
    return True


def ok_resp(proto, kind, codec, rng, n=1):
    return R.response(proto, kind, codec, [M.out(rng, size=3) for _ in range(n)])


class Peek:
    """A metadata interceptor that records the remaining time."""

    def __init__(self) -> None:
        self.seen: list = []

    async def on_start(self, ctx):
        self.seen.append((vtime.monotonic(), ctx.timeout_ms))

    async def on_end(self, token, ctx, error):
        self.seen.append((vtime.monotonic(), ctx.timeout_ms))


class PeekSync:
    def __init__(self) -> None:
        self.seen: list = []

    def on_start_sync(self, ctx):
        self.seen.append((vtime.monotonic(), ctx.timeout_ms))

    def on_end_sync(self, token, ctx, error):
        self.seen.append((vtime.monotonic(), ctx.timeout_ms))


def announce(rec, rng, idx):
    """Per call, default and both; every protocol and kind."""
    p = list(E.PROTOS)[idx % 3]
    kind = KINDS[(idx // 3) % len(KINDS)]
    if kind == "GET" and p != "connect":
        kind = "get"
    k = "get" if kind == "GET" else kind
    cl = ["async", "sync"][(idx // 21) % 2]
    dflt = duration(rng) if rng.random() < 0.5 else None
    per = duration(rng) if rng.random() < 0.6 else None
    cfg = E.Cfg(proto=p, codec=rng.choice(["proto", "json"]), client=cl, client_timeout=dflt)
    peek = Peek() if cl == "async" else PeekSync()
    cfg.client_interceptors = [peek]
    want = per if per is not None else dflt
    w = ok_resp(p, k, cfg.codec, rng)
    specs = [E.Spec(k, [M.Msg(id="q")], timeout_ms=per, use_get=kind == "GET"), E.Spec(k, [M.Msg(id="q")], use_get=kind == "GET")]
    if rng.random() < 0.3:
        # a header of the caller must not be mistaken for a timeout or survive next to it
        specs[0].headers = {"x-timeout": "5"}
    t = E.run_fake(cfg, R.Fake.of(w, before=rng.choice([0, 0.0005])), specs)
    what = {**cfg.brief(), "kind": kind, "default_ms": dflt, "per_call_ms": per}
    if O.hang(rec, t, "announce", what, 2):
        return
    for got, ms, r in zip(t.got, [want, dflt], t.res):
        if not announced(rec, p, ms, got.headers, what):
            return
        if cl == "sync":
            g = got.timeout
            if (g is None) != (ms is None) or (ms is not None and not (ms / 1000 * (1 - 1e-9) - 1e-5 - got.slack <= g <= ms / 1000 * (1 + 1e-9) + 1e-6)):
                rec.fail("announce:transport-timeout", {"case": what, "timeout_ms": ms, "transport_s": g})
                return
        if (ms is None or ms > 1) and not r.ok:
            rec.fail("announce:call-in-time-failed", {"case": what, "outcome": repr(r.outcome())})
            return
    t0s = [r.t0 for r in t.res for _ in (0, 1)]
    for (at, rem), ms, t0 in zip(peek.seen, [want, want, dflt, dflt], t0s):
        if (rem is None) != (ms is None):
            rec.fail("announce:context-timeout", {"case": what, "seen": rem, "timeout_ms": ms})
            return
        if ms is not None and abs(rem - (ms - (at - t0) * 1000)) > 1e-3 + ms * 1e-9:
            rec.fail("announce:context-remaining-time", {"case": what, "seen": rem, "expected": ms - (at - t0) * 1000})
            return
        rec.ev("remaining_time_checked")
    rec.nontrivial((p, kind, cl, dflt, per))
    rec.sample(what)


def received(rec, rng, idx):
    """What a handler sees of a header, and how it shrinks."""
    p = list(E.PROTOS)[idx % 3]
    kind = KINDS[(idx // 3) % len(KINDS)]
    if kind == "GET" and p != "connect":
        kind = "get"
    k = "get" if kind == "GET" else kind
    sv = ["asgi", "wsgi"][(idx // 21) % 2]
    cfg = E.Cfg(proto=p, codec=rng.choice(["proto", "json"]), server=sv)
    ms: float | None
    if rng.random() < 0.15:
        ms, val = None, None
    elif p == "connect":
        ms = rng.choice([0, 1, 999, 5000, 9999999999, rng.randint(1, 10 ** rng.randint(1, 10) - 1)])
        val = str(ms)
        if rng.random() < 0.1:
            val = val.zfill(min(10, len(val) + 1))
    else:
        unit, f = rng.choice(UNITS)
        n = rng.choice([0, 1, 7, 1500, 99999999, rng.randint(1, 10 ** rng.randint(1, 8) - 1)])
        val, ms = f"{n}{unit}", n * f
    delay = rng.choice([0, 0, 0.01, 0.3])
    sleeps = [rng.choice([0.001, 0.25, 1.0, 10.0]) for _ in range(rng.randint(1, 3))]
    script: list = [("timeout",)]
    if k in E.STREAM_IN:
        script.append(("recvall",))
        script.append(("timeout",))
    for s in sleeps:
        script += [("sleep", s), ("timeout",)]
    script.append(("send" if k in E.STREAM_OUT else "ret", M.Out(id="r")))
    script = script if k in E.STREAM_OUT else script
    w = R.request(p, k, cfg.codec, [M.Msg(id="q")], get=kind == "GET")
    if val is not None:
        w.headers.append(("connect-timeout-ms" if p == "connect" else "grpc-timeout", val))
    log = E.Log()
    app = E.build_app(cfg, E.as_pick(script), log)
    plan = bridge.Plan(rng, delay=delay) if sv == "asgi" else bridge.Plan(rng)
    ex = E.serve_raw(cfg, app, w, plan=plan)
    what = {**cfg.brief(), "kind": kind, "header": val, "sleeps": sleeps}
    if ms == 0 and not log.calls and ex.monitor.status:
        rec.ev("refused_when_over")  # nothing is left to run the handler for
        return
    if len(log.calls) != 1:
        rec.fail(f"received:{sv}:handler-not-run", {"case": what, "status": ex.monitor.status})
        return
    obs = [(t, v) for t, what_, v in log.calls[0].events if what_ == "timeout"]
    if ms is None:
        rec.check(all(v is None for _, v in obs), f"received:{sv}:timeout-without-header", {"case": what, "seen": obs})
        rec.nontrivial((p, kind, sv, None))
        return
    tol = 1.0 + ms * 1e-9 if p != "connect" else 1e-3 + ms * 1e-9
    first_t, first_v = obs[0]
    if first_v is None:
        rec.fail(f"received:{sv}:timeout-not-seen", what)
        return
    # the clock starts somewhere between the arrival of the request and the handler
    hi, lo = ms, ms - (first_t - 1000.0) * 1000 - tol
    if not lo - 1e-6 <= first_v <= hi + 1e-3:
        rec.fail(f"received:{sv}:remaining-time", {"case": what, "seen": first_v, "expected_between": [lo, hi]})
        return
    for (t1, v1), (t2, v2) in zip(obs, obs[1:]):
        if v2 is None or abs((v1 - v2) - (t2 - t1) * 1000) > 1e-3 + ms * 1e-9:
            rec.fail(f"received:{sv}:remaining-time-does-not-shrink", {"case": what, "seen": obs})
            return
        rec.ev("remaining_time_checked")
    rec.nontrivial((p, kind, sv, val, tuple(sleeps)))
    rec.sample(what)


STUCK = ["before-headers", "reading-request", "body-start", "mid-body", "between-messages", "before-end", "trickle", "error-body", "in-time", "just-in-time", "no-timeout"]


def make_fake(rng, p, k, codec, stuck, T, cl):
    """A server that is stuck; (fake, completion time or None when never, number of messages complete before T)."""
    n = rng.choice([1, 2, 3]) if k in E.STREAM_OUT else 1
    w = ok_resp(p, k, codec, rng, n)
    env = R.enveloped(p, k)
    late = rng.choice([("hang",), ("sleep", T * rng.choice([1.5, 10, 1000]))])
    early = T * rng.choice([0, 0.3, 0.9])
    pre: list = [("sleep", early)] if early else []
    fs = R.envs(w.body)[0] if env else []
    bounds = []
    pos = 0
    for _, d in fs:
        pos += 5 + len(d)
        bounds.append(pos)
    b = w.body
    if stuck == "before-headers":
        return R.Fake.of(w, before=T * rng.choice([1.0001, 2, 100])), None, 0
    if stuck == "reading-request":
        return R.Fake.of(w), None, 0
    if stuck == "body-start":
        return R.Fake.of(w, [*pre, late, b]), None, 0
    if stuck == "mid-body":
        c = rng.randint(1, max(1, len(b) - 1))
        return R.Fake.of(w, [*pre, b[:c], late, b[c:]]), None, sum(1 for x in bounds[:n] if x <= c)
    if stuck == "between-messages":
        c = bounds[0] if bounds else 0
        return R.Fake.of(w, [*pre, b[:c], late, b[c:]]), None, 1 if bounds else 0
    if stuck == "before-end":
        c = bounds[n - 1] if bounds else max(0, len(b) - 1)
        return R.Fake.of(w, [*pre, b[:c], late, b[c:]]), None, n if bounds else 0
    if stuck == "trickle":
        parts = [b[i:i + 1] for i in range(len(b))] or [b""]
        gap = T / max(1, len(parts)) * 1.7
        steps: list = []
        for x in parts:
            steps += [("sleep", gap), x]
        for _ in range(3):
            steps += [("sleep", T), b""]
        return R.Fake.of(w, steps), None, None
    if stuck == "error-body":
        body = b'{"code":"not_found","message":"m"}'
        return R.Fake(404, [("content-type", "application/json")], [*pre, body[:5], late, body[5:]]), None, 0
    if stuck == "just-in-time":
        return R.Fake.of(w, [("sleep", T * 0.999), b]), T * 0.999, n
    return R.Fake.of(w, [("sleep", T * 0.5), b[:1], ("sleep", T * 0.2), b[1:]]), T * 0.7, n


def enforced(rec, rng, idx):
    """The exchange is stuck somewhere, or completes shortly before."""
    p = list(E.PROTOS)[idx % 3]
    kind = KINDS[(idx // 3) % len(KINDS)]
    stuck = STUCK[(idx // 21) % len(STUCK)]
    cl = ["async", "sync"][(idx // (21 * len(STUCK))) % 2]
    if kind == "GET" and p != "connect":
        kind = "get"
    k = "get" if kind == "GET" else kind
    ms = rng.choice([10, 50, 250, 1000, 5000, rng.randint(5, 100000)])
    T = ms / 1000
    by_default = rng.random() < 0.4
    cfg = E.Cfg(proto=p, codec=rng.choice(["proto", "json"]), client=cl)
    spec = E.Spec(k, [M.Msg(id="q")] * (2 if k in E.STREAM_IN else 1), use_get=kind == "GET")
    f, done, n_before = make_fake(rng, p, k, cfg.codec, stuck if stuck != "no-timeout" else "in-time", T, cl)
    if stuck == "no-timeout":
        f = R.Fake.of(R.response(p, k, cfg.codec, [M.out(rng)]), before=1e5)
        f.steps = [("sleep", 1e6), *f.steps]
    elif by_default:
        cfg.client_timeout = ms
    else:
        spec.timeout_ms = ms
        if rng.random() < 0.5:
            cfg.client_timeout = rng.choice([1, 10**7])  # the call's own wins
    if stuck == "reading-request":
        if k not in E.STREAM_IN or cl == "sync":
            return
        spec.gaps = [0, T * 5]
    lead = 0.0
    if cl == "async" and rng.random() < 0.3 and stuck not in ("just-in-time", "in-time", "no-timeout"):
        lead = T * rng.choice([0.2, 0.8])
        cfg.client_interceptors = [_Slow(lead)]
    t = E.run_fake(cfg, f, spec, limit=1e8)
    what = {**cfg.brief(), "kind": kind, "stuck": stuck, "timeout_ms": ms, "default": by_default, "interceptor_s": lead, "steps": repr(f.steps)[:160], "before": f.before}
    if O.hang(rec, t, f"enforced:{cl}", what):
        return
    r = t.r
    el = r.t1 - r.t0
    rec.ev("deadlines_decided")
    if done is not None or stuck == "no-timeout":
        if not r.ok:
            rec.fail(f"enforced:{cl}:{stuck}-failed", {"case": what, "outcome": repr(r.outcome()), "elapsed": el})
            return
    else:
        if r.err is None or r.err.code.value != "deadline_exceeded":
            rec.fail(f"enforced:{cl}:{stuck}:not-deadline-exceeded", {"case": what, "outcome": repr(r.outcome()), "elapsed": el})
            return
        if el < T - EPS - max((g.slack for g in t.got), default=0):
            rec.fail(f"enforced:{cl}:{stuck}:too-early", {"case": what, "elapsed": el, "deadline": T})
            return
        if el > T + max(0.002, T * 0.01):
            rec.fail(f"enforced:{cl}:{stuck}:too-late", {"case": what, "elapsed": el, "deadline": T})
            return
        if n_before is not None and k in E.STREAM_OUT and len(r.msgs) != n_before and not lead:
            rec.fail(f"enforced:{cl}:{stuck}:messages-before-deadline", {"case": what, "delivered": len(r.msgs), "expected": n_before})
            return
    if t.report is not None and t.report.exc_reports:
        rec.fail(f"enforced:{cl}:loop-reports", {"case": what, "reports": t.report.exc_reports[:3]})
        return
    rec.nontrivial((p, kind, stuck, cl, ms, by_default, lead, repr(f.steps)[:100]))
    rec.seen("decided", (p, kind, stuck, cl, r.ok))
    rec.sample(what)


class _Slow:
    """Spends time before the call proper."""

    def __init__(self, s: float) -> None:
        self.s = s

    async def on_start(self, ctx):
        await asyncio.sleep(self.s)

    async def on_end(self, token, ctx, error):
        pass


def reset_at_deadline(rec, rng, idx):
    """Transports that do not time out themselves, and servers that reset at the deadline."""
    p = list(E.PROTOS)[idx % 3]
    k = rng.choice(["client_stream", "server_stream", "bidi"]) if p == "connect" else rng.choice(["unary", "client_stream", "server_stream", "bidi"])
    ms = rng.choice([10, 250, 5000])
    T = ms / 1000
    over = rng.choice([0.5, 0.99, 1.0, 1.5, 3.0])
    w = ok_resp(p, k, "proto", rng)
    adv = lambda: setattr(vtime.active, "now", vtime.active.now + T * over)  # noqa: E731
    how = rng.choice(["reset", "end"])
    c = rng.randrange(len(w.body))
    if how == "reset":
        steps = [w.body[:c], ("call", adv), StreamError("reset", StreamErrorCode.CANCEL)]
        f = R.Fake(200, [h for h in w.headers if not h[0].startswith("grpc-status")], steps, None)
    else:
        f = R.Fake.of(w, [w.body[:c], ("call", adv), w.body[c:]])
    cfg = E.Cfg(proto=p, client="sync")
    t = E.run_fake(cfg, f, E.Spec(k, [M.Msg(id="q")], timeout_ms=ms))
    what = {"proto": p, "kind": k, "timeout_ms": ms, "elapsed_at_end": T * over, "how": how}
    r = t.r
    if how == "end":
        want = None if over < 1 else "deadline_exceeded"
    else:
        want = "canceled" if over < 1 else "deadline_exceeded"
    got = None if r.ok else r.err.code.value if r.err else repr(r.exc)
    rec.check(got == want, f"sync:{how}-around-deadline", {"case": what, "got": got, "want": want})
    rec.nontrivial((p, k, ms, over, how, c))


def consumer(rec, rng, idx):
    """A consumer that takes its time is never cancelled by the deadline."""
    p = list(E.PROTOS)[idx % 3]
    k = ["server_stream", "bidi"][(idx // 3) % 2]
    ms = rng.choice([10, 250, 5000])
    T = ms / 1000
    n = rng.choice([2, 3, 5])
    w = ok_resp(p, k, "proto", rng, n)
    fs = R.envs(w.body)[0]
    frames = [R.env(d, fl) for fl, d in fs]
    how = rng.choice(["each", "all", "slow", "hang"])
    if how == "all":
        steps: list = [w.body]
    elif how == "each":
        steps = frames
    elif how == "slow":
        steps = [x for fr in frames for x in (("sleep", T * rng.choice([0.1, 0.4, 1.5])), fr)]
    else:
        steps = [frames[0], ("hang",)]
    f = R.Fake.of(w, steps)
    think = [T * rng.choice([0, 0.3, 0.9, 2, 50]) for _ in range(n)]
    cfg = E.Cfg(proto=p, client="async")
    stacked = rng.random() < 0.5
    if stacked:
        cfg.client_interceptors = [_Slow(0.0)]
    tr = R.FakeServer(f)
    obs: dict = {"n": 0, "cancelled": None, "err": None, "t": None, "after": 0}

    async def main():
        client = E.build_client(cfg, tr)
        spec_msgs = [M.Msg(id="q")]

        async def reqs():
            for m in spec_msgs:
                yield m

        t0 = vtime.monotonic()
        task = asyncio.current_task()
        s = client.server_stream(spec_msgs[0], timeout_ms=ms) if k == "server_stream" else client.bidi(reqs(), timeout_ms=ms)
        try:
            async for _ in s:
                obs["n"] += 1
                try:
                    await asyncio.sleep(think[obs["n"] - 1])
                    # any other kind of waiting, too
                    ev = asyncio.Event()
                    asyncio.get_running_loop().call_later(think[obs["n"] - 1] / 2, ev.set)
                    await ev.wait()
                except BaseException as e:
                    obs["cancelled"] = repr(e)
                    raise
            obs["end"] = "ok"
        except ConnectError as e:
            obs["err"] = e.code.value
        obs["t"] = vtime.monotonic() - t0
        try:
            await asyncio.sleep(T * 100)  # nothing fires later either
        except BaseException as e:
            obs["cancelled"] = "later: " + repr(e)
        obs["cancelling"] = task.cancelling()

    rep = vloop.run(main, limit=1e8)
    what = {"proto": p, "kind": k, "timeout_ms": ms, "think": think, "how": how, "interceptor": stacked}
    if rep.deadlock or rep.exc is not None:
        rec.fail("consumer:broken", {"case": what, "deadlock": rep.deadlock, "exc": repr(rep.exc), "obs": obs})
        return
    rec.ev("consumer_waits_observed", 2 * obs["n"])
    if obs["cancelled"] is not None:
        rec.fail("consumer:cancellation-injected", {"case": what, "obs": obs})
        return
    if obs["cancelling"]:
        rec.fail("consumer:task-left-cancelling", {"case": what, "obs": obs})
        return
    if obs["err"] not in (None, "deadline_exceeded"):
        rec.fail("consumer:wrong-error", {"case": what, "obs": obs})
        return
    if obs["err"] and obs["t"] < T - EPS:
        rec.fail("consumer:too-early", {"case": what, "obs": obs})
        return
    if how == "hang" and obs["err"] is None:
        rec.fail("consumer:deadline-not-enforced", {"case": what, "obs": obs})
        return
    # the call is over promptly after the deadline or after the consumer came back
    last = sum(think[:obs["n"]]) * 1.5
    if how == "hang" and obs["t"] > max(T, last) + max(0.002, T * 0.01):
        rec.fail("consumer:too-late", {"case": what, "obs": obs, "consumer_back_at": last})
        return
    if sum(think) == 0 and how in ("all", "each") and obs["err"]:
        rec.fail("consumer:in-time-failed", {"case": what, "obs": obs})
        return
    rec.nontrivial((p, k, ms, tuple(think), how, stacked))
    rec.sample(what)


def end_to_end(rec, rng, idx):
    """Real client and application; the handler takes its time."""
    pair = E.FULL[idx % 2]
    p = list(E.PROTOS)[(idx // 2) % 3]
    kind = KINDS[(idx // 6) % len(KINDS)]
    if kind == "GET" and p != "connect":
        kind = "get"
    k = "get" if kind == "GET" else kind
    ms = rng.choice([100, 1000, 30000, rng.randint(20, 10**6)])
    T = ms / 1000
    cfg = E.Cfg(proto=p, codec=rng.choice(["proto", "json"]), client=pair[0], server=pair[1])
    n = rng.choice([1, 2, 3]) if k in E.STREAM_OUT else 1
    sl = [T * rng.choice([0, 0.1, 0.25]) for _ in range(n)]
    late_at = rng.choice([None, None, *range(n)])
    if late_at is not None:
        sl[late_at] = T * rng.choice([1.2, 5])
    script: list = [("timeout",)] + [("recvall",)] * (k in E.STREAM_IN)
    for s in sl:
        script += [("sleep", s), ("timeout",), ("send" if k in E.STREAM_OUT else "ret", M.Out(id="r"))]
    spec = E.Spec(k, [M.Msg(id="q")] * (2 if k in E.STREAM_IN else 1), use_get=kind == "GET", timeout_ms=ms)
    if k in E.STREAM_IN and pair[0] == "async":
        spec.gaps = [0, T * 0.05]
    t = E.run_one(cfg, script, spec)
    what = {**cfg.brief(), "kind": kind, "timeout_ms": ms, "sleeps": sl}
    if O.hang(rec, t, "e2e", what):
        return
    r = t.r
    el = r.t1 - r.t0
    rec.ev("deadlines_decided")
    if late_at is None:
        if not r.ok:
            rec.fail(f"e2e:{pair[1]}:in-time-failed", {"case": what, "outcome": repr(r.outcome())})
            return
    else:
        if r.err is None or r.err.code.value != "deadline_exceeded":
            rec.fail(f"e2e:{pair[1]}:not-deadline-exceeded", {"case": what, "outcome": repr(r.outcome()), "elapsed": el})
            return
        if el < T - EPS - (t.exchanges[0].slack if t.exchanges else 0) or (pair[0] == "async" and el > T + max(0.002, T * 0.01)):
            rec.fail(f"e2e:{pair[1]}:wrong-instant", {"case": what, "elapsed": el, "deadline": T})
            return
        if k in E.STREAM_OUT and len(r.msgs) != late_at:
            rec.fail(f"e2e:{pair[1]}:messages-before-deadline", {"case": what, "delivered": len(r.msgs), "expected": late_at})
            return
    if t.calls:
        for at, w, v in t.calls[0].events:
            exp = ms - (at - r.t0) * 1000
            if v is None or not exp - 1.001 <= v <= ms + 1e-3 or v < exp - 1.001:
                rec.fail(f"e2e:{pair[1]}:handler-remaining-time", {"case": what, "seen": v, "expected_about": exp})
                return
            rec.ev("remaining_time_checked")
    rec.nontrivial((cfg.key(), kind, ms, tuple(sl)))


def backport(rec, rng, idx):
    """The timeout used on Python 3.10 against the standard library's, in the same scenarios."""
    try:
        from connectrpc import _asyncio_timeout as B
    except ImportError:
        return
    delay = rng.choice([None, -1, 0, 0.5, 1.0, 2.0])
    inner = rng.choice([None, 0.31, 0.52, 3.03])
    body = rng.choice([0, 0.43, 1.07, 1.71])
    fail = rng.choice([None, "value", "timeout"])
    ext = rng.choice([None, None, 0.2, 0.9])
    resched = rng.choice([None, None, 0.13, 5.01])

    def go(mk):
        out: dict = {}

        async def work():
            try:
                async with mk(delay) as cm:
                    if inner is not None:
                        try:
                            async with mk(inner):
                                await asyncio.sleep(body)
                        except TimeoutError:
                            out["inner"] = True
                    if resched is not None:
                        cm.reschedule(asyncio.get_running_loop().time() + resched)
                    await asyncio.sleep(body)
                    if fail == "value":
                        raise ValueError("x")
                    if fail == "timeout":
                        raise TimeoutError("mine")
                out["end"] = "ok"
            except asyncio.CancelledError:
                out["end"] = "cancelled"
            except BaseException as e:  # noqa: BLE001
                out["end"] = type(e).__name__
            out["t"] = round(vtime.monotonic() - 1000.0, 6)
            out["expired"] = cm.expired()
            await asyncio.sleep(20)
            out["after"] = True

        async def main():
            t = asyncio.ensure_future(work())
            if ext is not None:
                await asyncio.sleep(ext)
                t.cancel()
            await asyncio.wait([t])
            out["task"] = "cancelled" if t.cancelled() else repr(t.exception())

        rep = vloop.run(main)
        out["deadlock"] = rep.deadlock
        return out

    a, b = go(asyncio.timeout), go(B.timeout)
    what = {"delay": delay, "inner": inner, "body": body, "fail": fail, "external_cancel_at": ext, "reschedule": resched}
    # Without task.uncancel (3.10) nothing more specific than this can be asked of simultaneous events.
    if ext is not None and a.get("t") == ext:
        return
    rec.check(a == b, "backport:differs-from-asyncio.timeout", {"case": what, "asyncio": a, "backport": b})
    rec.nontrivial(repr(what))


WORKLOADS = {
    "announce": Workload(announce, 3000, 60000),
    "received": Workload(received, 4200, 80000),
    "enforced": Workload(enforced, 462 * 12, 462 * 200),
    "reset_at_deadline": Workload(reset_at_deadline, 900, 10000),
    "consumer": Workload(consumer, 3000, 60000),
    "end_to_end": Workload(end_to_end, 3000, 60000),
    "backport": Workload(backport, 1500, 20000),
}
