"""P11: interceptors wrap every call, in order, with paired start and end."""
from __future__ import annotations

import asyncio

from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.interceptor import MetadataInterceptor, MetadataInterceptorSync

from .. import bridge
from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import vloop, vtime
from ..core import Workload

ID = "P11"
RULE = ("A case runs calls through random chains of interceptors on client and server and compares the log of every interceptor's "
        "entries and exits, starts and ends (with token and error), what reached the handler and what reached the caller with a "
        "model that composes the same chain as pure functions. Non-trivial: at least one interceptor ran; distinct by chain, kind, "
        "protocol, pairing and outcome.")
ASSUME = ["an object that is both a metadata interceptor and one of the other kinds is not used (the documentation presents them as alternatives)",
          "after cancellation of the caller's task the error given to on_end on the cancelled side is not judged, only that on_end ran once"]

KINDS = ["unary", "get", "client_stream", "server_stream", "bidi"]
HOOK = {"unary": "unary", "get": "unary", "idem": "unary", "client_stream": "client_stream", "server_stream": "server_stream", "bidi": "bidi_stream"}
ACTIONS = ["pass", "pass", "req", "res", "short", "raise_before", "raise_after", "catch", "convert", "dup", "drop"]
M_ACTIONS = ["pass", "pass", "pass", "start_raises", "end_raises"]


class Err:
    def __init__(self, code, message) -> None:
        self.key = (code.value, message)

    def exc(self):
        # an interceptor's own class is as good as the library's
        return (E.Denied if len(self.key[1]) % 3 == 0 else ConnectError)(Code(self.key[0]), self.key[1])


def key_of(e):
    if e is None:
        return None
    return (e.code.value, e.message) if isinstance(e, ConnectError) else repr(e)


class Icpt:
    """What one interceptor does; shared by the real one and the model."""

    def __init__(self, rng, side, i) -> None:
        self.side, self.i = side, i
        self.tag = f"{side}{i}"
        self.meta = rng.random() < 0.45
        if self.meta:
            self.kinds = set(HOOK.values())
            self.action = rng.choice(M_ACTIONS) if rng.random() < 0.4 else "pass"
        else:
            self.kinds = {k for k in sorted(set(HOOK.values())) if rng.random() < 0.75}
            self.action = rng.choice(ACTIONS) if rng.random() < 0.6 else "pass"
        self.reqhdr = side == "c" and rng.random() < 0.4
        self.reshdr = side == "s" and rng.random() < 0.4
        self.restrl = side == "s" and rng.random() < 0.4
        self.err = Err(rng.choice(list(Code)), f"from {self.tag}")

    def brief(self):
        return f"{self.tag}:{'meta' if self.meta else '+'.join(sorted(self.kinds))}:{self.action}{'!q' if self.reqhdr else ''}{'!h' if self.reshdr else ''}{'!t' if self.restrl else ''}"

    # ---- real side helpers
    def before(self, ctx) -> None:
        if self.reqhdr:
            ctx.request_headers.add("x-q", self.tag)
        if self.reshdr:
            ctx.response_headers.add("x-h", self.tag)

    def after(self, ctx) -> None:
        if self.restrl:
            ctx.response_trailers.add("x-t", self.tag)

    def tag_req(self, m):
        return M.Msg(id=m.id + "<" + self.tag)

    def tag_res(self, m):
        return M.Out(id=m.id + ">" + self.tag)

    def own(self):
        return M.Out(id=self.tag)


# --------------------------------------------------------------------------- the real interceptors
def make_async(s: Icpt, log: list):
    ns: dict = {}
    if s.meta:
        async def on_start(self, ctx):
            log.append((s.side, "start", s.i, None))
            if s.action == "start_raises":
                raise s.err.exc()
            s.before(ctx)
            await asyncio.sleep(0)
            tok = (s.tag, object())
            self.tokens = getattr(self, "tokens", []) + [tok]
            return tok

        async def on_end(self, token, ctx, error):
            await asyncio.sleep(0)
            log.append((s.side, "end", s.i, key_of(error)))
            if not any(token is t for t in self.tokens):
                log.append((s.side, "wrong-token", s.i, repr(token)))
            s.after(ctx)
            if s.action == "end_raises":
                raise s.err.exc()
        ns = {"on_start": on_start, "on_end": on_end}
    else:
        def single(stream_in):
            async def f(self, call_next, request, ctx):
                log.append((s.side, "enter", s.i, None))
                try:
                    if s.action == "raise_before":
                        raise s.err.exc()
                    s.before(ctx)
                    if s.action == "short":
                        return s.own()
                    req = areqs(request) if stream_in else s.tag_req(request) if s.action == "req" else request
                    try:
                        res = await call_next(req, ctx)
                    except ConnectError as e:
                        if s.action == "catch":
                            return s.own()
                        if s.action == "convert":
                            raise s.err.exc() from e
                        raise
                    if s.action == "raise_after":
                        raise s.err.exc()
                    return s.tag_res(res) if s.action == "res" else res
                finally:
                    s.after(ctx)
                    log.append((s.side, "exit", s.i, None))
            return f

        async def areqs(request):
            first = True
            async for m in request:
                if s.action == "drop" and first:
                    first = False
                    continue
                yield s.tag_req(m) if s.action == "req" else m

        def multi(stream_in):
            async def f(self, call_next, request, ctx):
                log.append((s.side, "enter", s.i, None))
                try:
                    if s.action == "raise_before":
                        raise s.err.exc()
                    s.before(ctx)
                    if s.action == "short":
                        yield s.own()
                        yield s.own()
                        return
                    req = areqs(request) if stream_in else s.tag_req(request) if s.action == "req" else request
                    inner = call_next(req, ctx)
                    try:
                        async for res in inner:
                            yield s.tag_res(res) if s.action == "res" else res
                            if s.action == "dup":
                                yield res
                    except ConnectError as e:
                        if s.action == "catch":
                            yield s.own()
                            return
                        if s.action == "convert":
                            raise s.err.exc() from e
                        raise
                    finally:
                        await inner.aclose()
                    if s.action == "raise_after":
                        raise s.err.exc()
                finally:
                    s.after(ctx)
                    log.append((s.side, "exit", s.i, None))
            return f
        for k in s.kinds:
            ns["intercept_" + k] = {"unary": single(False), "client_stream": single(True), "server_stream": multi(False), "bidi_stream": multi(True)}[k]
    return type("I", (), ns)()


def make_sync(s: Icpt, log: list):
    ns: dict = {}
    if s.meta:
        def on_start_sync(self, ctx):
            log.append((s.side, "start", s.i, None))
            if s.action == "start_raises":
                raise s.err.exc()
            s.before(ctx)
            tok = (s.tag, object())
            self.tokens = getattr(self, "tokens", []) + [tok]
            return tok

        def on_end_sync(self, token, ctx, error):
            log.append((s.side, "end", s.i, key_of(error)))
            if not any(token is t for t in self.tokens):
                log.append((s.side, "wrong-token", s.i, repr(token)))
            s.after(ctx)
            if s.action == "end_raises":
                raise s.err.exc()
        ns = {"on_start_sync": on_start_sync, "on_end_sync": on_end_sync}
    else:
        def reqs(request):
            first = True
            for m in request:
                if s.action == "drop" and first:
                    first = False
                    continue
                yield s.tag_req(m) if s.action == "req" else m

        def single(stream_in):
            def f(self, call_next, request, ctx):
                log.append((s.side, "enter", s.i, None))
                try:
                    if s.action == "raise_before":
                        raise s.err.exc()
                    s.before(ctx)
                    if s.action == "short":
                        return s.own()
                    req = reqs(request) if stream_in else s.tag_req(request) if s.action == "req" else request
                    try:
                        res = call_next(req, ctx)
                    except ConnectError as e:
                        if s.action == "catch":
                            return s.own()
                        if s.action == "convert":
                            raise s.err.exc() from e
                        raise
                    if s.action == "raise_after":
                        raise s.err.exc()
                    return s.tag_res(res) if s.action == "res" else res
                finally:
                    s.after(ctx)
                    log.append((s.side, "exit", s.i, None))
            return f

        def multi(stream_in):
            def f(self, call_next, request, ctx):
                log.append((s.side, "enter", s.i, None))
                try:
                    if s.action == "raise_before":
                        raise s.err.exc()
                    s.before(ctx)
                    if s.action == "short":
                        yield s.own()
                        yield s.own()
                        return
                    req = reqs(request) if stream_in else s.tag_req(request) if s.action == "req" else request
                    inner = call_next(req, ctx)
                    try:
                        for res in inner:
                            yield s.tag_res(res) if s.action == "res" else res
                            if s.action == "dup":
                                yield res
                    except ConnectError as e:
                        if s.action == "catch":
                            yield s.own()
                            return
                        if s.action == "convert":
                            raise s.err.exc() from e
                        raise
                    finally:
                        inner.close()
                    if s.action == "raise_after":
                        raise s.err.exc()
                finally:
                    s.after(ctx)
                    log.append((s.side, "exit", s.i, None))
            return f
        for k in s.kinds:
            ns[f"intercept_{k}_sync"] = {"unary": single(False), "client_stream": single(True), "server_stream": multi(False), "bidi_stream": multi(True)}[k]
    return type("I", (), ns)()


# --------------------------------------------------------------------------- the model
class Model:
    def __init__(self, kind, cs, ss, n_out, err_at, err) -> None:
        self.kind, self.hook = kind, HOOK[kind]
        self.sin, self.sout = kind in E.STREAM_IN, kind in E.STREAM_OUT
        self.n_out, self.err_at, self.err = n_out, err_at, err
        self.log: list = []
        self.handler: list = []
        self.q: list = []
        self.h: list = []
        self.t: list = []
        self.reached = False
        nxt = self.run_handler
        for s in reversed([x for x in ss if self.hook in x.kinds]):
            nxt = self.wrap(s, nxt)
        inner = nxt

        def wire(reqs):
            self.reached = True
            return inner(reqs)
        nxt = wire
        for s in reversed([x for x in cs if self.hook in x.kinds]):
            nxt = self.wrap(s, nxt)
        self.go = nxt

    def run_handler(self, reqs):
        self.handler.append(list(reqs))
        outs = [f"{j}:" + ",".join(reqs) for j in range(self.n_out)]
        if self.err_at is None:
            return outs, None
        return (outs[:self.err_at] if self.sout else []), self.err

    def wrap(self, s: Icpt, nxt):
        def meta(reqs):
            self.log.append((s.side, "start", s.i, None))
            if s.action == "start_raises":
                return [], s.err
            self.before(s)
            outs, err = nxt(reqs)
            self.log.append((s.side, "end", s.i, err.key if err else None))
            self.after(s)
            if s.action == "end_raises":
                return (outs if self.sout else []), s.err
            return outs, err

        def other(reqs):
            self.log.append((s.side, "enter", s.i, None))
            outs, err = body(reqs)
            self.after(s)
            self.log.append((s.side, "exit", s.i, None))
            return outs, err

        def body(reqs):
            if s.action == "raise_before":
                return [], s.err
            self.before(s)
            if s.action == "short":
                return [s.tag] * (2 if self.sout else 1), None
            if s.action == "req":
                reqs = [r + "<" + s.tag for r in reqs]
            if s.action == "drop" and self.sin:
                reqs = reqs[1:]
            outs, err = nxt(reqs)
            if s.action == "res":
                outs = [o + ">" + s.tag for o in outs]
            if s.action == "dup" and self.sout:
                outs = [o for o in outs for _ in (0, 1)]
            if err is not None:
                if s.action == "catch":
                    return (outs if self.sout else []) + [s.tag], None
                if s.action == "convert":
                    err = s.err
                return outs, err
            if s.action == "raise_after":
                return (outs if self.sout else []), s.err
            return outs, None
        return meta if s.meta else other

    def before(self, s) -> None:
        if s.reqhdr:
            self.q.append(s.tag)
        if s.reshdr:
            self.h.append(s.tag)

    def after(self, s) -> None:
        if s.restrl:
            self.t.append(s.tag)


def iterable(rng, xs):
    return rng.choice([lambda: list(xs), lambda: tuple(xs), lambda: iter(xs), lambda: (x for x in xs), lambda: dict.fromkeys(xs)])()


def chains(rec, rng, idx):
    kind = KINDS[idx % len(KINDS)]
    pair = E.PAIRS[(idx // 5) % len(E.PAIRS)]
    p = list(E.PROTOS)[(idx // 25) % 3]
    use_get = kind == "get" and p == "connect" and rng.random() < 0.5
    cs = [Icpt(rng, "c", i) for i in range(rng.choice([0, 1, 2, 3, 5]))]
    ss = [Icpt(rng, "s", i) for i in range(rng.choice([0, 1, 2, 3, 5]))]
    cfg = E.Cfg(proto=p, codec=rng.choice(["proto", "json"]), client=pair[0], server=pair[1])
    log: list = []
    cfg.client_interceptors = iterable(rng, [(make_async if pair[0] == "async" else make_sync)(s, log) for s in cs])
    cfg.server_interceptors = iterable(rng, [(make_async if pair[1] == "asgi" else make_sync)(s, log) for s in ss])
    n_calls = rng.choice([1, 2, 3])
    plans = []
    for _ in range(n_calls):
        sout = kind in E.STREAM_OUT
        n_out = rng.choice([0, 1, 2, 3]) if sout else 1
        err_at = rng.choice([None, None, *range(n_out + 1)]) if sout else rng.choice([None, None, 0])
        plans.append((n_out, err_at, Err(rng.choice(list(Code)), "from handler")))
    pos = {"n": 0}

    def script(name, request, ctx):
        n_out, err_at, err = plans[int(ctx.request_headers["x-n"])]
        got: list = [request.id] if request is not None else []
        steps: list = []
        if name in E.STREAM_IN:
            steps.append(("recvall",))

        def gen():
            yield from steps
            call = log_calls()[-1]
            ids = [m.id for m in call.reqs]
            outs = [M.Out(id=f"{j}:" + ",".join(ids)) for j in range(n_out)]
            for j, o in enumerate(outs):
                if err_at == j:
                    yield ("raise", err.exc())
                yield ("send" if name in E.STREAM_OUT else "ret", o)
            if err_at is not None and err_at >= n_out:
                yield ("raise", err.exc())
        return gen()

    lg = E.Log()

    def log_calls():
        return lg.calls

    app = E.build_app(cfg, script, lg)
    specs = []
    for i in range(n_calls):
        n_req = rng.choice([0, 1, 2, 4]) if kind in E.STREAM_IN else 1
        specs.append(E.Spec(kind, [M.Msg(id=f"r{i}{j}") for j in range(n_req)], headers={"x-n": str(i)}, use_get=use_get))
    marks = []
    what = {**cfg.brief(), "kind": kind, "get": use_get, "client": [s.brief() for s in cs], "server": [s.brief() for s in ss],
            "plans": [(a, b, c.key) for a, b, c in plans], "requests": [len(s.msgs) for s in specs]}
    t = E.run_many(cfg, script, specs, app=app)
    if O.hang(rec, t, "chains", what, n_calls):
        return
    want_c: list = []
    want_s: list = []
    want_handler: list = []
    for i, (spec, r, (n_out, err_at, err)) in enumerate(zip(specs, t.res, plans)):
        m = Model(kind, cs, ss, n_out, err_at, err)
        outs, e = m.go([x.id for x in spec.msgs])
        want_c += [x for x in m.log if x[0] == "c"]
        want_s += [x for x in m.log if x[0] == "s"]
        want_handler += m.handler
        got = ([x.id for x in r.msgs], key_of(r.err) if r.err else None if r.exc is None else repr(r.exc))
        exp = (outs, e.key if e else None)
        rec.ev("outcomes_compared")
        if got != exp:
            rec.fail(f"chains:{pair[0]}-{pair[1]}:outcome", {"case": what, "call": i, "got": got, "expected": exp})
            return
        if m.reached:
            h = [v for k, v in r.headers if k == "x-h"]
            tr = [v for k, v in r.trailers if k == "x-t"]
            if h != m.h or tr != m.t:
                rec.fail(f"chains:{pair[0]}-{pair[1]}:response-metadata", {"case": what, "call": i, "got": [h, tr], "expected": [m.h, m.t]})
                return
        if m.handler:
            c = lg.calls[len(want_handler) - 1] if len(lg.calls) >= len(want_handler) else None
            q = [v for k, v in c.headers if k == "x-q"] if c else None
            # over the wire repeated headers may have been joined
            if q is not None and len(q) == 1 and len(m.q) > 1:
                q = [x.strip() for x in q[0].split(",")]
            if q != m.q:
                rec.fail(f"chains:{pair[0]}-{pair[1]}:request-headers", {"case": what, "call": i, "got": q, "expected": m.q})
                return
    hs = [[x.id for x in c.reqs] for c in lg.calls]
    if hs != want_handler:
        rec.fail(f"chains:{pair[0]}-{pair[1]}:handler-requests", {"case": what, "got": hs, "expected": want_handler})
        return
    for side, want in (("c", want_c), ("s", want_s)):
        got = [x for x in log if x[0] == side]
        rec.ev("interceptor_events_compared", len(got))
        if got != want:
            rec.fail(f"chains:{pair[0]}-{pair[1]}:{'client' if side == 'c' else 'server'}-log", {"case": what, "got": got, "expected": want})
            return
    if log:
        rec.nontrivial((cfg.key(), kind, tuple(s.brief() for s in cs), tuple(s.brief() for s in ss), tuple((a, b) for a, b, _ in plans)))
        rec.seen("interceptor_histories", tuple(log))
    rec.sample(what)


class Paired:
    """Counts starts and ends; asserts nesting at run time."""

    def __init__(self, name, log, slow=0.0) -> None:
        self.name, self.log, self.slow = name, log, slow

    async def on_start(self, ctx):
        self.log.append((self.name, "start", None))
        if self.slow:
            await asyncio.sleep(self.slow)
        return (self.name, len(self.log))

    async def on_end(self, token, ctx, error):
        self.log.append((self.name, "end", token[0] == self.name, key_of(error)))


class PairedSync:
    def __init__(self, name, log, slow=0.0) -> None:
        self.name, self.log = name, log

    def on_start_sync(self, ctx):
        self.log.append((self.name, "start", None))
        return (self.name, len(self.log))

    def on_end_sync(self, token, ctx, error):
        self.log.append((self.name, "end", token[0] == self.name, key_of(error)))


def check_pairs(log, names) -> str | None:
    """Starts nest outermost first, ends the other way round, each exactly once."""
    starts = [e[0] for e in log if e[1] == "start"]
    ends = [e[0] for e in log if e[1] == "end"]
    if starts != names[:len(starts)]:
        return "starts out of order"
    if ends != list(reversed(starts)):
        return "ends do not match starts"
    if not all(e[2] for e in log if e[1] == "end"):
        return "wrong token"
    return None


def abandoned(rec, rng, idx):
    """Streams stopped early, at every message, on every pairing."""
    pair = E.PAIRS[idx % len(E.PAIRS)]
    p = list(E.PROTOS)[(idx // 4) % 3]
    kind = ["server_stream", "bidi"][(idx // 12) % 2]
    cfg = E.Cfg(proto=p, client=pair[0], server=pair[1])
    clog: list = []
    slog: list = []
    cn = [f"c{i}" for i in range(rng.choice([1, 2, 3]))]
    sn = [f"s{i}" for i in range(rng.choice([1, 2, 3]))]
    cfg.client_interceptors = [(Paired if pair[0] == "async" else PairedSync)(n, clog) for n in cn]
    cfg.server_interceptors = [(Paired if pair[1] == "asgi" else PairedSync)(n, slog) for n in sn]
    n = rng.choice([1, 3, 6])
    stop = rng.randint(0, n)
    how = rng.choice(["aclose", "aclose", "break"])
    script: list = []
    for i in range(n):
        script += [("send", M.Out(id=str(i))), ("sleep", rng.choice([0, 0.01, 1.0]))]
    script += [("sleep", rng.choice([0, 5.0]))]
    if kind == "bidi":
        script = [("recvall",), *script]
    cfg.plan = bridge.Plan.random(rng)
    t = E.run_one(cfg, script, E.Spec(kind, [M.Msg(id="q")], stop_after=stop, how_stop=how), settle=50.0, do_gc=True)
    what = {**cfg.brief(), "kind": kind, "sent": n, "stop_after": stop, "how": how, "client": cn, "server": sn}
    if O.hang(rec, t, "abandoned", what):
        return
    import gc
    if pair[0] == "sync":
        gc.collect()
    rec.ev("abandoned_streams")
    if stop == 0 and clog:
        rec.fail("abandoned:started-although-never-iterated", {"case": what, "log": clog})
        return
    for side, log, names in (("client", clog, cn), ("server", slog, sn)):
        bad = check_pairs(log, names)
        rec.ev("starts_and_ends_paired", len(log))
        if bad:
            rec.fail(f"abandoned:{pair[0]}-{pair[1]}:{side}:{bad.replace(' ', '-')}", {"case": what, "log": log})
            return
        if log and len(log) != 2 * len(names):
            rec.fail(f"abandoned:{pair[0]}-{pair[1]}:{side}:not-all-started", {"case": what, "log": log})
            return
    if any(e[3] is not None for e in clog if e[1] == "end"):
        rec.fail(f"abandoned:{pair[0]}:client-end-with-error", {"case": what, "log": clog})
        return
    rec.nontrivial((cfg.key(), kind, n, stop, how, len(cn), len(sn)))
    rec.sample(what)


def cancelled(rec, rng, idx):
    """The caller's task is cancelled at a random instant, or the deadline passes."""
    p = list(E.PROTOS)[idx % 3]
    kind = KINDS[(idx // 3) % len(KINDS)]
    server = ["asgi", "asgi", "wsgi"][(idx // 15) % 3]
    cfg = E.Cfg(proto=p, client="async", server=server)
    clog: list = []
    slog: list = []
    cn = [f"c{i}" for i in range(rng.choice([1, 2, 3]))]
    sn = [f"s{i}" for i in range(rng.choice([1, 2, 3]))]
    cfg.client_interceptors = [Paired(n, clog, rng.choice([0, 0, 0.5])) for n in cn]
    cfg.server_interceptors = [(Paired if server == "asgi" else PairedSync)(n, slog, rng.choice([0, 0, 0.5])) for n in sn]
    n = rng.choice([1, 2, 4]) if kind in E.STREAM_OUT else 1
    script: list = []
    if kind in E.STREAM_IN:
        script.append(("recvall",))
    for i in range(n):
        script += [("sleep", rng.choice([0, 0.3, 1.0])), ("send" if kind in E.STREAM_OUT else "ret", M.Out(id=str(i)))]
    if kind in E.STREAM_OUT:
        script.append(("sleep", rng.choice([0, 1.0])))
    at = rng.choice([0.0, 0.1, 0.4, 0.7, 1.05, 1.6, 2.2, 3.3])
    how = rng.choice(["cancel", "deadline"])
    if how == "deadline":
        at = max(at, 0.1)
    cfg.plan = bridge.Plan.random(rng)
    lg = E.Log()
    app = E.build_app(cfg, E.as_pick(script), lg)
    tr = E.build_transport(cfg, app)
    spec = E.Spec(kind, [M.Msg(id="q")] * (2 if kind in E.STREAM_IN else 1), gaps=[0, 0.2] if kind in E.STREAM_IN else [],
                  timeout_ms=int(at * 1000) if how == "deadline" else None)
    res: dict = {}

    async def main():
        client = E.build_client(cfg, tr)
        task = asyncio.ensure_future(E.acall(client, spec))
        if how == "cancel":
            await asyncio.sleep(at)
            res["done_before"] = task.done()
            task.cancel()
        try:
            res["r"] = await task
        except asyncio.CancelledError:
            res["r"] = None

    rep = vloop.run(main, settle=30.0, do_gc=True)
    what = {**cfg.brief(), "kind": kind, "at": at, "how": how, "client": cn, "server": sn, "script": repr(script)[:200]}
    if rep.deadlock or rep.exc:
        rec.fail(f"cancelled:{server}:broken", {"case": what, "deadlock": rep.deadlock, "exc": repr(rep.exc), "stacks": rep.stacks})
        return
    r = res["r"]
    what["outcome"] = repr(r.outcome()) if r else None
    for side, log, names in (("client", clog, cn), ("server", slog, sn)):
        # the last interceptor whose start was itself cancelled has no end
        starts = sum(1 for e in log if e[1] == "start")
        ends = sum(1 for e in log if e[1] == "end")
        rec.ev("starts_and_ends_paired", len(log))
        lg2 = log
        if starts == ends + 1:
            # only legal if that start was cut short: it is the last thing that started
            last = max(i for i, e in enumerate(log) if e[1] == "start")
            cut = getattr_slow(cfg, side, log[last][0])
            if cut and how == "cancel" or cut and side == "server":
                lg2 = log[:last] + log[last + 1:]
        bad = check_pairs(lg2, names)
        if bad:
            rec.fail(f"cancelled:{server}:{side}:{bad.replace(' ', '-')}", {"case": what, "log": log})
            return
    if how == "deadline" and r is not None:
        want = key_of(r.err)
        got = [e[3] for e in clog if e[1] == "end"]
        if any(g != want for g in got):
            rec.fail("cancelled:client-end-error", {"case": what, "log": clog, "outcome": what["outcome"]})
            return
    rec.nontrivial((cfg.key(), kind, at, how, len(cn), len(sn), repr(script)))
    rec.seen("interrupted_histories", (tuple(map(repr, clog)), tuple(map(repr, slog))))
    rec.sample(what)


def getattr_slow(cfg, side, name) -> bool:
    for i in (cfg.client_interceptors if side == "client" else cfg.server_interceptors):
        if i.name == name:
            return bool(getattr(i, "slow", 0))
    return False


TOKENS = [lambda: None, lambda: 0, lambda: "", lambda: (), lambda: [], lambda: {}, lambda: False, object, object, lambda: "shared"]


class Book:
    """Books every start and end by the call it belongs to; the token of an end must be the very object its own start returned."""

    def __init__(self, name, log, rng) -> None:
        self.name, self.log, self.rng, self.open, self.bad = name, log, rng, {}, []

    def start(self, ctx):
        cid = ctx.request_headers["x-cid"]
        self.log.append((cid, self.name, "start"))
        tok = self.rng.choice(TOKENS)()
        if id(ctx) in self.open:
            self.bad.append((cid, "started twice"))
        self.open[id(ctx)] = (ctx, cid, tok)
        return tok

    def end(self, token, ctx, error) -> None:
        cid = ctx.request_headers["x-cid"]
        mine = self.open.pop(id(ctx), None)
        if mine is None:
            self.bad.append((cid, "end without start"))
        elif mine[2] is not token or mine[1] != cid:
            self.bad.append((cid, f"token {token!r}, but its start returned {mine[2]!r}"))
        self.log.append((cid, self.name, "end", key_of(error)))


class BookAsync(Book):
    async def on_start(self, ctx):
        await asyncio.sleep(self.rng.choice([0, 0, 0.1]))
        return self.start(ctx)

    async def on_end(self, token, ctx, error):
        await asyncio.sleep(self.rng.choice([0, 0, 0.1]))
        self.end(token, ctx, error)


class BookSync(Book):
    def on_start_sync(self, ctx):
        return self.start(ctx)

    def on_end_sync(self, token, ctx, error):
        self.end(token, ctx, error)


class HalfStart(MetadataInterceptor):
    """Only what happens first; the rest is inherited."""

    def __init__(self, name, log, rng) -> None:
        self.name, self.log = name, log

    async def on_start(self, ctx):
        self.log.append((ctx.request_headers["x-cid"], self.name, "start"))


class HalfEnd(MetadataInterceptor):
    def __init__(self, name, log, rng) -> None:
        self.name, self.log = name, log

    async def on_end(self, token, ctx, error):
        self.log.append((ctx.request_headers["x-cid"], self.name, "end", key_of(error)))


class HalfStartSync(MetadataInterceptorSync):
    def __init__(self, name, log, rng) -> None:
        self.name, self.log = name, log

    def on_start_sync(self, ctx):
        self.log.append((ctx.request_headers["x-cid"], self.name, "start"))


class HalfEndSync(MetadataInterceptorSync):
    def __init__(self, name, log, rng) -> None:
        self.name, self.log = name, log

    def on_end_sync(self, token, ctx, error):
        self.log.append((ctx.request_headers["x-cid"], self.name, "end", key_of(error)))


BOOKS = {True: {"full": BookAsync, "start": HalfStart, "end": HalfEnd}, False: {"full": BookSync, "start": HalfStartSync, "end": HalfEndSync}}


def books(rng, side, is_async, log):
    hows = [rng.choice(["full", "full", "full", "start", "end"]) for _ in range(rng.choice([1, 1, 2, 3]))]
    return [(h, BOOKS[is_async][h](f"{side}{i}", log, rng)) for i, h in enumerate(hows)]


def overlap(rec, rng, idx):
    """Calls of every kind which overlap on one client and one application, each advanced message by message
    in a random order (streams), from within a handler of another (synchronous), or as tasks (asynchronous)."""
    pair = E.PAIRS[idx % len(E.PAIRS)]
    p = list(E.PROTOS)[(idx // 4) % 3]
    cfg = E.Cfg(proto=p, codec=rng.choice(["proto", "json"]), client=pair[0], server=pair[1])
    clog: list = []
    slog: list = []
    cb, sb = books(rng, "c", pair[0] == "async", clog), books(rng, "s", pair[1] == "asgi", slog)
    cfg.client_interceptors, cfg.server_interceptors = [b for _, b in cb], [b for _, b in sb]
    n = rng.choice([2, 3, 5])
    plans: dict = {}
    for i in range(n):
        kind = rng.choice(KINDS if pair[0] == "async" else ["server_stream", "bidi", "server_stream", *KINDS])
        n_out = rng.choice([1, 2, 4]) if kind in E.STREAM_OUT else 1
        err_at = rng.choice([None, None, 0, n_out - 1]) if kind in E.STREAM_OUT else rng.choice([None, None, 0])
        plans[f"k{i}"] = {"kind": kind, "n": n_out, "err_at": err_at, "code": rng.choice(list(Code)).value, "nest": None,
                          "stop": rng.choice([None, None, None, 1]) if kind in E.STREAM_OUT and pair[0] == "sync" else None}
    ids = list(plans)
    sync_both = pair == ("sync", "wsgi")
    nested: set = set()
    if sync_both:
        for a in ids:
            b = rng.choice(ids)
            if b > a and b not in nested and rng.random() < 0.6:
                plans[a]["nest"] = b
                nested.add(b)
    results: dict = {}
    hold: dict = {}
    nap = [rng.choice([0, 0, 0.1, 0.5]) for _ in range(40)]

    def script(name, request, ctx):
        cid = ctx.request_headers["x-cid"]
        pl = plans[cid]

        def gen():
            if name in E.STREAM_IN:
                yield ("recvall",)
            for j in range(pl["n"]):
                yield ("sleep", nap[(int(cid[1:]) * 7 + j) % len(nap)])
                if pl["nest"] is not None and j == pl["n"] // 2:
                    run(pl["nest"])
                if pl["err_at"] == j:
                    yield ("raise", ConnectError(Code(pl["code"]), cid))
                yield ("send" if name in E.STREAM_OUT else "ret", M.Out(id=f"{cid}-{j}"))
        return gen()

    lg = E.Log()
    app = E.build_app(cfg, script, lg)
    tr = E.build_transport(cfg, app)

    def spec(cid):
        k = plans[cid]["kind"]
        return E.Spec(k, [M.Msg(id=cid)] * (2 if k in E.STREAM_IN else 1), headers={"x-cid": cid}, stop_after=plans[cid]["stop"], how_stop="aclose")

    def run(cid) -> None:
        results[cid] = E.scall(hold["client"], spec(cid), None)

    if pair[0] == "async":
        delays = [rng.choice([0, 0, 0.1, 0.3]) for _ in ids]

        async def main():
            client = E.build_client(cfg, tr)

            async def one(i, cid):
                await asyncio.sleep(delays[i])
                results[cid] = await E.acall(client, spec(cid), None)
            await asyncio.gather(*(one(i, c) for i, c in enumerate(ids)))
            await client.close()

        rep = vloop.run(main, settle=20.0)
        if rep.deadlock or rep.exc:
            rec.fail("overlap:broken", {"case": {**cfg.brief(), "plans": plans}, "deadlock": rep.deadlock, "exc": repr(rep.exc), "stacks": rep.stacks[:5]})
            return
    else:
        with vtime.activate(vtime.Clock()), vloop.cpu_guard():
            hold["client"] = client = E.build_client(cfg, tr)
            todo = [c for c in ids if c not in nested]
            live: dict = {}
            while todo or live:
                c = rng.choice(todo + list(live))
                if c in todo:
                    todo.remove(c)
                    if plans[c]["kind"] not in E.STREAM_OUT:
                        run(c)
                        continue
                    sp = spec(c)
                    results[c] = E.Res()
                    arg = iter(sp.msgs) if sp.kind in E.STREAM_IN else sp.msgs[0]
                    live[c] = getattr(client, sp.kind)(arg, headers=sp.headers)
                    continue
                try:
                    results[c].msgs.append(next(live[c]))
                    if plans[c]["stop"] is not None and len(results[c].msgs) >= plans[c]["stop"]:
                        results[c].stopped = True
                        live.pop(c).close()
                except StopIteration:
                    del live[c]
                except ConnectError as e:
                    results[c].err = e
                    del live[c]
            client.close()
    what = {**cfg.brief(), "plans": plans, "client": [h for h, _ in cb], "server": [h for h, _ in sb]}
    for side, bs, log in (("client", cb, clog), ("server", sb, slog)):
        rec.ev("starts_and_ends_paired", len(log))
        for h, b in bs:
            if h == "full" and (b.bad or b.open):
                rec.fail(f"overlap:{pair[0]}-{pair[1]}:{side}:token", {"case": what, "bad": b.bad[:3], "never_ended": [x[1] for x in b.open.values()]})
                return
    for cid, pl in plans.items():
        r = results.get(cid)
        if r is None:
            if cid in nested:  # the one that would have made it stopped or failed first
                continue
            rec.fail("overlap:no-result", {"case": what, "call": cid})
            return
        rec.ev("outcomes_compared")
        stopped = pl["stop"] is not None and r.stopped
        err = None if pl["err_at"] is None or stopped else (pl["code"], cid)
        sent = pl["n"] if pl["err_at"] is None else pl["err_at"] if pl["kind"] in E.STREAM_OUT else 0
        got = ([m.id for m in r.msgs], key_of(r.err) if r.err else None if r.exc is None else repr(r.exc))
        exp = ([f"{cid}-{j}" for j in range(pl["stop"] if stopped else sent)], err)
        if got != exp:
            rec.fail(f"overlap:{pair[0]}-{pair[1]}:outcome", {"case": what, "call": cid, "got": got, "expected": exp})
            return
        for side, bs, log in (("client", cb, clog), ("server", sb, slog)):
            mine = [e[1:] for e in log if e[0] == cid]
            if stopped and side == "server":
                # how far the handler got is not determined, nor is the error
                mine = [e[:2] for e in mine]
                want = [(b.name, "start") for h, b in bs if h != "end"] + [(b.name, "end") for h, b in reversed(bs) if h != "start"]
            else:
                want = [(b.name, "start") for h, b in bs if h != "end"] + [(b.name, "end", err) for h, b in reversed(bs) if h != "start"]
            if mine != want:
                rec.fail(f"overlap:{pair[0]}-{pair[1]}:{side}:log", {"case": what, "call": cid, "got": mine, "expected": want})
                return
    order = tuple((e[0], e[2]) for e in clog)
    if any(a[0] != b[0] and a[1] == "start" == b[1] for a, b in zip(order, order[1:])) or nested:
        rec.nontrivial((cfg.key(), repr(plans), order))
        rec.seen("overlap_interleavings", (order, tuple((e[0], e[2]) for e in slog)))
    rec.sample(what)


WORKLOADS = {
    "overlap": Workload(overlap, 3000, 60000),
    "chains": Workload(chains, 9000, 200000),
    "abandoned": Workload(abandoned, 2500, 40000),
    "cancelled": Workload(cancelled, 2500, 40000),
}
