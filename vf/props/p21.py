"""P21: telemetry never changes the outcome of a call."""
from __future__ import annotations

import gzip
import json
import os
import random
import subprocess
import sys
import time
import types

from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc_otel import ConnectInstrumentor, OpenTelemetryInterceptor
from opentelemetry.trace import SpanKind

from .. import bridge
from .. import engine as E
from .. import msgs as M
from .. import mutate as MU
from .. import oracle as O
from .. import otel, vloop, vtime
from .. import ref as R
from ..core import Workload
from . import p09
from .p11 import Paired, PairedSync
from .p12 import Plan1

ID = "P21"
RULE = ("A case is one execution run twice from the same random seed, with and without telemetry, whose complete observations (caller's "
        "messages, errors and metadata; handler's view; bytes on the wire; contract monitors; other interceptors' log) must be equal apart "
        "from the propagation headers; or a history of instrumenting, removing, importing and creating whose observations must match a "
        "model. Non-trivial: telemetry took part in the call; distinct by configuration, addresses, outcome or history.")
ASSUME = ["the propagation headers are traceparent, tracestate and baggage",
          "the OpenTelemetry SDK itself does not raise"]

PROPAGATION = {"traceparent", "tracestate", "baggage"}
BASES = ["http://svc.test", "http://svc.test:8080", "https://svc.test", "https://svc.test/some/prefix", "http://svc.test/", "http://[::1]", "http://[::1]:99",
         "http://[2001:db8::1]/x:y", "http://svc.test:8080/p", "http://a", "http://svc.test:0", "http://svc.test:65535/a/b:1", "http://xn--bcher-kva.example"]
HOSTS = [None, "", ":", "a", "a:80", "a:", ":80", "a:b", "a:80:90", "[::1]", "[::1]:80", "[::1]:x", "[", "]", "::1", "a:99999999999999999999", "a:-1", "a: 80",
         "a:\u0664\u0662", "a:1e3", "a:0x50", "user@host:1", "a:+80", "a:8_0", "a:00080", "a,b:80", "unix:/tmp/x.sock", "a" * 300 + ":1", "a:\u00b2", " ", "a:99999"]
CLIENTS = [("127.0.0.1", 111), None, ("", 0), ("::1", 5), ("fe80::1%eth0", 5), ("/tmp/sock", None), ("x", "y"), ("h", -1), ("h", 99999999), ("testclient", 50000)]
TPS = [None, "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "junk", "", "00-" + "f" * 32 + "-" + "0" * 16 + "-01"]


def setup(rec):
    # two runs of one case must compress to the same bytes: gzip headers carry the time
    gzip.time = types.SimpleNamespace(time=lambda: 1_000_000.0)


def teardown(rec):
    gzip.time = time


def strip(items):
    return [(k, v) for k, v in items if k.lower() not in PROPAGATION]


def tele(cfg, mode, rig) -> None:
    """Adds telemetry to a Cfg (in front or behind of what is there)."""
    kw = {"tracer_provider": rig.tp, "meter_provider": rig.mp} if rig else {}
    c = OpenTelemetryInterceptor(client=True, **kw)
    s = OpenTelemetryInterceptor(**kw)
    if mode in ("both", "client"):
        cfg.client_interceptors = [c, *cfg.client_interceptors]
    if mode in ("both", "server"):
        cfg.server_interceptors = [s, *cfg.server_interceptors]
    if mode == "behind":
        cfg.client_interceptors = [*cfg.client_interceptors, c]
        cfg.server_interceptors = [*cfg.server_interceptors, s]


def view(t, ilog) -> dict:
    out = {"results": [], "calls": [], "wire": [], "interceptors": list(ilog), "deadlock": bool(t.report and t.report.deadlock)}
    for r in t.res:
        out["results"].append((r.outcome(), [m.hex() for m in M.canons(r.msgs)], r.headers, r.trailers, r.stopped, r.req_pulled, r.req_closed, round(r.t1 - r.t0, 6)))
    for c in t.calls:
        out["calls"].append((c.method, [m.hex() for m in M.canons(c.reqs)], strip(c.headers), c.http_method, c.finished, c.cleanups, c.server_address, c.client_address,
                             [round(v, 3) if v is not None else None for _, w, v in c.events if w == "timeout"]))
    for ex in t.exchanges:
        m = ex.monitor
        out["wire"].append((ex.method, ex.url, strip(ex.req_headers), bytes(ex.req_body).hex() if ex.req_body is not None else None,
                            ex.resp() if m is not None else None, list(m.bad) if m is not None else None, repr(ex.app_exc)))
    if t.report is not None:
        out["loop"] = (sorted(map(str, t.report.leaked_tasks)), len(t.report.gc_agens), t.report.exc_reports)
    return out


def differ(rec, tag, a, b, what) -> bool:
    rec.ev("executions_compared")
    for k in a:
        if a[k] != b.get(k):
            d = None
            if isinstance(a[k], list):
                d = next(((x, y) for x, y in zip(a[k], b[k]) if x != y), (len(a[k]), len(b[k])))
            rec.fail(f"{tag}:{k}-differ", {"case": what, "without": repr(d[0] if d else a[k])[:900], "with": repr(d[1] if d else b[k])[:900]})
            return True
    return False


def paired(rec, rng, idx):
    pair = E.PAIRS[idx % 4]
    p = list(E.PROTOS)[(idx // 4) % 3]
    mode = rng.choice(["both", "both", "client", "server", "behind"])
    seed = rng.random()
    with_rig = rng.random() < 0.8
    obs = []
    for tel in (False, True):
        g = random.Random(seed)
        cfg = E.random_cfg(g, proto=p, pair=pair)
        cfg.plan.client = g.choice(CLIENTS)
        cfg.base = g.choice(BASES)
        mount = cfg.base.split("//", 1)[1].partition("/")[2].rstrip("/")
        if mount:
            cfg.plan.mount = "/" + mount
        n = g.choice([1, 1, 2, 3])
        plans = [Plan1(g, i, p, pair[0] == "sync" or pair[1] == "wsgi", True) for i in range(n)]
        for x in plans:
            x.spec.headers = {**x.spec.headers}
            if (tp := g.choice(TPS)) is not None:
                x.spec.headers["traceparent"] = tp
            if g.random() < 0.3:
                x.spec.headers["host"] = g.choice([h for h in HOSTS if h and h.isascii()])
            if x.sout and g.random() < 0.3:
                x.spec.stop_after = g.choice([0, 1, 2])
            if g.random() < 0.3:
                x.spec.headers = E.to_headers([*x.spec.headers.items(), ("x-rep", "1"), ("x-rep", "2")])
            if x.err_at is not None and g.random() < 0.3:
                x.boom = True
        by = {x.cid: x for x in plans}
        ilog: list = []
        if g.random() < 0.5:
            cfg.client_interceptors = [(Paired if pair[0] == "async" else PairedSync)("c", ilog)]
            cfg.server_interceptors = [(Paired if pair[1] == "asgi" else PairedSync)("s", ilog)]
        rig = otel.Rig() if tel and with_rig else None
        if tel:
            tele(cfg, mode, rig)

        def script(name, req, ctx, by=by):
            x = by[ctx.request_headers["x-cid"]]
            for st in x.script():
                yield ("raise", E.Boom("boom")) if st[0] == "raise" and getattr(x, "boom", False) else st
        t = E.run_many(cfg, script, [x.spec for x in plans], settle=2000.0)
        obs.append(view(t, ilog))
        what = {**cfg.brief(), "base": cfg.base, "mode": mode, "kinds": [x.kind for x in plans], "sdk": with_rig,
                "hosts": [x.spec.headers.get("host") for x in plans], "client_addr": cfg.plan.client}
        if rig:
            rec.ev("spans_recorded", len(rig.rec.ended))
            spans = len(rig.rec.ended)
            rig.close()
        else:
            spans = 1
    if differ(rec, "paired", obs[0], obs[1], what):
        return
    if spans:
        rec.nontrivial((cfg.key(), cfg.base, mode, cfg.plan.client, tuple((x.kind, x.err_at, x.spec.stop_after) for x in plans)))
        rec.seen("outcomes", repr([r[0] for r in obs[1]["results"]]))
        rec.seen("addresses", (cfg.base, cfg.plan.client, tuple(what["hosts"])))
    rec.sample(what)


def raw_requests(rec, rng, idx):
    """Requests of any peer, good and malformed, with any Host and client address."""
    sv = ["asgi", "wsgi"][idx % 2]
    p = list(E.PROTOS)[(idx // 2) % 3]
    kind = rng.choice(E.KINDS)
    codec = rng.choice(["proto", "json"])
    seed = rng.random()
    get = kind == "get" and p == "connect" and rng.random() < 0.5
    k_ms = rng.choice([0, 1, 2]) if kind in E.STREAM_IN else 1
    w = R.request(p, kind, codec, [M.msg(rng, size=10) for _ in range(k_ms)], comp=rng.choice([None, "gzip"]), get=get,
                  timeout_ms=rng.choice([None, 10000]), headers=[("x-a", "1"), ("x-a", "2")])
    muts = []
    if rng.random() < 0.4:
        nm, w.body = MU.mutate(rng, w.body)
        muts.append(nm)
    host = rng.choice(HOSTS)
    w = w.without("host")
    if host is not None:
        w.headers.append(("host", host))
    if (tp := rng.choice(TPS)) is not None:
        w.headers.append(("traceparent", tp))
    if rng.random() < 0.3:
        w.headers.append(("tracestate", rng.choice(["a=1", "=,=", "\u00e9", "x" * 600, ","])))
    if rng.random() < 0.3:
        w.headers.append(("baggage", rng.choice(["a=1,b=2;p", "=", "%", "a=%zz", "x" * 9000, ","])))
    client = rng.choice(CLIENTS)
    scheme = rng.choice(["http", "https", "", "x"])
    err_at = rng.choice([None, None, 0, 1])
    obs = []
    for tel in (False, True):
        cfg = E.Cfg(proto=p, codec=codec, server=sv, client="async")
        plan = bridge.Plan(random.Random(seed))
        plan.client = client
        if host is None:
            plan.scope_extra = {"headers": [(a.lower().encode(), b.encode()) for a, b in w.headers]}
        plan.scope_extra["scheme"] = scheme
        plan.environ_extra["wsgi.url_scheme"] = scheme or "http"
        if host is None:
            plan.environ_extra["HTTP_HOST"] = None
        ilog: list = []
        cfg.server_interceptors = [(Paired if sv == "asgi" else PairedSync)("s", ilog)]
        rig = otel.Rig() if tel else None
        if tel:
            tele(cfg, "server", rig)

        def script(name, req, ctx):
            if name in E.STREAM_IN:
                yield ("recvall",)
            yield ("hdr", "x-h", "1")
            if err_at == 0:
                yield ("raise", ConnectError(Code.ABORTED, "no"))
            yield ("send" if name in E.STREAM_OUT else "ret", M.Out(id="o"))
            if err_at == 1:
                yield ("raise", ValueError("late"))
        log = E.Log()
        app = E.build_app(cfg, script, log)
        ex = E.serve_raw(cfg, app, w, plan=plan)
        m = ex.monitor
        obs.append({"response": ex.resp(), "contract": list(m.bad), "raised": repr(ex.app_exc), "interceptors": ilog,
                    "handler": [(c.method, [x.hex() for x in M.canons(c.reqs)], c.headers, c.finished, c.server_address, c.client_address) for c in log.calls]})
        if rig:
            spans = len(rig.rec.ended)
            if rig.unpaired():
                rec.fail("raw:span-not-ended-once", {"why": rig.unpaired()})
            rig.close()
    what = {**cfg.brief(), "kind": kind, "host": host, "client": client, "scheme": scheme, "traceparent": tp, "mutations": muts}
    if differ(rec, "raw", obs[0], obs[1], what):
        return
    if spans:
        rec.nontrivial((p, sv, kind, host, client, scheme, tp, tuple(muts), err_at))
        rec.seen("addresses", (host, client, scheme))


def servers(rec, rng, idx):
    """Clients with telemetry against servers that answer anything."""
    p, k, kind, cfg0 = p09.pick_case(rng, idx)
    err = p09.error_of(rng) if rng.random() < 0.5 else None
    w = p09.valid(rng, p, k, cfg0.codec, error=err)
    muts = []
    for _ in range(rng.choice([0, 1, 2])):
        m = rng.choice(["body", "headers", "status"])
        if m == "body":
            nm, b = MU.mutate(rng, w.body)
            w = R.WireResp(w.status, w.headers, b, w.trailers)
            muts.append(nm)
        elif m == "headers":
            w = R.WireResp(w.status, p09.mut_headers(rng, w.headers, p), w.body, w.trailers)
            muts.append(m)
        else:
            w = R.WireResp(rng.choice(p09.STATUSES), w.headers, w.body, w.trailers)
            muts.append(m)
    exc = rng.choice(p09.EXCS) if rng.random() < 0.15 else None
    base = rng.choice(BASES)
    obs = []
    for tel in (False, True):
        cfg = E.Cfg(**{**cfg0.__dict__})
        cfg.base = base
        ilog: list = []
        cfg.client_interceptors = [(Paired if cfg.client == "async" else PairedSync)("c", ilog)]
        rig = otel.Rig() if tel else None
        if tel:
            tele(cfg, "client", rig)
        t = p09.call(cfg, kind, R.Fake(w.status, w.headers, [w.body, *([exc()] if exc else [])], w.trailers))
        v = view(t, ilog)
        v["requests"] = [(g.method, g.url, strip(g.headers), bytes(g.body).hex()) for g in t.got]
        obs.append(v)
        if rig:
            spans = len(rig.rec.ended)
            if rig.unpaired():
                rec.fail("servers:span-not-ended-once", {"why": rig.unpaired()})
            rig.close()
    what = {**cfg.brief(), "kind": kind, "base": base, "mutations": muts, "fault": bool(exc)}
    if differ(rec, "servers", obs[0], obs[1], what):
        return
    rec.nontrivial((p, kind, cfg.client, base, tuple(muts), repr(obs[1]["results"][0][0])))
    rec.seen("outcomes", repr(obs[1]["results"][0][0]))
    rec.ev("spans_recorded", spans)


# --------------------------------------------------------------------------- instrumenting
class OwnTelemetry(OpenTelemetryInterceptor):
    """A user's extension."""


def ways(rng, xs):
    """How interceptors are handed over; 'none' gives nothing at all."""
    if not xs:
        return rng.choice(["nothing", "none-given", "empty-list", "empty-tuple"])
    return rng.choice(["list", "tuple", "generator", "iterator", "dict"])


def give(way, xs):
    return {"list": lambda: list(xs), "tuple": lambda: tuple(xs), "generator": lambda: (x for x in xs), "iterator": lambda: iter(xs),
            "dict": lambda: dict.fromkeys(xs), "empty-list": list, "empty-tuple": tuple, "none-given": lambda: None}[way]()


def histories(rec, rng, idx):
    """Random histories in one process against a model: which objects record spans, and to which provider."""
    pair = E.FULL[idx % 2]
    acl = pair[0] == "async"
    rigs = [otel.Rig() for _ in range(2)]
    ins = ConnectInstrumentor()
    if ins.is_instrumented_by_opentelemetry:
        ins.uninstrument()
    ilog: list = []
    log = E.Log()
    state = None
    objs: list = []   # (client, app transport, client's rigs, app's rigs, names)
    trace: list = []
    n = rng.randint(3, 12)
    proto = rng.choice(list(E.PROTOS))
    other_list_after: list = []

    def script(name, req, ctx):
        return [("ret", M.Out(id="o"))]

    def create():
        cn = [f"c{i}" for i in range(rng.choice([0, 0, 1, 2]))]
        sn = [f"s{i}" for i in range(rng.choice([0, 0, 1, 2]))]
        cs = [(Paired if acl else PairedSync)(x, ilog) for x in cn]
        ss = [(Paired if acl else PairedSync)(x, ilog) for x in sn]
        crig, srig = ([state] if state is not None else []), ([state] if state is not None else [])
        cown = sown = False
        if rng.random() < 0.2:
            j = rng.randint(0, 1)
            cs.insert(rng.randint(0, len(cs)), rng.choice([OpenTelemetryInterceptor, OwnTelemetry])(client=True, tracer_provider=rigs[j].tp, meter_provider=rigs[j].mp))
            crig, cown = [j], True
        if rng.random() < 0.2:
            j = rng.randint(0, 1)
            ss.insert(rng.randint(0, len(ss)), rng.choice([OpenTelemetryInterceptor, OwnTelemetry])(tracer_provider=rigs[j].tp, meter_provider=rigs[j].mp))
            srig, sown = [j], True
        cw, sw = ways(rng, cs), ways(rng, ss)
        # None is not an interceptor argument the library accepts by itself
        kept = {}
        akw: dict = {}
        ckw: dict = {}
        if sw != "nothing" and not (sw == "none-given" and state is None):
            akw["interceptors"] = kept["s"] = give(sw, ss)
        if cw != "nothing" and not (cw == "none-given" and state is None):
            ckw["interceptors"] = kept["c"] = give(cw, cs)
        if acl:
            app = E.ProbeASGIApplication(E.AHandler(E.as_pick(script), log), **akw)
            tr = bridge.AsgiBridge(app, bridge.Plan())
            cl = E.ProbeClient("http://svc.test", protocol=E.PROTOS[proto], http_client=E.Client(transport=tr), **ckw)
        else:
            app = E.ProbeWSGIApplication(E.SHandler(E.as_pick(script), log), **akw)
            tr = bridge.WsgiBridge(app, bridge.Plan())
            cl = E.ProbeClientSync("http://svc.test", protocol=E.PROTOS[proto], http_client=E.SyncClient(transport=tr), **ckw)
        for side, xs, way in (("s", ss, sw), ("c", cs, cw)):
            if way == "list" and kept[side] != xs:
                other_list_after.append((side, "the given list was changed"))
        objs.append((cl, crig, srig, cn, sn))
        trace.append(("create", cw, sw, crig, srig))

    async def acall_one(i):
        cl = objs[i][0]
        return await cl.unary(M.Msg(id="q"))

    ops: list = []
    for _ in range(n):
        ops.append(rng.choice(["instrument", "instrument", "uninstrument", "uninstrument", "create", "create", "call", "call"]))
    ops += ["create", "call", "call"]

    async def step(op):
        nonlocal state
        if op == "instrument":
            j = rng.randint(0, 1)
            ConnectInstrumentor().instrument(tracer_provider=rigs[j].tp, meter_provider=rigs[j].mp)
            if state is None:
                state = j
            trace.append(("instrument", j))
        elif op == "uninstrument":
            (ins if rng.random() < 0.5 else ConnectInstrumentor()).uninstrument()
            state = None
            trace.append(("uninstrument",))
        elif op == "create":
            create()
        elif objs:
            i = rng.randrange(len(objs))
            cl, crig, srig, cn, sn = objs[i]
            trace.append(("call", i))
            ilog.clear()
            for r in rigs:
                r.rec.ended.clear()
                r.rec.started.clear()
            if acl:
                m = await cl.unary(M.Msg(id="q"))
            else:
                m = cl.unary(M.Msg(id="q"))
            if m.id != "o":
                return "wrong-result"
            names = [x for x in cn] + [x for x in sn]
            got_s = [x[0] for x in ilog if x[1] == "start"]
            got_e = [x[0] for x in ilog if x[1] == "end"]
            if got_s != names or got_e != names[::-1]:
                return f"other-interceptors: {got_s} {got_e} expected {names}"
            for j, r in enumerate(rigs):
                want = ["SERVER"] * (srig == [j]) + ["CLIENT"] * (crig == [j])
                got = [s.kind.name for s in r.rec.ended]
                rec.ev("calls_judged")
                if sorted(got) != sorted(want):
                    return f"spans: provider {j} got {got}, expected {want}"
        return None

    why = None
    import logging
    logging.disable(logging.WARNING)
    try:
        if acl:
            async def main():
                nonlocal why
                for op in ops:
                    if why := await step(op):
                        return
            rep = vloop.run(main, settle=5.0)
            if rep.exc is not None:
                why = f"raised {rep.exc!r}"
            elif rep.deadlock:
                why = rep.deadlock
        else:
            with vtime.activate(vtime.Clock()), vloop.cpu_guard():
                for op in ops:
                    c = step(op)
                    try:
                        c.send(None)
                    except StopIteration as e:
                        if e.value:
                            why = e.value
                            break
                    except Exception as e:  # noqa: BLE001
                        why = f"raised {e!r}"
                        break
    finally:
        logging.disable(logging.NOTSET)
        if ins.is_instrumented_by_opentelemetry:
            ins.uninstrument()
        for r in rigs:
            r.close()
    if why:
        rec.fail("histories:" + why.split(":")[0].split("(")[0][:40], {"why": why, "history": trace, "pair": pair, "proto": proto})
        return
    if other_list_after:
        rec.fail("histories:argument-changed", {"what": other_list_after, "history": trace})
        return
    rec.nontrivial((pair, tuple(map(str, trace))))
    rec.seen("histories", tuple(map(str, trace)))
    rec.sample({"pair": pair, "history": trace})


def fresh(rec, rng, idx):
    """Histories in fresh interpreters, including imports of the library."""
    hs = []
    if idx == 0:
        import itertools
        for n in range(5):
            for t in itertools.product("iug", repeat=n):
                hs.append([*t, "o"])
        hs = hs[:124]
    while len(hs) < 60:
        hs.append([rng.choice("iIuuucsgo") for _ in range(rng.randint(2, 10))] + ["o"])
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(__file__)), "fresh_otel.py")], input=json.dumps(hs),
                       capture_output=True, text=True, timeout=800)
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    for h, r in zip(hs, json.loads(p.stdout)):
        rec.ev("histories_judged")
        if "exc" in r:
            rec.fail("fresh:raised", {"history": h, "exc": r["exc"], "tb": r.get("tb")})
            return
        st, want = None, []
        for op in h:
            if op in "iI" and st is None:
                st = "iI".index(op)
            elif op == "u":
                st = None
            elif op == "o":
                sp = [["SERVER", "CLIENT"] if st == j else [] for j in (0, 1)]
                want.append({"values": ["a!", "b!"], "async": sp, "sync": sp, "own": "sseessee"})
        if r["ok"] != want:
            rec.fail("fresh:spans", {"history": h, "got": r["ok"], "expected": want})
            return
        rec.nontrivial("".join(h))
        rec.seen("histories", "".join(h))


WORKLOADS = {
    "paired": Workload(paired, 1200, 24000),
    "raw_requests": Workload(raw_requests, 1600, 40000),
    "servers": Workload(servers, 1200, 30000),
    "histories": Workload(histories, 600, 12000),
    "fresh": Workload(fresh, 2, 30),
}
