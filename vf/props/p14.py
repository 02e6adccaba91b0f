"""P14: streams are delivered incrementally."""
from __future__ import annotations

from .. import bridge
from .. import engine as E
from .. import msgs as M
from .. import oracle as O
from .. import ref as R
from ..core import Workload

ID = "P14"
RULE = ("A case is a stream or dialogue in virtual time over transports without latency. The recorded instants of sending and of receiving "
        "every message must be equal in both directions whatever the other direction does, dialogues in which each side waits for the "
        "other must finish, and headers must be visible with the first message. Non-trivial: a message was delivered while the sender "
        "was still busy; distinct by configuration, dialogue and waits.")
ASSUME = ["transports that carry both directions at once; half-duplex crossings are not judged",
          "on the synchronous side requests are pulled by the server as WSGI prescribes"]


def dialogue(rec, rng, idx):
    """Random conversations; every message is sent only after all earlier ones of the other side were received."""
    pair = E.FULL[idx % 2]
    p = list(E.PROTOS)[(idx // 2) % 3]
    cfg = E.random_cfg(rng, proto=p, pair=pair)
    if cfg.plan is None or rng.random() < 0.5:
        cfg.plan = bridge.Plan(rng, req_mode=rng.choice(["asis", "bytes", "small"]), resp_mode=rng.choice(["asis", "bytes", "small"]))
    turns = [rng.choice("CCS" if rng.random() < 0.5 else "CSS") for _ in range(rng.choice([1, 2, 4, 8, 16]))]
    style = rng.random()
    if style < 0.3:
        turns = list("CS" * rng.randint(1, 8))
    elif style < 0.4:
        turns = ["S"] * rng.randint(1, 4) + ["C"] * rng.randint(0, 4) + ["S"]
    reqs, send_when, script = [], [], []
    pending = 0
    nS = 0
    for t in turns:
        if t == "C":
            reqs.append(M.msg(rng, mid=f"q{len(reqs)}", size=rng.choice([0, 1, 300])))
            send_when.append(nS)
            pending += 1
        else:
            script += [("recv",)] * pending
            pending = 0
            if rng.random() < 0.2:
                script.append(("sleep", 0.01))
            script.append(("send", M.out(rng, oid=f"r{nS}", size=rng.choice([0, 1, 300]))))
            nS += 1
    end = rng.choice(["recvall", "return"])
    script += [("recv",)] * pending
    if end == "recvall":
        script.append(("recvall",))
    spec = E.Spec("bidi", reqs, send_when=send_when, gaps=[rng.choice([0, 0, 0.02]) for _ in reqs])
    what = {**cfg.brief(), "turns": "".join(turns), "end": end, "modes": [cfg.plan.req_mode, cfg.plan.resp_mode]}
    outs = [s[1] for s in script if s[0] == "send"]
    t = E.run_one(cfg, script, spec)
    if O.hang(rec, t, f"dialogue:{pair[0]}", what):
        return
    if not O.delivered(rec, t, spec, outs, f"dialogue:{pair[0]}", what):
        return
    # each answer was received before the client sent the next message that had to wait for it (asserted by the caller),
    # and before the handler went on
    ev = [(w, x, i) for _, w, x, i in t.events if (w, x) in (("c", "send"), ("c", "recv"), ("h", "recv"), ("h", "send"))]
    rec.ev("dialogue_events", len(ev))
    if "S" in turns and "C" in turns:
        rec.nontrivial((cfg.key(), "".join(turns), end, cfg.plan.req_mode, cfg.plan.resp_mode))
        rec.seen("dialogues", "".join(turns))
    rec.sample(what)


def times(t, who, what):
    return [x[0] for x in t.events if x[1] == who and x[2] == what]


def instants(rec, rng, idx):
    """Every message arrives at the instant it was sent, in both directions."""
    pair = E.FULL[idx % 2]
    p = list(E.PROTOS)[(idx // 2) % 3]
    kind = ["server_stream", "client_stream", "bidi"][(idx // 6) % 3]
    cfg = E.random_cfg(rng, proto=p, pair=pair)
    cfg.plan = bridge.Plan(rng, req_mode=rng.choice(["asis", "bytes", "small"]), resp_mode=rng.choice(["asis", "bytes", "small"]))
    n = rng.choice([1, 2, 3, 8]) if kind != "client_stream" else 1
    nq = rng.choice([1, 2, 3, 8]) if kind != "server_stream" else 1
    waits = [rng.choice([0, 0.01, 1.0, 60.0]) for _ in range(n)]
    tail = rng.choice([0, 0.5, 100.0])
    gaps = [rng.choice([0, 0.01, 1.0, 30.0]) for _ in range(nq)]
    hdrs = [("x-h", str(i)) for i in range(rng.randint(0, 3))]
    hdr_late = rng.random() < 0.5
    script: list = []
    body: list = []
    for i in range(n):
        body += [("sleep", waits[i]), ("send" if kind in E.STREAM_OUT else "ret", M.out(rng, oid=f"r{i}", size=rng.choice([0, 5, 3000])))]
    hs = [("hdr", k, v) for k, v in hdrs]
    if kind == "server_stream":
        script = (hs if not hdr_late else []) + body[:1] + (hs if hdr_late else []) + body[1:] + [("sleep", tail)]
    elif kind == "client_stream":
        script = hs + [("recvall",)] + body
    elif rng.random() < 0.5:
        script = hs + body[:2] + [("recvall",)] + body[2:] + [("sleep", tail)]
    else:
        k = rng.randint(0, nq)
        script = hs + [("recv",)] * k + body + [("recvall",), ("sleep", tail)]
    spec = E.Spec(kind, [M.msg(rng, mid=f"q{i}", size=rng.choice([0, 5, 3000])) for i in range(nq)], gaps=gaps if kind in E.STREAM_IN else [])
    think = rng.choice([0, 0, 5.0]) if pair[0] == "async" else 0
    spec.think = think
    outs = [s[1] for s in script if s[0] in ("send", "ret")]
    what = {**cfg.brief(), "kind": kind, "waits": waits, "tail": tail, "gaps": gaps, "think": think, "script": [s[0] for s in script],
            "modes": [cfg.plan.req_mode, cfg.plan.resp_mode]}
    t = E.run_one(cfg, script, spec)
    if O.hang(rec, t, f"instants:{pair[0]}", what):
        return
    if not O.delivered(rec, t, spec, outs, f"instants:{pair[0]}", what):
        return
    r = t.r
    eps = 1e-6
    if kind in E.STREAM_OUT:
        sent = times(t, "h", "send")
        # the consumer may not have asked yet
        free = r.t0
        for i, (s, g) in enumerate(zip(sent, r.msg_times)):
            exp = max(s, free)
            if not exp - eps <= g <= exp + eps:
                rec.fail(f"instants:{pair[0]}:{kind}:response-late", {"case": what, "message": i, "sent": s - r.t0, "received": g - r.t0, "consumer_free_at": free - r.t0})
                return
            free = g + think
            rec.ev("response_instants_compared")
        if pair[0] == "async" and think == 0 or pair[0] == "sync":
            done = times(t, "h", "exit")
            if done and abs(r.t1 - done[0]) > eps:
                rec.fail(f"instants:{pair[0]}:{kind}:end-late", {"case": what, "handler_ended": done[0] - r.t0, "call_ended": r.t1 - r.t0})
                return
        if hdrs:
            got = [(k, v) for k, v in (r.headers_after_first or []) if k == "x-h"]
            if got != hdrs:
                rec.fail(f"instants:{pair[0]}:{kind}:headers-not-with-first-message", {"case": what, "got": got, "expected": hdrs})
                return
            rec.ev("early_headers_checked")
    if kind in E.STREAM_IN and pair[0] == "async":
        sent = times(t, "c", "send")
        recv = times(t, "h", "recv")
        # the handler may not have asked yet: reconstruct when it was free to
        free = times(t, "h", "enter")[0]
        j = 0
        for tm, w, x, i in t.events:
            if w != "h":
                continue
            if x == "recv":
                exp = max(sent[j], free)
                if abs(tm - exp) > eps:
                    rec.fail(f"instants:{pair[0]}:{kind}:request-late", {"case": what, "message": j, "sent": sent[j] - r.t0, "received": tm - r.t0, "handler_free_at": free - r.t0})
                    return
                j += 1
                rec.ev("request_instants_compared")
            if x in ("recv", "sent", "send"):
                free = tm
        # sending never waits for the consumer or the handler
        exp = r.t0
        for j, s in enumerate(sent):
            exp += gaps[j]
            if s > exp + eps:
                rec.fail(f"instants:{pair[0]}:{kind}:sender-held-up", {"case": what, "message": j, "sent": s - r.t0, "expected": exp - r.t0})
                return
        if len(recv) != nq:
            raise AssertionError("reconstruction")
    rec.nontrivial((cfg.key(), kind, tuple(waits), tail, tuple(gaps), think, tuple(s[0] for s in script), cfg.plan.req_mode, cfg.plan.resp_mode))
    rec.sample(what)


def raw_server(rec, rng, idx):
    """What the application has written each time the handler is about to go on, and what it has read when it asks for more."""
    sv = ["asgi", "wsgi"][idx % 2]
    p = list(E.PROTOS)[(idx // 2) % 3]
    kind = ["server_stream", "bidi"][(idx // 6) % 2]
    cfg = E.random_cfg(rng, proto=p, pair=("async", sv))
    cfg.plan = bridge.Plan(rng)
    n = rng.choice([1, 2, 5])
    nq = rng.choice([1, 3, 5]) if kind == "bidi" else 1
    seen: list = []
    reads: list = []
    holder: dict = {}
    log = E.Log()

    def look(ctx, c):
        mon = holder["ex"]().monitor
        seen.append((len(R.envs(bytes(mon.body))[0]), mon.status, dict(holder["hdr"](mon)).get("x-h")))

    script: list = [("hdr", "x-h", "1")]
    k = rng.randint(0, nq) if kind == "bidi" else 0
    script += [("recv",)] * k
    for i in range(n):
        script += [("send", M.out(rng, oid=str(i), size=rng.choice([0, 3, 500]))), ("do", look)]
    if kind == "bidi":
        script.append(("recvall",))
    app = E.build_app(cfg, E.as_pick(script), log)
    w = R.request(p, kind, cfg.codec, [M.msg(rng, mid=f"q{i}", size=rng.choice([0, 7])) for i in range(nq)])
    frames = [R.env(d, f) for f, d in R.envs(w.body)[0]]
    # each part of the body is handed out only when the application asks for it
    parts = []
    for i, f in enumerate(frames):
        cut = rng.randint(0, len(f))
        pieces = [x for x in (f[:cut], f[cut:]) if x]
        for j, x in enumerate(pieces):
            def give(x=x, i=i):
                reads.append((i, len(log.calls[0].reqs) if log.calls and kind == "bidi" else 0))
                return x
            parts.append(give)
    if sv == "asgi":
        real = bridge.AsgiMonitor
        cell: list = []

        class Mon(real):
            def __init__(self, *a) -> None:
                super().__init__(*a)
                cell.append(self)
        bridge.AsgiMonitor = Mon
    else:
        real = bridge.WsgiMonitor
        cell = []

        class Mon(real):
            def __init__(self, *a) -> None:
                super().__init__(*a)
                cell.append(self)
        bridge.WsgiMonitor = Mon
    holder["ex"] = lambda: type("X", (), {"monitor": cell[-1]})
    holder["hdr"] = lambda mon: [(k.decode() if isinstance(k, bytes) else k.lower(), v.decode() if isinstance(v, bytes) else v) for k, v in mon.headers or []]
    try:
        ex = E.serve_raw(cfg, app, w, chunks=parts)
    finally:
        if sv == "asgi":
            bridge.AsgiMonitor = real
        else:
            bridge.WsgiMonitor = real
    what = {**cfg.brief(), "kind": kind, "responses": n, "requests": nq, "read_first": k}
    if ex.app_exc is not None:
        rec.fail(f"raw:{sv}:exception", {"case": what, "exc": repr(ex.app_exc)})
        return
    for i, (cnt, status, h) in enumerate(seen):
        rec.ev("writes_inspected")
        if cnt != i + 1 or status is None or h != "1":
            rec.fail(f"raw:{sv}:not-written-before-handler-continues", {"case": what, "after_message": i, "complete_messages_written": cnt, "status": status, "header": h})
            return
    if len(seen) != n:
        rec.fail(f"raw:{sv}:handler-did-not-finish", {"case": what, "seen": len(seen)})
        return
    # when part of message i is asked for, the handler has been given all earlier messages
    for i, got in reads:
        rec.ev("reads_inspected")
        if kind == "bidi" and got < i:
            rec.fail(f"raw:{sv}:reads-ahead", {"case": what, "asked_for_message": i, "handler_has": got})
            return
    rec.nontrivial((cfg.key(), kind, n, nq, k, len(parts)))
    rec.sample(what)


def raw_client(rec, rng, idx):
    """Whole messages that have arrived are delivered before anything else is waited for or complained about."""
    cl = ["async", "sync"][idx % 2]
    p = list(E.PROTOS)[(idx // 2) % 3]
    kind = ["server_stream", "bidi", "watch"][(idx // 6) % 3]
    cfg = E.random_cfg(rng, proto=p, pair=(cl, "asgi" if cl == "async" else "wsgi"))
    outs = [M.out(rng, oid=f"r{i}", size=rng.choice([0, 5, 400])) for i in range(rng.choice([1, 2, 3, 6]))]
    comp = rng.choice([None, None, "gzip"])
    cfg.accept = ["gzip"]
    w = R.response(p, kind, cfg.codec, outs, comp=comp)
    frames = [R.env(d, f) for f, d in R.envs(w.body)[0]]
    msgs, tail = frames[:len(outs)], b"".join(frames[len(outs):])
    # the body arrives in bursts of several messages and parts of them
    steps: list = []
    due: list = []      # when message i is complete
    now, buf = 0.0, b""
    bad = rng.choice(["no", "no", "damaged", "flags", "error", "cut"])
    for i, m in enumerate(msgs):
        cut = rng.choice([len(m), len(m), rng.randint(0, len(m))])
        if cut < len(m):
            if buf + m[:cut]:
                steps.append(buf + m[:cut])
            buf = m[cut:]
            now += (d := rng.choice([0.5, 3.0]))
            steps.append(("sleep", d))
        else:
            buf += m
        due.append(now)
        if rng.random() < 0.3:
            steps.append(buf)
            buf = b""
            now += (d := rng.choice([0.0, 1.0, 20.0]))
            steps.append(("sleep", d))
            due[-1] = now - d
    # (messages still in buf arrive with the next burst)
    burst = now
    end = {"no": tail, "damaged": R.env(b"\xff\xff\xff", 0), "flags": R.env(b"\x01\x02garbage", 1), "error": b"", "cut": (msgs[0] + msgs[0])[len(msgs[0]):][:-1] or b"\0"}[bad]
    late = rng.random() < 0.4
    if late and bad != "cut":
        if buf:
            steps.append(buf)
        now += 7.0
        steps += [("sleep", 7.0), end] if end else [("sleep", 7.0)]
    elif buf + end:
        steps.append(buf + end)
    if bad == "error":
        steps.append(OSError("connection lost"))
    elif rng.random() < 0.5:
        now += 2.0
        steps.append(("sleep", 2.0))
    trailers = w.trailers if bad == "no" else None
    t = E.run_fake(cfg, R.Fake(w.status, w.headers, steps, trailers), E.Spec(kind, [M.Msg(id="q")]))
    what = {**cfg.brief(), "kind": kind, "end": bad, "late": late, "messages": len(outs), "steps": [s if isinstance(s, tuple) else len(s) if isinstance(s, bytes) else repr(s) for s in steps]}
    if O.hang(rec, t, "raw-client", what):
        return
    r = t.r
    if M.canons(r.msgs) != M.canons(outs):
        rec.fail(f"raw-client:{cl}:{p}:not-all-delivered", {"case": what, "got": len(r.msgs), "outcome": repr(r.outcome())})
        return
    if r.ok != (bad == "no"):
        rec.fail(f"raw-client:{cl}:{p}:outcome", {"case": what, "outcome": repr(r.outcome())})
        return
    for i, g in enumerate(r.msg_times):
        rec.ev("arrivals_compared")
        if abs(g - r.t0 - min(due[i], burst)) > 1e-6:
            rec.fail(f"raw-client:{cl}:{p}:late", {"case": what, "message": i, "complete_at": due[i], "delivered_at": g - r.t0})
            return
    rec.nontrivial((cfg.key(), kind, bad, repr(what["steps"])))
    rec.sample(what)


WORKLOADS = {
    "dialogue": Workload(dialogue, 4000, 80000),
    "instants": Workload(instants, 5000, 100000),
    "raw_server": Workload(raw_server, 2400, 40000),
    "raw_client": Workload(raw_client, 2400, 40000),
}
