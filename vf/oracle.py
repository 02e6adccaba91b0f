"""Oracles shared by several properties."""
from __future__ import annotations

from . import engine as E
from . import msgs as M


def hang(rec, t, tag: str, what, n: int = 1) -> bool:
    """True (and a violation) if the run never completed."""
    if E.hung(t, n):
        rec.fail(f"{tag}:never-completes", {"case": what, **E.describe(t)})
        return True
    return False


def contract(rec, t, tag: str, what) -> None:
    """The ASGI/WSGI monitors saw nothing wrong."""
    for ex in t.exchanges:
        if ex.monitor is not None:
            rec.ev("contract_checks")
            if ex.monitor.bad:
                rec.fail(f"{tag}:contract", {"case": what, "bad": ex.monitor.bad[:5]})
                return


def delivered(rec, t, spec, outs, tag: str, what, *, i: int = 0, call=None) -> bool:
    """Exactly once, in order and unchanged, both ways; success on both sides."""
    r = t.res[i]
    if not r.ok:
        rec.fail(f"{tag}:failed", {"case": what, "outcome": repr(r.outcome()), **E.describe(t)})
        return False
    c = call
    if c is None:
        if len(t.calls) != len(t.res):
            rec.fail(f"{tag}:handler-calls", {"case": what, "calls": len(t.calls), "rpcs": len(t.res)})
            return False
        c = t.calls[i]
    a, b = M.canons(spec.msgs), M.canons(c.reqs)
    rec.ev("request_messages_compared", len(a))
    if a != b:
        rec.fail(f"{tag}:request-messages", {"case": what, **diff(a, b)})
        return False
    a, b = M.canons(outs), M.canons(r.msgs)
    rec.ev("response_messages_compared", len(a))
    if a != b:
        rec.fail(f"{tag}:response-messages", {"case": what, **diff(a, b)})
        return False
    return True


def diff(a, b) -> dict:
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return {"expected_n": len(a), "got_n": len(b), "first_difference": i, "expected": x[:120].hex(), "got": y[:120].hex()}
    return {"expected_n": len(a), "got_n": len(b), "first_difference": min(len(a), len(b))}


def is_prefix(got, full) -> bool:
    return len(got) <= len(full) and full[:len(got)] == got
