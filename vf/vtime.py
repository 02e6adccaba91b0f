"""Virtual time.  Must be imported before connectrpc: it replaces time.monotonic and
time.perf_counter by dispatchers that return virtual seconds while a virtual loop (or an
explicitly activated clock) is running in this process, and real time otherwise."""
from __future__ import annotations

import math
import time

real_monotonic = time.monotonic
real_perf_counter = time.perf_counter
real_monotonic_ns = time.monotonic_ns
real_perf_counter_ns = time.perf_counter_ns


class Clock:
    def __init__(self, start: float = 1000.0) -> None:
        self.now = start


active: Clock | None = None


def monotonic() -> float:
    c = active
    return real_monotonic() if c is None else c.now


def perf_counter() -> float:
    c = active
    return real_perf_counter() if c is None else c.now


def monotonic_ns() -> int:
    c = active
    return real_monotonic_ns() if c is None else round(c.now * 1e9)


def perf_counter_ns() -> int:
    c = active
    return real_perf_counter_ns() if c is None else round(c.now * 1e9)


time.monotonic = monotonic
time.perf_counter = perf_counter
time.monotonic_ns = monotonic_ns
time.perf_counter_ns = perf_counter_ns


class activate:
    """Context manager: makes `clock` the process-wide monotonic clock."""

    def __init__(self, clock: Clock) -> None:
        self.clock = clock

    def __enter__(self) -> Clock:
        global active
        self.saved = active
        active = self.clock
        return self.clock

    def __exit__(self, *a: object) -> None:
        global active
        active = self.saved


# pyqwest measures the timeout of a synchronous call in real time: what a transport is told is
# lower than what the client passed by the real time in between.
call_start = 0.0
call_ms: float | None = None
default_ms: float | None = None


def mark_call(ms: float | None = None) -> None:
    global call_start, call_ms
    call_start, call_ms = real_monotonic(), ms if ms is not None else default_ms


def sync_timeout(raw) -> tuple[float | None, float]:
    """(the timeout the client passed, uncertainty)."""
    if raw is None:
        return None, 0.0
    t = raw.total_seconds()
    slack = max(0.0, real_monotonic() - call_start) + 1e-5
    if call_ms is not None and -1e-5 <= call_ms / 1000 - t <= slack:
        return call_ms / 1000, slack
    c = math.ceil(t * 1000 - 1e-4) / 1000
    return (c if c - t <= slack else t), slack
