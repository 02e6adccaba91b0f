"""A deterministic asyncio event loop in virtual time with sanitizers.

Real code runs on a real asyncio loop whose selector never sleeps: when nothing is ready it
jumps the clock to the next timer.  Nothing ready and no timer means the program can never
continue: a deadlock, reported as such.  While running, the loop records everything that
asyncio and the interpreter would only have logged: tasks that outlive the main coroutine,
exceptions passed to the loop's exception handler, async generators finalised by the garbage
collector instead of being closed, coroutines never awaited, unraisable exceptions."""
from __future__ import annotations

from . import vtime  # isort: skip  (must come first)

import asyncio
import gc
import importlib.util
import os
import selectors
import signal
import sys
import warnings
from dataclasses import dataclass, field

LIB = tuple(os.path.dirname(s.origin) for s in map(importlib.util.find_spec, ("connectrpc", "connectrpc_otel")) if s and s.origin)


class Deadlock(BaseException):
    pass


class Spin(BaseException):
    """CPU budget exhausted without the case finishing: an endless loop."""


class _VSelector(selectors.BaseSelector):
    def __init__(self, clock: vtime.Clock) -> None:
        self._real = selectors.SelectSelector()
        self._clock = clock
        self.limit: float | None = None

    def register(self, fileobj, events, data=None):
        return self._real.register(fileobj, events, data)

    def unregister(self, fileobj):
        return self._real.unregister(fileobj)

    def modify(self, fileobj, events, data=None):
        return self._real.modify(fileobj, events, data)

    def close(self):
        self._real.close()

    def get_key(self, fileobj):
        return self._real.get_key(fileobj)

    def get_map(self):
        return self._real.get_map()

    def select(self, timeout=None):
        if timeout is not None and timeout <= 0:
            return self._real.select(0)
        events = self._real.select(0)
        if events:
            return events
        if timeout is None:
            raise Deadlock("nothing is ready and no timer is pending")
        self._clock.now += timeout
        if self.limit is not None and self._clock.now > self.limit:
            raise Deadlock("virtual time limit exceeded")
        return []


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, clock: vtime.Clock) -> None:
        self._vclock = clock
        self._vsel = _VSelector(clock)
        super().__init__(self._vsel)
        # Exact timers: do not fire early by the real clock's resolution.
        self._clock_resolution = 1e-9
        self.gc_agens: list[str] = []
        self.exc_reports: list[str] = []
        self.set_exception_handler(self._on_exc)

    def time(self) -> float:
        return self._vclock.now

    def _on_exc(self, loop, context) -> None:
        exc = context.get("exception")
        self.exc_reports.append(f"{context.get('message')}: {exc!r}")

    def _asyncgen_finalizer_hook(self, agen) -> None:
        self.gc_agens.append(f"{agen.ag_code.co_filename}:{agen.ag_code.co_qualname}")
        super()._asyncgen_finalizer_hook(agen)


@dataclass
class Report:
    value: object = None
    exc: BaseException | None = None
    deadlock: str | None = None
    leaked_tasks: list[str] = field(default_factory=list)
    gc_agens: list[str] = field(default_factory=list)
    open_agens: list[str] = field(default_factory=list)
    exc_reports: list[str] = field(default_factory=list)
    unraisable: list[str] = field(default_factory=list)
    warnings: list[str] = field(default_factory=list)
    t0: float = 0.0
    t_end: float = 0.0
    stacks: list[str] = field(default_factory=list)

    def lib_gc_agens(self) -> list[str]:
        return [a for a in self.gc_agens if a.startswith(LIB)]

    def lib_open_agens(self) -> list[str]:
        return [a for a in self.open_agens if a.startswith(LIB)]


def _task_name(t: asyncio.Task) -> str:
    coro = t.get_coro()
    code = getattr(coro, "cr_code", None) or getattr(coro, "ag_code", None)
    return getattr(code, "co_qualname", None) or repr(coro)


def run(main, *, limit: float = 10_000.0, settle: float = 0.0, cpu: float = 20.0, do_gc: bool = False) -> Report:
    """Runs the coroutine function `main` to completion and reports what was observed.

    settle: virtual seconds to keep running after main has finished before looking for leaks
    (background work that is allowed to complete in finite time, like a server noticing a
    disconnect)."""
    rep = Report()
    clock = vtime.Clock()
    rep.t0 = clock.now
    old_unraisable = sys.unraisablehook

    def unraisable(u) -> None:
        rep.unraisable.append(f"{u.err_msg or ''} {u.exc_value!r} {u.object!r}"[:300])

    def on_cpu(signum, frame):
        raise Spin("cpu budget of the case exhausted")

    sys.unraisablehook = unraisable
    old_sig = signal.signal(signal.SIGVTALRM, on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    loop = VLoop(clock)
    loop._vsel.limit = clock.now + limit
    try:
        with warnings.catch_warnings(record=True) as caught, vtime.activate(clock):
            warnings.simplefilter("always")
            asyncio.set_event_loop(None)
            task = loop.create_task(main())
            try:
                rep.value = loop.run_until_complete(task)
            except Deadlock as e:
                rep.deadlock = str(e)
                for t in asyncio.all_tasks(loop):
                    st = t.get_stack(limit=4)
                    rep.stacks.append(
                        _task_name(t) + " @ " + " < ".join(f"{f.f_code.co_qualname}:{f.f_lineno}" for f in reversed(st))
                    )
            except Spin as e:
                rep.deadlock = str(e)
            except BaseException as e:
                rep.exc = e
            rep.t_end = clock.now
            signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
            try:
                if rep.deadlock is None:
                    if settle:
                        loop._vsel.limit = clock.now + settle + 10
                        loop.run_until_complete(_sleep(settle))
                    else:
                        loop.run_until_complete(_ticks(12))
                    if do_gc:
                        gc.collect()
                        loop.run_until_complete(_ticks(4))
                    rep.leaked_tasks = [_task_name(t) for t in asyncio.all_tasks(loop) if not t.done()]
                    rep.open_agens = [
                        f"{a.ag_code.co_filename}:{a.ag_code.co_qualname}" for a in list(loop._asyncgens)
                        if a.ag_frame is not None
                    ]
            except Deadlock as e:
                rep.deadlock = f"while settling: {e}"
            except Spin as e:
                rep.deadlock = f"while settling: {e}"
            loop._vsel.limit = clock.now + 100000
            # Tear down without letting anything escape into the next case.
            try:
                for t in asyncio.all_tasks(loop):
                    t.cancel()
                loop.run_until_complete(_ticks(20))
                rep_gc = list(loop.gc_agens)
                loop.run_until_complete(loop.shutdown_asyncgens())
            except BaseException:
                rep_gc = list(loop.gc_agens)
            rep.gc_agens = rep_gc
            rep.exc_reports = list(loop.exc_reports)
            rep.warnings = [
                f"{w.category.__name__}: {w.message}" for w in caught
                if issubclass(w.category, (RuntimeWarning, ResourceWarning))
                and "pkg_resources" not in str(w.message)
            ]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old_sig)
        try:
            loop.close()
        finally:
            sys.unraisablehook = old_unraisable
    return rep


async def _sleep(t: float) -> None:
    await asyncio.sleep(t)


async def _ticks(n: int) -> None:
    for _ in range(n):
        await asyncio.sleep(0)


class cpu_guard:
    """Bounds the CPU time of synchronous code; raises Spin inside it."""

    def __init__(self, seconds: float = 20.0) -> None:
        self.seconds = seconds

    def __enter__(self):
        def on_cpu(signum, frame):
            raise Spin("cpu budget of the case exhausted")

        self.old = signal.signal(signal.SIGVTALRM, on_cpu)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
