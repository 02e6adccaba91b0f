"""OpenTelemetry rig: a provider that records starts and ends of spans, metrics and the library's complaints."""
from __future__ import annotations

import collections
import logging
import threading

from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from opentelemetry.trace import SpanKind, StatusCode


class Rec(SpanProcessor):
    def __init__(self) -> None:
        self.started: list = []
        self.ended: list = []
        self.lock = threading.Lock()

    def on_start(self, span, parent_context=None) -> None:
        with self.lock:
            self.started.append(span)

    def on_end(self, span) -> None:
        with self.lock:
            self.ended.append(span)


class _Complaints(logging.Handler):
    def __init__(self) -> None:
        super().__init__()
        self.lines: list[str] = []

    def emit(self, record) -> None:
        self.lines.append(f"{record.name}: {record.getMessage()}")


COMPLAINTS = _Complaints()
logging.getLogger("opentelemetry").addHandler(COMPLAINTS)
logging.getLogger("opentelemetry").propagate = False


class Rig:
    def __init__(self) -> None:
        self.rec = Rec()
        res = Resource.get_empty()
        self.tp = TracerProvider(resource=res, sampler=ALWAYS_ON, shutdown_on_exit=False)
        self.tp.add_span_processor(self.rec)
        self.reader = InMemoryMetricReader()
        self.mp = MeterProvider(metric_readers=[self.reader], resource=res, shutdown_on_exit=False)
        self.tracer = self.tp.get_tracer("app")
        COMPLAINTS.lines.clear()

    @property
    def complaints(self) -> list[str]:
        return [x for x in COMPLAINTS.lines if "w3c identifiers" not in x]

    def unpaired(self) -> str | None:
        s = collections.Counter(x.get_span_context().span_id for x in self.rec.started)
        e = collections.Counter(x.get_span_context().span_id for x in self.rec.ended)
        if s != e:
            names = {x.get_span_context().span_id: (x.name, x.kind.name) for x in self.rec.started}
            return f"started but not ended exactly once: {[(names.get(k), s[k], e[k]) for k in s | e if s[k] != e[k]][:4]}"
        return None

    def rpc_spans(self, kind: SpanKind) -> list:
        return [s for s in self.rec.ended if s.kind is kind and s.instrumentation_scope.name == "connectrpc-otel"]

    def points(self) -> dict:
        """metric name -> Counter of frozen attributes -> number of calls; the recorded values add up in `sums`."""
        out: dict = {}
        self.sums: dict = {}
        self.units: dict = {}
        data = self.reader.get_metrics_data()
        for rm in data.resource_metrics if data else []:
            for sm in rm.scope_metrics:
                for m in sm.metrics:
                    c = out.setdefault(m.name, collections.Counter())
                    self.units[m.name] = m.unit
                    for p in m.data.data_points:
                        self.sums[m.name] = self.sums.get(m.name, 0.0) + p.sum
                        c[frozenset(p.attributes.items())] += p.count
                        if p.min is not None and p.min < 0:
                            c["negative"] += 1
        return out

    def close(self) -> None:
        self.tp.shutdown()
        self.mp.shutdown()


def ids(span) -> tuple[int, int]:
    c = span.get_span_context()
    return (c.trace_id, c.span_id)


def parent_ids(span) -> tuple[int, int] | None:
    return (span.parent.trace_id, span.parent.span_id) if span.parent is not None else None


def is_error(span) -> bool:
    return span.status.status_code is StatusCode.ERROR
