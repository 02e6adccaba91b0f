PROPERTY = "P20"
NEEDS = "a request whose trace headers arrive while the server has no span of its own, with a propagator given explicitly"
BREAKS = "The globally configured propagator is used to read the parent instead of the one given, so the server span starts a trace of its own."
EDITS = [("connectrpc-otel/connectrpc_otel/_interceptor.py", """                parent_otel_ctx = self._propagator.extract(carrier)""", """                parent_otel_ctx = get_global_textmap().extract(carrier)""")]
DEMO = '''
from h import *
from connectrpc_otel import OpenTelemetryInterceptor
from opentelemetry import propagate
from opentelemetry.propagators.composite import CompositePropagator
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator


async def main():
    async def get(req, ctx):
        return S()

    propagate.set_global_textmap(CompositePropagator([]))
    ex = InMemorySpanExporter()
    tp = TracerProvider()
    tp.add_span_processor(SimpleSpanProcessor(ex))
    app = App({"G": (U, get)}, interceptors=[OpenTelemetryInterceptor(tracer_provider=tp, propagator=TraceContextTextMapPropagator())])
    t = "0af7651916cd43dd8448eb211c80319c"
    await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/proto"), ("traceparent", f"00-{t}-b7ad6b7169203331-01")], [b""])
    s, = ex.get_finished_spans()
    check(f"{s.context.trace_id:032x}" == t, s.context)

run(main())
'''
