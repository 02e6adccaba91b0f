PROPERTY = 'P21'
NEEDS = 'instrumenting the library while a client or application is given a telemetry interceptor that is not its first one'
BREAKS = 'A second telemetry interceptor is added, so every call is recorded twice.'
EDITS=[('connectrpc-otel/connectrpc_otel/_instrumentor.py', '        if any(isinstance(i, OpenTelemetryInterceptor) for i in interceptors):', '        if interceptors and isinstance(interceptors[0], OpenTelemetryInterceptor):')]
DEMO = '''
from h import *
from connectrpc_otel import ConnectInstrumentor, OpenTelemetryInterceptor
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter


async def main():
    async def get(req, ctx):
        return S()

    class I:
        async def intercept_unary(self, next, req, ctx):
            return await next(req, ctx)

    ex = InMemorySpanExporter()
    tp = TracerProvider()
    tp.add_span_processor(SimpleSpanProcessor(ex))
    inst = ConnectInstrumentor()
    inst.instrument(tracer_provider=tp)
    try:
        for its in ([OpenTelemetryInterceptor(tracer_provider=tp), I()], [I(), OpenTelemetryInterceptor(tracer_provider=tp)]):
            ex.clear()
            app = App({"G": (U, get)}, interceptors=its)
            await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/proto")], [b""])
            check(len(ex.get_finished_spans()) == 1, (its, len(ex.get_finished_spans())))
    finally:
        inst.uninstrument()

run(main())
'''
