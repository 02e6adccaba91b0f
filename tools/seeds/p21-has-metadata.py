PROPERTY = "P21"
NEEDS = "an instrumented application with a metadata interceptor of the user"
BREAKS = "Applications and clients that already have any metadata interceptor are not instrumented."
EDITS = [("connectrpc-otel/connectrpc_otel/_instrumentor.py", """        if any(isinstance(i, OpenTelemetryInterceptor) for i in interceptors):
            return wrapped(*args, **kwargs)
""", """        if any(
            isinstance(i, OpenTelemetryInterceptor) or hasattr(i, "on_start")
            for i in interceptors
        ):
            return wrapped(*args, **kwargs)
""")]
DEMO = '''
from h import *
from connectrpc_otel import ConnectInstrumentor
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter


class Log:
    async def on_start(self, ctx):
        pass

    async def on_end(self, token, ctx, error):
        pass


async def main():
    ex = InMemorySpanExporter()
    tp = TracerProvider()
    tp.add_span_processor(SimpleSpanProcessor(ex))
    ConnectInstrumentor().instrument(tracer_provider=tp, skip_dep_check=True)

    async def get(req, ctx):
        return S()

    for its in ([], [Log()]):
        ex.clear()
        app = App({"G": (U, get)}, interceptors=its)
        await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/proto")], [b""])
        check(len(ex.get_finished_spans()) == 1, (its, ex.get_finished_spans()))

run(main())
'''
