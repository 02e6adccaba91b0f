PROPERTY = "P20"
NEEDS = "a handler that raises an instance of a subclass of ConnectError"
BREAKS = "Its code is recorded as unknown."
EDITS = [("connectrpc-otel/connectrpc_otel/_interceptor.py", """            RPC_RESPONSE_STATUS_CODE: error.code.value
            if isinstance(error, ConnectError)
            else "unknown",""", """            RPC_RESPONSE_STATUS_CODE: error.code.value
            if type(error) is ConnectError
            else "unknown",""")]
DEMO = '''
from h import *
from connectrpc_otel import OpenTelemetryInterceptor
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter


class Mine(ConnectError):
    pass


async def main():
    async def get(req, ctx):
        raise (Mine if req.value else ConnectError)(Code.ABORTED, "x")

    for v in ("", "mine"):
        ex = InMemorySpanExporter()
        tp = TracerProvider()
        tp.add_span_processor(SimpleSpanProcessor(ex))
        app = App({"G": (U, get)}, interceptors=[OpenTelemetryInterceptor(tracer_provider=tp)])
        await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/proto")], [S(value=v).to_binary()])
        s, = ex.get_finished_spans()
        check(s.attributes.get("rpc.response.status_code") == "aborted", dict(s.attributes))

run(main())
'''
