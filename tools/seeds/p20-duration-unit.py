PROPERTY = 'P20'
NEEDS = 'any call; the recorded duration has to be compared with the time the call took'
BREAKS = 'Call durations are recorded in milliseconds in an instrument whose unit is seconds.'
EDITS=[('connectrpc-otel/connectrpc_otel/_interceptor.py', 'self._call_duration.record(end_time - start_time, metric_attrs)', 'self._call_duration.record((end_time - start_time) * 1000, metric_attrs)')]
DEMO = '''
from h import *
import time
from connectrpc_otel import OpenTelemetryInterceptor
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader


async def main():
    async def get(req, ctx):
        await asyncio.sleep(0.2)
        return S()

    rd = InMemoryMetricReader()
    app = App({"G": (U, get)}, interceptors=[OpenTelemetryInterceptor(meter_provider=MeterProvider(metric_readers=[rd]))])
    t = time.perf_counter()
    await client(app).execute_unary(request=S(value="a"), method=method("G"))
    took = time.perf_counter() - t
    pts = [(m.unit, p) for rm in rd.get_metrics_data().resource_metrics for sm in rm.scope_metrics for m in sm.metrics for p in m.data.data_points]
    check(len(pts) == 1 and pts[0][1].count == 1, pts)
    check(0.19 <= pts[0][1].sum <= took + 0.01 and pts[0][0] == "s", (pts[0][0], pts[0][1].sum, took))

run(main())
'''
