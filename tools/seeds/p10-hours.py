PROPERTY = "P10"
NEEDS = "a gRPC client with a timeout of more than 27 hours"
BREAKS = "Timeouts from 1e8 milliseconds on are announced a thousand times too short."
EDITS = [("src/connectrpc/_protocol_grpc.py", """    elif timeout_ms < _GRPC_TIMEOUT_MAX_VALUE * 60 * 1000:
        size, unit = 60 * 1000, "M"
""", """    elif timeout_ms < _GRPC_TIMEOUT_MAX_VALUE * 60 * 1000:
        size, unit = 60 * 1000, "m"
""")]
DEMO = '''
from h import *


async def main():
    seen = []

    async def u(req, ctx):
        seen.append(ctx.timeout_ms)
        return req

    app = App({"U": (U, u)})
    c = client(app, protocol=GRPC)
    for ms in (5000, 10**9, 2 * 10**11, 10**13):
        await c.execute_unary(request=S(), method=method("U"), timeout_ms=ms)
        check(0.99 * ms < seen[-1] <= ms, (ms, seen))

run(main())
'''
