PROPERTY = "P10"
NEEDS = "a gRPC call with a timeout of 100000000000 ms (or another exact multiple of the largest value of a unit)"
BREAKS = "The timeout is written with nine digits, which servers refuse."
EDITS = [("src/connectrpc/_protocol_grpc.py", "    elif timeout_ms < _GRPC_TIMEOUT_MAX_VALUE * 1000:", "    elif timeout_ms <= _GRPC_TIMEOUT_MAX_VALUE * 1000:")]
DEMO = '''
from h import *


async def get(req, ctx):
    return S(value=ctx.request_headers["grpc-timeout"])


async def main():
    app = App({"Get": (U, get)})
    c = client(app, protocol=GRPC)
    for ms in (10**8, 10**11, 6 * 10**12):
        r = await c.execute_unary(request=S(), method=method("Get"), timeout_ms=ms)
        check(len(r.value) <= 9, r.value)

run(main())
'''
