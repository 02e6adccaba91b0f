PROPERTY = 'P10'
NEEDS = 'a gRPC request with a timeout in microseconds'
BREAKS = 'The timeout is a tenth of what was announced.'
EDITS = [('src/connectrpc/_protocol_grpc.py', '            return 1 / 1000\n', '            return 1 / 10000\n')]
DEMO = '''
from h import *


async def main():
    got = []

    async def get(req, ctx):
        got.append(ctx.timeout_ms)
        return S()

    app = App({"G": (U, get)})
    await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/grpc+proto"), ("te", "trailers"), ("grpc-timeout", "50000000u")], [env(b"")])
    check(got and 40000 < got[0] <= 50000, got)

run(main())
'''
