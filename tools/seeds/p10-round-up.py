PROPERTY = 'P10'
NEEDS = 'a timeout over gRPC that is no multiple of the unit it is announced in'
BREAKS = 'A longer timeout than the given one is announced.'
EDITS = [('src/connectrpc/_protocol_grpc.py', 'return f"{timeout_ms // size}{unit}"', 'return f"{round(timeout_ms / size)}{unit}"')]
DEMO = '''
from h import *


async def main():
    async def get(req, ctx):
        return S()

    seen = []
    inner = App({"G": (U, get)})

    async def app(scope, receive, send):
        seen.extend(v.decode() for k, v in scope["headers"] if k == b"grpc-timeout")
        await inner(scope, receive, send)

    for ms in (100000999, 999999999):
        seen.clear()
        await client(app, protocol=GRPC).execute_unary(request=S(), method=method("G"), timeout_ms=ms)
        n, u = int(seen[0][:-1]), {"m": 1, "S": 1000, "M": 60000, "H": 3600000}[seen[0][-1]]
        check(n * u <= ms, (ms, seen))

run(main())
'''
