PROPERTY = 'P10'
NEEDS = 'a Connect timeout of ten digits'
BREAKS = 'A timeout of ten digits, which the protocol allows, is refused.'
EDITS=[('src/connectrpc/_protocol_connect.py', '            if len(timeout_header) > 10:', '            if len(timeout_header) > 9:')]
DEMO = '''
from h import *


async def main():
    seen = []

    async def get(req, ctx):
        seen.append(ctx.timeout_ms)
        return S()

    app = App({"G": (U, get)})
    for t in ("1", "999999999", "1000000000", "9999999999"):
        st, *_ = await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/proto"), ("connect-timeout-ms", t)], [b""])
        check(st == 200 and abs(seen[-1] - int(t)) < 5000, (t, st, seen))

run(main())
'''
