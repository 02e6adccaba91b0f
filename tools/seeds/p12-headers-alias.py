PROPERTY = 'P12'
NEEDS = 'one Headers object given to several calls, one of them over gRPC'
BREAKS = "The headers of the protocol are written into the caller's object, so they show up in other calls."
EDITS = [('src/connectrpc/_protocol_grpc.py', '                headers = Headers(tuple(user_headers.allitems()))', '                headers = user_headers')]
DEMO = '''
from h import *


async def main():
    async def get(req, ctx):
        return S()

    app = App({"G": (U, get)})
    h = Headers({"x-a": "1"})
    for p in (GRPC, WEB, CONNECT):
        await client(app, protocol=p).execute_unary(request=S(), method=method("G"), headers=h)
        check(list(h.allitems()) == [("x-a", "1")], (p, list(h.allitems())))

run(main())
'''
