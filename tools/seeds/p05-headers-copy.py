PROPERTY = "P05"
NEEDS = "a gRPC call given a Headers object with several values for one name"
BREAKS = "Only the first value of each name is sent."
EDITS = [("src/connectrpc/_protocol_grpc.py", """            case Headers():
                # Copy to prevent modification if user keeps reference
                # TODO: Optimize
                headers = Headers(tuple(user_headers.allitems()))
            case None:
                headers = Headers()""", """            case None:
                headers = Headers()""")]
DEMO = '''
from h import *


async def get(req, ctx):
    return S(value="|".join(ctx.request_headers.getall("x-a")))


async def main():
    app = App({"G": (U, get)})
    for p in (CONNECT, WEB, GRPC):
        hd = Headers([("x-a", "1"), ("x-a", "2")])
        r = await client(app, protocol=p).execute_unary(request=S(), method=method("G"), headers=hd)
        check(r.value in ("1|2", "1, 2", "1,2"), (p, r.value))

run(main())
'''
