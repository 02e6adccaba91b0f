PROPERTY = 'P23'
NEEDS = 'a caller passing a te header of its own to a gRPC client'
BREAKS = "The te header required by gRPC is no longer 'trailers', so servers refuse the call or send no trailers."
EDITS=[('src/connectrpc/_protocol_grpc.py', '        headers["te"] = "trailers"', '        headers.setdefault("te", "trailers")')]
DEMO = '''
from h import *
from pyqwest import Headers as HH, Response


async def main():
    seen = []

    class T:
        async def execute(self, request):
            seen.append(request.headers.getall("te") if hasattr(request.headers, "getall") else request.headers.get("te"))
            async for _ in request.content:
                pass
            return Response(status=200, headers=HH([("content-type", "application/grpc+proto"), ("grpc-status", "5")]))

    c = ConnectClient("http://demo.test", protocol=GRPC, http_client=Client(T()))
    try:
        await c.execute_unary(request=S(value="a"), method=method("G"), headers={"te": "gzip"})
    except ConnectError as e:
        check(e.code is Code.NOT_FOUND, repr(e))
    check(seen in (["trailers"], [["trailers"]]), seen)

run(main())
'''
