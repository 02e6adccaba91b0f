PROPERTY = "P23"
NEEDS = "a gRPC-Web client that uses the content type without the +proto suffix, which the protocol allows"
BREAKS = "Such requests are refused."
EDITS = [("src/connectrpc/_protocol_grpc.py", """        if content_type.startswith(GRPC_WEB_CONTENT_TYPE_PREFIX):
            return content_type[len(GRPC_WEB_CONTENT_TYPE_PREFIX) :]
        return "proto"
""", """        return content_type.removeprefix(GRPC_WEB_CONTENT_TYPE_PREFIX)
""")]
DEMO = '''
from h import *


async def main():
    async def get(req, ctx):
        return S()

    app = App({"G": (U, get)})
    for ct in ("application/grpc+proto", "application/grpc", "application/grpc-web+proto", "application/grpc-web"):
        st, hd, *_ = await asgi(app, "/demo.v1.Demo/G", [("content-type", ct)], [env(b"")])
        check(st == 200, (ct, st))

run(main())
'''
