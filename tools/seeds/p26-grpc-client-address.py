PROPERTY = "P26"
NEEDS = "a gRPC or gRPC-Web request to a server that knows the client's address"
BREAKS = "The context does not tell the client's address in these protocols."
EDITS = [("src/connectrpc/_protocol_grpc.py", """            timeout_ms=timeout_ms,
            server_address=server_address,
            client_address=client_address,
        )""", """            timeout_ms=timeout_ms,
            server_address=server_address,
        )""")]
DEMO = '''
from h import *


async def main():
    got = []

    async def get(req, ctx):
        got.append(ctx.client_address)
        return S()

    app = App({"G": (U, get)})
    for ct, b in (("application/proto", b""), ("application/grpc+proto", env(b"")), ("application/grpc-web+proto", env(b""))):
        await asgi(app, "/demo.v1.Demo/G", [("content-type", ct)], [b])
    check(got == ["10.0.0.9:4321"] * 3, got)

run(main())
'''
