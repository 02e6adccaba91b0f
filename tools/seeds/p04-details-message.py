PROPERTY = "P04"
NEEDS = "an error with details and an empty message, over gRPC or gRPC-Web"
BREAKS = "The details of an error without message are not sent."
EDITS = [("src/connectrpc/_protocol_grpc.py", """                trailers["grpc-message"] = message
            if error.details:
                grpc_status""", """                trailers["grpc-message"] = message
            if message and error.details:
                grpc_status""")]
DEMO = '''
from h import *


async def main():
    async def u(req, ctx):
        raise ConnectError(Code.ABORTED, req.value, details=[S(value="d")])

    app = App({"U": (U, u)})
    for proto in (CONNECT, WEB, GRPC):
        c = client(app, protocol=proto)
        for m in ("text", ""):
            try:
                await c.execute_unary(request=S(value=m), method=method("U"))
                check(False, "no error")
            except ConnectError as e:
                check(e.code == Code.ABORTED and e.message == m and [d.value(S).value for d in e.details] == ["d"], (proto, m, e.details))

run(main())
'''
