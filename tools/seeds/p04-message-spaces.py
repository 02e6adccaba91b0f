PROPERTY = "P04"
NEEDS = "an error message that starts or ends with white space, over gRPC or gRPC-Web"
BREAKS = "White space at the ends of a message is lost when the client decodes it."
EDITS = [("src/connectrpc/_protocol_grpc.py", 'urllib.parse.unquote(message))', 'urllib.parse.unquote(message).strip())')]
DEMO = '''
from h import *


async def fail(req, ctx):
    raise ConnectError(Code.ABORTED, req.value)


async def main():
    app = App({"F": (U, fail)})
    for p in (CONNECT, WEB, GRPC):
        for m in ("a b", " lead", "trail ", "  ", "a%20b", "é "):
            try:
                await client(app, protocol=p).execute_unary(request=S(value=m), method=method("F"))
                check(False, "no error")
            except ConnectError as e:
                check(e.message == m, (p, m, e.message))

run(main())
'''
