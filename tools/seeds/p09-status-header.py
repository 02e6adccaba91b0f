PROPERTY = "P09"
NEEDS = "a gRPC response that has messages, no trailers, and a grpc-status header (a proxy that lost the trailers)"
BREAKS = "The client takes the status of the header for the status of the call and reports success for a response whose trailers are missing."
EDITS = [("src/connectrpc/_protocol_grpc.py", "            if self._read_message:\n                raise e or ConnectError(Code.INTERNAL, \"missing grpc-status trailer\")\n            trailers = response.headers",
          "            if self._read_message and \"grpc-status\" not in response.headers:\n                raise e or ConnectError(Code.INTERNAL, \"missing grpc-status trailer\")\n            trailers = response.headers")]
DEMO = '''
from h import *


async def app(scope, receive, send):
    await receive()
    await send({"type": "http.response.start", "status": 200, "headers": [(b"content-type", b"application/grpc+proto"), (b"grpc-status", b"0")], "trailers": False})
    await send({"type": "http.response.body", "body": env(S(value="x").to_binary()), "more_body": False})


async def main():
    c = client(app, protocol=GRPC)
    try:
        got = [m.value async for m in c.execute_server_stream(request=S(value="q"), method=method("Get"))]
    except ConnectError as e:
        check(e.code == Code.INTERNAL, e.code)
    else:
        check(False, f"success without trailers: {got}")

run(main())
'''
