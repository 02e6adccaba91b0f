PROPERTY = "P23"
NEEDS = "an error message with a plus sign from a server that does not percent-encode it (the protocol does not require that)"
BREAKS = "Plus signs in messages of other servers become spaces."
EDITS = [("src/connectrpc/_protocol_grpc.py", "raise ConnectError(connect_code, urllib.parse.unquote(message))", "raise ConnectError(connect_code, urllib.parse.unquote_plus(message))")]
DEMO = '''
from h import *


async def main():
    async def app(scope, receive, send):
        await send({"type": "http.response.start", "status": 200, "headers": [(b"content-type", b"application/grpc+proto"), (b"grpc-status", b"10"), (b"grpc-message", b"1+1%3D2")]})
        await send({"type": "http.response.body", "body": b""})

    try:
        await client(app, protocol=GRPC).execute_unary(request=S(), method=method("G"))
    except ConnectError as e:
        check(e.message == "1+1=2", e.message)

run(main())
'''
