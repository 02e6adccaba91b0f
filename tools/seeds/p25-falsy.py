PROPERTY = "P25"
NEEDS = "a server-streaming or gRPC unary request over WSGI with more than one message"
BREAKS = "Reading the request stops after the first message, so further ones are not noticed."
EDITS = [("src/connectrpc/_server_sync.py", """    req = None
    for message in stream:
        if req is not None:
            raise ConnectError(
                Code.UNIMPLEMENTED, "unary request has multiple messages"
            )
        req = message
    if req is None:
        raise""", """    req = next(stream, None)
    if req is not None and next(stream, req) != req:
        raise ConnectError(Code.UNIMPLEMENTED, "unary request has multiple messages")
    if req is None:
        raise""")]
DEMO = '''
from h import *
import io

n = []


def ss(req, ctx):
    n.append(req)
    yield S()


app = AppSync({"Ss": (SS, ss)})
a, b = env(S(value="a").to_binary()), env(S(value="b").to_binary())
for body, ok in ((b"", False), (a, True), (a + b, False), (a + a, False)):
    n.clear()
    env_ = {"REQUEST_METHOD": "POST", "PATH_INFO": "/demo.v1.Demo/Ss", "SCRIPT_NAME": "", "QUERY_STRING": "", "CONTENT_TYPE": "application/connect+proto", "CONTENT_LENGTH": str(len(body)),
            "SERVER_NAME": "x", "SERVER_PORT": "80", "SERVER_PROTOCOL": "HTTP/2", "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(body), "wsgi.errors": io.StringIO()}
    out = b"".join(app(env_, lambda *a: None))
    check((len(n) == 1) == ok and (b"unimplemented" in out) == (not ok), (body, out, n))
'''
