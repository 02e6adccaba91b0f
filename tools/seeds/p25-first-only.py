PROPERTY = "P25"
NEEDS = "a request of a unary or server-streaming method with more than one message, to a synchronous server"
BREAKS = "Further messages are ignored and the method runs."
EDITS = [("src/connectrpc/_server_sync.py", """    req = None
    for message in stream:
        if req is not None:
            raise ConnectError(
                Code.UNIMPLEMENTED, "unary request has multiple messages"
            )
        req = message
    if req is None:""", """    req = next(iter(stream), None)
    if req is None:""")]
DEMO = '''
from h import *
import io


def ss(req, ctx):
    yield req


app = AppSync({"Ss": (SS, ss)})
for n in (0, 1, 2, 3):
    e = {"REQUEST_METHOD": "POST", "PATH_INFO": "/demo.v1.Demo/Ss", "SCRIPT_NAME": "", "QUERY_STRING": "", "CONTENT_TYPE": "application/connect+proto",
         "SERVER_NAME": "a", "SERVER_PORT": "80", "SERVER_PROTOCOL": "HTTP/2", "wsgi.version": (1, 0), "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(env(b"") * n),
         "wsgi.errors": io.StringIO(), "wsgi.multithread": True, "wsgi.multiprocess": False, "wsgi.run_once": False}
    out = envelopes(b"".join(app(e, lambda st, h, x=None: None)))
    check((b"unimplemented" in out[-1][1]) == (n != 1), (n, out))
'''
