PROPERTY = "P15"
NEEDS = "a GET with base64=0 (or any value other than 1) in the query"
BREAKS = "The mere presence of the parameter makes the server decode base64, so plain JSON messages are misread."
EDITS = [("src/connectrpc/_server_sync.py", """            if "base64" in params and params["base64"][0] == "1":""", """            if "base64" in params:""")]
DEMO = '''
from h import *
import io


def get(req, ctx):
    return req


app = AppSync({"G": (U, get, IdempotencyLevel.NO_SIDE_EFFECTS)})
for q in ("message=%22abcd%22", "message=ImFiY2Qi&base64=1", "message=%22abcd%22&base64=0"):
    out = []
    e = {"REQUEST_METHOD": "GET", "PATH_INFO": "/demo.v1.Demo/G", "SCRIPT_NAME": "", "QUERY_STRING": "connect=v1&encoding=json&" + q,
         "SERVER_NAME": "a", "SERVER_PORT": "80", "SERVER_PROTOCOL": "HTTP/2", "wsgi.version": (1, 0), "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(),
         "wsgi.errors": io.StringIO(), "wsgi.multithread": True, "wsgi.multiprocess": False, "wsgi.run_once": False}
    body = b"".join(app(e, lambda st, h, x=None: out.append(st)))
    check(out == ["200 OK"] and body == b'"abcd"', (q, out, body))
'''
