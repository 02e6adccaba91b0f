PROPERTY = "P27"
NEEDS = "a large request over HTTP/1.1 that a WSGI application refuses before reading it"
BREAKS = "Only the first pieces of the refused request are read, so the server closes the connection while the client still sends and the caller gets a connection error instead of the answer."
EDITS = [("src/connectrpc/_server_sync.py", """        for _ in _read_body(environ):
            pass
""", """        for i, _ in enumerate(_read_body(environ)):
            if i >= 4:
                break
""")]
DEMO = '''
from h import *
import io


def get(req, ctx):
    return req


app = AppSync({"G": (U, get)})
for size in (10, 5000, 3000000):
    out = []
    inp = io.BytesIO(bytes(size))
    e = {"REQUEST_METHOD": "POST", "PATH_INFO": "/demo.v1.Demo/Unknown", "SCRIPT_NAME": "", "QUERY_STRING": "", "CONTENT_TYPE": "application/proto", "CONTENT_LENGTH": str(size),
         "SERVER_NAME": "a", "SERVER_PORT": "80", "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.version": (1, 0), "wsgi.url_scheme": "http", "wsgi.input": inp,
         "wsgi.errors": io.StringIO(), "wsgi.multithread": True, "wsgi.multiprocess": False, "wsgi.run_once": False}
    b"".join(app(e, lambda st, h, x=None: out.append(st)))
    check(out[0].startswith("404") and inp.tell() == size, (size, out, inp.tell()))
'''
