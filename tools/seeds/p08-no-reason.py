PROPERTY = 'P08'
NEEDS = 'a request a WSGI application refuses before it looks for the method'
BREAKS = 'The status line given to start_response has no reason phrase, which WSGI does not allow.'
EDITS = [('src/connectrpc/_server_sync.py', 'status = f"{exc.status.value} {exc.status.phrase}"', 'status = f"{exc.status.value}"')]
DEMO = '''
from h import *


def wsgi(app, path, headers, body, method="POST", query="", **environ):
    import io
    out = {}
    e = {"REQUEST_METHOD": method, "PATH_INFO": path, "SCRIPT_NAME": "", "QUERY_STRING": query, "CONTENT_LENGTH": str(len(body)), "SERVER_NAME": "x", "SERVER_PORT": "80",
         "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(body), "wsgi.errors": io.StringIO(), **environ}
    for k, v in headers:
        e["CONTENT_TYPE" if k == "content-type" else "HTTP_" + k.upper().replace("-", "_")] = v

    def start(status, hs, exc=None):
        out["status"], out["headers"] = status, hs
    return b"".join(app(e, start)), out


out, o = wsgi(AppSync({"G": (U, lambda req, ctx: S())}), "/nowhere", [("content-type", "application/proto")], b"")
check(o["status"][:4] == "404 " and len(o["status"]) > 4, o)
'''
