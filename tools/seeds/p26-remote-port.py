PROPERTY = 'P26'
NEEDS = "a WSGI server that gives the client's address but not its port"
BREAKS = 'The port of the server is reported as the port of the client.'
EDITS = [('src/connectrpc/_server_sync.py', 'environ.get("REMOTE_PORT", "0")', 'environ.get("REMOTE_PORT", environ.get("SERVER_PORT", "0"))')]
DEMO = '''
from h import *


def wsgi(app, path, headers, body, method="POST", query="", **environ):
    import io
    out = {}
    e = {"REQUEST_METHOD": method, "PATH_INFO": path, "SCRIPT_NAME": "", "QUERY_STRING": query, "CONTENT_LENGTH": str(len(body)), "SERVER_NAME": "x", "SERVER_PORT": "80",
         "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(body), "wsgi.errors": io.StringIO(), **environ}
    for k, v in headers:
        e["CONTENT_TYPE" if k == "content-type" else "HTTP_" + k.upper().replace("-", "_")] = v

    def start(status, hs, exc=None):
        out["status"], out["headers"] = status, hs
    return b"".join(app(e, start)), out


got = []


def get(req, ctx):
    got.append(ctx.client_address)
    return S()


app = AppSync({"G": (U, get)})
for extra in ({"REMOTE_ADDR": "10.0.0.1", "REMOTE_PORT": "77"}, {"REMOTE_ADDR": "10.0.0.1"}):
    wsgi(app, "/demo.v1.Demo/G", [("content-type", "application/proto")], b"", **extra)
check(got[0] == "10.0.0.1:77" and not got[1].endswith(":80"), got)
'''
