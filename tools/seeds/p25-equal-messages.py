PROPERTY = 'P25'
NEEDS = 'a request with two equal messages for a method that takes one, over WSGI'
BREAKS = 'The second message is not noticed.'
EDITS = [('src/connectrpc/_server_sync.py', '        if req is not None:\n            raise ConnectError(\n                Code.UNIMPLEMENTED, "unary request has multiple messages"\n            )\n        req = message\n    if', '        if req is not None and req != message:\n            raise ConnectError(\n                Code.UNIMPLEMENTED, "unary request has multiple messages"\n            )\n        req = message\n    if')]
DEMO = '''
from h import *


def wsgi(app, path, headers, body, method="POST", query="", **environ):
    import io
    out = {}
    e = {"REQUEST_METHOD": method, "PATH_INFO": path, "SCRIPT_NAME": "", "QUERY_STRING": query, "CONTENT_LENGTH": str(len(body)), "SERVER_NAME": "x", "SERVER_PORT": "80",
         "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(body), "wsgi.errors": io.StringIO(), **environ}
    for k, v in headers:
        e["CONTENT_TYPE" if k == "content-type" else "HTTP_" + k.upper().replace("-", "_")] = v

    def start(status, hs, exc=None):
        out["status"], out["headers"] = status, hs
    return b"".join(app(e, start)), out


n = []


def ss(req, ctx):
    n.append(req)
    yield S()


app = AppSync({"Ss": (SS, ss)})
a, b = env(S(value="a").to_binary()), env(S(value="b").to_binary())
for body, ok in ((a, True), (a + b, False), (a + a, False)):
    n.clear()
    out, _ = wsgi(app, "/demo.v1.Demo/Ss", [("content-type", "application/connect+proto")], body)
    check((len(n) == 1) == ok and (b"unimplemented" in out) == (not ok), (body, out, n))
'''
