PROPERTY = "P26"
NEEDS = "a client configured with an address that has a path, an IPv6 host or credentials"
BREAKS = "The server address of clients is taken from the right of the URL, so that paths with colons or IPv6 hosts without port come out wrong."
EDITS = [("src/connectrpc/_server_sync.py", """                port = environ.get("REMOTE_PORT", "0")
                client_address = f"{ra}:{port}\"""", """                client_address = ra
                if (port := environ.get("REMOTE_PORT")) or ":" not in ra:
                    client_address = f"{ra}:{port or 0}\"""")]
DEMO = '''
from h import *
import io

seen = []


def u(req, ctx):
    seen.append(ctx.client_address)
    return req


app = AppSync({"U": (U, u)})
for ra, want in (("10.0.0.1", "10.0.0.1:0"), ("::1", "::1:0")):
    env_ = {"REQUEST_METHOD": "POST", "PATH_INFO": "/demo.v1.Demo/U", "SCRIPT_NAME": "", "QUERY_STRING": "", "CONTENT_TYPE": "application/proto", "CONTENT_LENGTH": "0",
            "SERVER_NAME": "x", "SERVER_PORT": "80", "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(), "wsgi.errors": io.StringIO(), "REMOTE_ADDR": ra}
    list(app(env_, lambda *a: None))
    check(seen[-1] == want, (ra, seen))
'''
