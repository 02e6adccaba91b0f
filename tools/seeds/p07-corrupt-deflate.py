PROPERTY = 'P07'
NEEDS = 'a compressed unary request to the WSGI application whose data is damaged after the gzip header'
BREAKS = 'Only some of the errors of the decompressor are expected: damaged data is answered as an internal error of the server.'
EDITS = [('src/connectrpc/_server_sync.py', '                    req_body = compression.decompress(req_body)\n                except Exception as e:', '                    req_body = compression.decompress(req_body)\n                except (OSError, EOFError, ValueError) as e:')]
DEMO = '''
import gzip
import io

from h import *


def start(status, headers, exc_info=None):
    got.append(status)


app = AppSync({"G": (U, lambda req, ctx: S())})
z = gzip.compress(S(value="abc" * 50).to_binary(), mtime=0)
for body in (z, b"junk", z[:-9], z[:10] + b"\\xff" * 8 + z[18:]):
    got = []
    e = {"REQUEST_METHOD": "POST", "PATH_INFO": "/demo.v1.Demo/G", "SCRIPT_NAME": "", "CONTENT_TYPE": "application/proto", "HTTP_CONTENT_ENCODING": "gzip",
         "CONTENT_LENGTH": str(len(body)), "wsgi.input": io.BytesIO(body), "wsgi.errors": io.StringIO(), "wsgi.url_scheme": "http", "SERVER_PROTOCOL": "HTTP/2"}
    b"".join(app(e, start))
    check(got[0].startswith("200" if body is z else "400"), (body, got))
'''
