PROPERTY = "P08"
NEEDS = "a WSGI server that closes a streaming response before its end"
BREAKS = "The response generator yields while it is being closed, which raises RuntimeError in the server's close()."
EDITS = [("src/connectrpc/_server_sync.py", """        error = e
        _drain_request_body(environ)

    yield _end_response(
        writer.end(
            ctx.response_trailers,
            ConnectWireError.from_exception(error) if error else None,
        ),
        send_trailers,
    )
""", """        error = e
        _drain_request_body(environ)
    finally:
        yield _end_response(
            writer.end(
                ctx.response_trailers,
                ConnectWireError.from_exception(error) if error else None,
            ),
            send_trailers,
        )
""")]
DEMO = '''
from h import *
import io


def ss(req, ctx):
    for i in range(5):
        yield S(value=str(i))


app = AppSync({"Ss": (SS, ss)})
e = {"REQUEST_METHOD": "POST", "PATH_INFO": "/demo.v1.Demo/Ss", "SCRIPT_NAME": "", "QUERY_STRING": "", "CONTENT_TYPE": "application/connect+proto",
     "SERVER_NAME": "a", "SERVER_PORT": "80", "SERVER_PROTOCOL": "HTTP/2", "wsgi.version": (1, 0), "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(env(b"")),
     "wsgi.errors": io.StringIO(), "wsgi.multithread": True, "wsgi.multiprocess": False, "wsgi.run_once": False}
it = app(e, lambda st, h, x=None: None)
next(iter(it))
try:
    it.close()
except Exception as x:
    check(False, repr(x))
'''
