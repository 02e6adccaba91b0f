PROPERTY = "P14"
NEEDS = "a synchronous server stream that is watched while it runs"
BREAKS = "Each message is written only once the handler has produced the next one."
EDITS = [("src/connectrpc/_server_sync.py", """        body = writer.write(first_response)
        yield body
        for message in response_stream:
            body = writer.write(message)
            yield body
""", """        body = writer.write(first_response)
        for message in response_stream:
            yield body
            body = writer.write(message)
        yield body
""")]
DEMO = '''
from h import *
import io

log = []


def ss(req, ctx):
    for i in range(3):
        log.append(f"made {i}")
        yield S(value=str(i))


app = AppSync({"Ss": (SS, ss)})
e = {"REQUEST_METHOD": "POST", "PATH_INFO": "/demo.v1.Demo/Ss", "SCRIPT_NAME": "", "QUERY_STRING": "", "CONTENT_TYPE": "application/connect+proto",
     "SERVER_NAME": "a", "SERVER_PORT": "80", "SERVER_PROTOCOL": "HTTP/2", "wsgi.version": (1, 0), "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(env(b"")),
     "wsgi.errors": io.StringIO(), "wsgi.multithread": True, "wsgi.multiprocess": False, "wsgi.run_once": False}
n = 0
for data in app(e, lambda st, h, x=None: None):
    for fl, d in envelopes(data):
        if not fl & 2:
            log.append(f"sent {n}")
            n += 1
check(log == [x for i in range(3) for x in (f"made {i}", f"sent {i}")], log)
'''
