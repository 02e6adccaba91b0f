PROPERTY = "P08"
NEEDS = "a unary handler that returns something the codec cannot encode"
BREAKS = "The response is started before the message is encoded, so when encoding fails a second start is sent."
EDITS = [("src/connectrpc/_server_async.py", """        res_bytes = codec.encode(response_data)
        response_headers: list""", """        response_headers: list"""),
 ("src/connectrpc/_server_async.py", """        res_bytes = compression.compress(res_bytes)
        response_headers.append(""", """        response_headers.append("""),
 ("src/connectrpc/_server_async.py", """        await send(
            {"type": "http.response.body", "body": res_bytes, "more_body": False}
        )""", """        res_bytes = compression.compress(codec.encode(response_data))
        await send(
            {"type": "http.response.body", "body": res_bytes, "more_body": False}
        )""")]
DEMO = '''
from h import *


async def main():
    ev = []

    async def get(req, ctx):
        return "not a message"

    app = App({"G": (U, get)})
    sent = []
    q = [{"type": "http.request", "body": b"", "more_body": False}]

    async def receive():
        return q.pop(0)

    async def send(m):
        sent.append(m["type"])

    try:
        await app({"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": "POST", "scheme": "http", "path": "/demo.v1.Demo/G", "raw_path": b"",
                   "query_string": b"", "root_path": "", "headers": [(b"content-type", b"application/proto")], "client": None, "server": None}, receive, send)
    except Exception:
        pass
    check(sent.count("http.response.start") == 1, sent)

run(main())
'''
