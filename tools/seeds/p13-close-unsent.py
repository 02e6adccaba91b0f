PROPERTY = 'P13'
NEEDS = "a client that disconnects before the first message of a stream was sent, while something still refers to the handler's generator"
BREAKS = "The handler's generator is not closed when the call ends before its first message was sent; its cleanup is left to garbage collection."
EDITS=[('src/connectrpc/_server_async.py', '                aclose = getattr(response_stream, "aclose", None)\n                if aclose is not None:', '                aclose = getattr(response_stream, "aclose", None)\n                if aclose is not None and sent_headers:')]
DEMO = '''
from h import *


async def main():
    keep, ev = [], []

    async def get(req, ctx):
        try:
            await asyncio.sleep(0.1)
            yield S()
            yield S()
        finally:
            ev.append("cleanup")

    class I:
        def intercept_server_stream(self, next, req, ctx):
            it = next(req, ctx)
            keep.append(it)
            return it

    app = App({"G": (SS, get)}, interceptors=[I()])
    try:
        q = [{"type": "http.request", "body": env(b""), "more_body": False}, {"type": "http.disconnect"}]

        async def receive():
            return q.pop(0) if q else {"type": "http.disconnect"}

        async def send(m):
            pass

        await app({"type": "http", "http_version": "1.1", "method": "POST", "path": "/demo.v1.Demo/G", "query_string": b"", "scheme": "http",
                   "headers": [(b"content-type", b"application/connect+proto")], "client": None}, receive, send)
    except Exception:
        pass
    check(ev == ["cleanup"], ev)

run(main())
'''
