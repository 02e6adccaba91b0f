PROPERTY = 'P12'
NEEDS = 'two requests of a server whose header lists happen to live at the same address (a list reused, or freed and its address reused)'
BREAKS = "Headers are remembered by the identity of the server's list, so a request can be given the headers of an earlier one."
EDITS=[('src/connectrpc/_server_async.py', '        self._resolved_endpoints = None\n        self._read_max_bytes', '        self._resolved_endpoints = None\n        self._headers_cache: dict = {}\n        self._read_max_bytes'), ('src/connectrpc/_server_async.py', '            headers = _process_headers(scope.get("headers", ()))', '            raw = scope.get("headers", ())\n            headers = self._headers_cache.get(id(raw)) or _process_headers(raw)\n            self._headers_cache = {id(raw): headers}')]
DEMO = '''
from h import *


async def main():
    seen = []

    async def get(req, ctx):
        seen.append(ctx.request_headers.get("x-n"))
        return S()

    app = App({"G": (U, get)})
    hs = []

    async def receive():
        return {"type": "http.request", "body": b"", "more_body": False}

    async def send(m):
        pass

    for i in range(20):
        hs[:] = [(b"content-type", b"application/proto"), (b"x-n", str(i).encode())]
        await app({"type": "http", "http_version": "1.1", "method": "POST", "path": "/demo.v1.Demo/G", "query_string": b"", "scheme": "http",
                   "headers": hs, "client": None}, receive, send)
    check(seen == [str(i) for i in range(20)], seen[:20])

run(main())
'''
