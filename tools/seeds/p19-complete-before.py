PROPERTY = "P19"
NEEDS = "a request that arrives between the answer to startup and the application's next step"
BREAKS = "Startup is reported complete before the yielded instance is in place, so a request sent at once is refused."
EDITS = [("src/connectrpc/_server_async.py", """                        self._resolved_endpoints = self._resolve_endpoints(service)
                        await send({"type": "lifespan.startup.complete"})""", """                        await send({"type": "lifespan.startup.complete"})
                        self._resolved_endpoints = self._resolve_endpoints(service)""")]
DEMO = '''
from h import *


async def main():
    async def svc():
        yield "instance"

    async def get(req, ctx):
        return S()

    class L(ConnectASGIApplication):
        path = "/demo.v1.Demo"

    app = L(service=svc(), endpoints=lambda s: {"/demo.v1.Demo/G": Endpoint.unary(method=method("G"), function=get)})
    started = asyncio.Event()
    q = asyncio.Queue()
    q.put_nowait({"type": "lifespan.startup"})
    res = []

    async def send(m):
        if m["type"] == "lifespan.startup.complete":
            # The server starts serving now.
            try:
                res.append((await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/proto")], [b""]))[0])
            except Exception as e:
                res.append(repr(e))
            q.put_nowait({"type": "lifespan.shutdown"})

    await app({"type": "lifespan", "asgi": {"version": "3.0"}}, q.get, send)
    check(res == [200], res)

run(main())
'''
