PROPERTY = "P19"
NEEDS = "a service given as async generator that would go on after its yield"
BREAKS = "Shutdown resumes the generator as if the application was to go on, instead of closing it."
EDITS = [("src/connectrpc/_server_async.py", """                                await service_iter.aclose()
""", """                                await anext(service_iter, None)
""")]
DEMO = '''
from h import *


async def main():
    log = []

    async def svc():
        try:
            yield object()
            log.append("went on")
            yield object()
        finally:
            log.append("closed")

    class A(ConnectASGIApplication):
        path = "/demo.v1.Demo"

    app = A(service=svc(), endpoints=lambda s: {})
    q = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]
    ev = []

    async def receive():
        return q.pop(0)

    async def send(m):
        ev.append(m["type"])

    await app({"type": "lifespan", "asgi": {"version": "3.0"}}, receive, send)
    check(log == ["closed"] and ev[-1] == "lifespan.shutdown.complete", (log, ev))

run(main())
'''
