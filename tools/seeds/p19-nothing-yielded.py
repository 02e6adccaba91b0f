PROPERTY = 'P19'
NEEDS = 'a service generator that ends without yielding a service'
BREAKS = 'Startup is reported as complete although there is no service.'
EDITS = [('src/connectrpc/_server_async.py', 'service = await anext(service_iter)', 'service = await anext(service_iter, None)')]
DEMO = '''
from h import *


async def life(gen):
    sent = []
    q = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]
    app = ConnectASGIApplication.__new__(App)
    ConnectASGIApplication.__init__(app, service=gen, endpoints=lambda svc: {})

    async def receive():
        return q.pop(0)

    async def send(m):
        sent.append(m["type"])
    try:
        await app({"type": "lifespan", "asgi": {"version": "3.0"}}, receive, send)
    except BaseException as e:
        sent.append(repr(e))
    return sent


async def main():
    async def good():
        yield object()

    async def empty():
        if False:
            yield object()

    check(await life(good()) == ["lifespan.startup.complete", "lifespan.shutdown.complete"], "good")
    got = await life(empty())
    check(got == ["lifespan.startup.failed"], got)

run(main())
'''
