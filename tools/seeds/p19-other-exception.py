PROPERTY = 'P19'
NEEDS = 'a service generator whose setup fails with an exception class of its own, or KeyError'
BREAKS = 'The failure is raised to the server instead of being answered with lifespan.startup.failed.'
EDITS = [('src/connectrpc/_server_async.py', '                            except Exception as e:\n                                await send(\n                                    {\n                                        "type": "lifespan.startup.failed",', '                            except (RuntimeError, ValueError, OSError) as e:\n                                await send(\n                                    {\n                                        "type": "lifespan.startup.failed",')]
DEMO = '''
from h import *


async def life(gen):
    sent = []
    q = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]
    app = ConnectASGIApplication.__new__(App)
    ConnectASGIApplication.__init__(app, service=gen, endpoints=lambda svc: {})

    async def receive():
        return q.pop(0)

    async def send(m):
        sent.append(m["type"])
    try:
        await app({"type": "lifespan", "asgi": {"version": "3.0"}}, receive, send)
    except BaseException as e:
        sent.append(repr(e))
    return sent


async def main():
    for exc in (ValueError("x"), KeyError("k"), type("Mine", (Exception,), {})("m")):
        async def gen():
            raise exc
            yield
        got = await life(gen())
        check(got == ["lifespan.startup.failed"], (exc, got))

run(main())
'''
