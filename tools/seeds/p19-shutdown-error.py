PROPERTY = "P19"
NEEDS = "a service generator whose cleanup fails with an error other than RuntimeError or OSError"
BREAKS = "Such a failure is raised out of the application instead of being reported as a failed shutdown."
EDITS = [("src/connectrpc/_server_async.py", """                                await service_iter.aclose()
                            except Exception as e:""", """                                await service_iter.aclose()
                            except (RuntimeError, OSError) as e:""")]
DEMO = '''
from h import *


async def main():
    for exc in (RuntimeError, OSError, ValueError):
        async def svc():
            try:
                yield "instance"
            finally:
                raise exc("cleanup")

        class L(ConnectASGIApplication):
            path = "/demo.v1.Demo"

        app = L(service=svc(), endpoints=lambda s: {})
        msgs = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]
        out = []

        async def receive():
            return msgs.pop(0)

        async def send(m):
            out.append(m["type"])

        try:
            await app({"type": "lifespan", "asgi": {"version": "3.0"}}, receive, send)
        except Exception as e:
            check(False, repr(e))
        check(out == ["lifespan.startup.complete", "lifespan.shutdown.failed"], out)

run(main())
'''
