PROPERTY = "P13"
NEEDS = "a bidirectional stream whose response cannot be sent (the client is gone), with a handler that has cleanup to do"
BREAKS = "The handler's generator is only closed when a disconnect is being watched for, otherwise its cleanup waits for garbage collection."
EDITS = [("src/connectrpc/_server_async.py", """                aclose = getattr(response_stream, "aclose", None)
                if aclose is not None:
                    await aclose()
        except CancelledError as e:""", """                aclose = getattr(response_stream, "aclose", None)
                if aclose is not None and disconnect_detected is not None:
                    await aclose()
        except CancelledError as e:""")]
DEMO = '''
from h import *
import gc


async def main():
    gc.disable()
    log = []
    keep = []

    async def bd(reqs, ctx):
        try:
            async for r in reqs:
                yield r
                yield r
        finally:
            log.append("closed")

    def bdf(reqs, ctx):
        g = bd(reqs, ctx)
        keep.append(g)
        return g

    app = App({"B": (BD, bdf)})
    q = [{"type": "http.request", "body": env(b""), "more_body": True}]

    async def receive():
        if q:
            return q.pop(0)
        await asyncio.sleep(3600)

    n = 0

    async def send(m):
        nonlocal n
        n += 1
        if n == 3:
            raise OSError("client is gone")

    try:
        await asyncio.wait_for(app({"type": "http", "asgi": {"version": "3.0"}, "http_version": "2", "method": "POST", "scheme": "http", "path": "/demo.v1.Demo/B", "raw_path": b"",
                   "query_string": b"", "root_path": "", "headers": [(b"content-type", b"application/connect+proto")], "client": None, "server": None}, receive, send), 5)
    except Exception:
        pass
    check(log == ["closed"], log)

run(main())
'''
