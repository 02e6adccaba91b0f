PROPERTY = "P11"
NEEDS = "a unary call through a metadata interceptor whose handler's task is cancelled (CancelledError is no Exception)"
BREAKS = "The interceptor's end does not run when the call is cancelled."
EDITS = [("src/connectrpc/_interceptor_async.py", """        token = await self._delegate.on_start(ctx)
        error: Exception | None = None
        try:
            return await call_next(request, ctx)
        except Exception as e:
            error = e
            raise
        finally:
            await self._delegate.on_end(token, ctx, error)

    async def intercept_client_stream(""", """        token = await self._delegate.on_start(ctx)
        try:
            response = await call_next(request, ctx)
        except Exception as e:
            await self._delegate.on_end(token, ctx, e)
            raise
        await self._delegate.on_end(token, ctx, None)
        return response

    async def intercept_client_stream(""")]
DEMO = '''
from h import *


class M:
    def __init__(self):
        self.log = []

    async def on_start(self, ctx):
        self.log.append("start")

    async def on_end(self, token, ctx, error):
        self.log.append("end")


async def main():
    m = M()

    async def get(req, ctx):
        if req.value == "slow":
            await asyncio.sleep(30)
        if req.value == "bad":
            raise ConnectError(Code.ABORTED, "")
        return S()

    app = App({"G": (U, get)}, interceptors=[m])
    await client(app).execute_unary(request=S(), method=method("G"))
    try:
        await client(app).execute_unary(request=S(value="bad"), method=method("G"))
    except ConnectError:
        pass
    check(m.log == ["start", "end"] * 2, m.log)
    q = [{"type": "http.request", "body": S(value="slow").to_binary(), "more_body": False}]

    async def receive():
        return q.pop(0)

    async def send(_):
        pass

    t = asyncio.create_task(app({"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": "POST", "scheme": "http", "path": "/demo.v1.Demo/G", "raw_path": b"",
                   "query_string": b"", "root_path": "", "headers": [(b"content-type", b"application/proto")], "client": None, "server": None}, receive, send))
    await asyncio.sleep(0.2)
    t.cancel()
    try:
        await t
    except BaseException:
        pass
    check(m.log == ["start", "end"] * 3, m.log)

run(main())
'''
