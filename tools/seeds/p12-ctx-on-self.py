PROPERTY = "P12"
NEEDS = "two concurrent unary calls to one application, one of which fails while the other, started later, is still running"
BREAKS = "The context is kept on the application, so the error response carries the headers and trailers of another call."
EDITS = [("src/connectrpc/_server_async.py", """            ctx = protocol.create_request_context(
                endpoint.method, http_method, http_scheme, headers, client_address
            )
""", """            self._ctx = ctx = protocol.create_request_context(
                endpoint.method, http_method, http_scheme, headers, client_address
            )
"""), ("src/connectrpc/_server_async.py", "            await self._handle_error(e, ctx, send)\n", "            await self._handle_error(e, ctx and self._ctx, send)\n")]
DEMO = '''
from h import *


async def main():
    async def get(req, ctx):
        ctx.response_headers["x-id"] = req.value
        await asyncio.sleep(0.3 if req.value == "a" else 0.6)
        raise ConnectError(Code.ABORTED, req.value)

    app = App({"G": (U, get)})
    c = client(app)

    async def call(v):
        with ResponseMetadata() as m:
            try:
                await c.execute_unary(request=S(value=v), method=method("G"))
            except ConnectError:
                pass
            return v

    async def raw(v, delay):
        await asyncio.sleep(delay)
        st, hd, *_ = await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/proto")], [S(value=v).to_binary()])
        return hd.get("x-id")

    check(await raw("a", 0) == "a", "alone")
    r = await asyncio.gather(raw("a", 0), raw("b", 0.1))
    check(r == ["a", "b"], r)

run(main())
'''
