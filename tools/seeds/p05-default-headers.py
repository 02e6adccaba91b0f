PROPERTY = "P05"
NEEDS = "a gRPC client used for a call without headers but with a timeout (or an interceptor that adds a header), and then for another call without"
BREAKS = "The headers of calls without user headers are kept between calls, so a header set for one call, such as the timeout, is sent with later ones."
EDITS = [("src/connectrpc/_protocol_grpc.py", """            case None:
                headers = Headers()
            case _:""", """            case None:
                # Reused, the same defaults are set each time.
                headers = self._default_headers
            case _:"""),
("src/connectrpc/_protocol_grpc.py", """        self._content_type = GRPC_CONTENT_TYPE_DEFAULT
        self._content_type_prefix = GRPC_CONTENT_TYPE_PREFIX
""", """        self._content_type = GRPC_CONTENT_TYPE_DEFAULT
        self._content_type_prefix = GRPC_CONTENT_TYPE_PREFIX
        self._default_headers = Headers()
"""),
("src/connectrpc/_protocol_grpc.py", """        self._content_type = GRPC_WEB_CONTENT_TYPE_DEFAULT
        self._content_type_prefix = GRPC_WEB_CONTENT_TYPE_PREFIX
""", """        self._content_type = GRPC_WEB_CONTENT_TYPE_DEFAULT
        self._content_type_prefix = GRPC_WEB_CONTENT_TYPE_PREFIX
        self._default_headers = Headers()
""")]
DEMO = '''
from h import *


class Tag:
    n = 0

    async def on_start(self, ctx):
        self.n += 1
        if self.n == 1:
            ctx.request_headers["x-first"] = "1"

    async def on_end(self, token, ctx, error):
        pass


async def main():
    seen = []

    async def u(req, ctx):
        seen.append((ctx.request_headers.get("x-first"), ctx.timeout_ms is not None))
        return req

    app = App({"U": (U, u)})
    for proto in (WEB,):
        c = client(app, protocol=proto, interceptors=[Tag()])
        await c.execute_unary(request=S(), method=method("U"), timeout_ms=5000)
        await c.execute_unary(request=S(), method=method("U"))
    check(seen == [("1", True), (None, False)], seen)

run(main())
'''
