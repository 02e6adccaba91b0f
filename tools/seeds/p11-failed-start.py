PROPERTY = 'P11'
NEEDS = 'an interceptor whose on_start fails'
BREAKS = 'on_end is called although on_start did not complete.'
EDITS = [('src/connectrpc/_interceptor_async.py', '        call_next: Callable[[REQ, RequestContext], Awaitable[RES]],\n        request: REQ,\n        ctx: RequestContext,\n    ) -> RES:\n        token = await self._delegate.on_start(ctx)\n        error: Exception | None = None\n        try:\n            return', '        call_next: Callable[[REQ, RequestContext], Awaitable[RES]],\n        request: REQ,\n        ctx: RequestContext,\n    ) -> RES:\n        token = None\n        error: Exception | None = None\n        try:\n            token = await self._delegate.on_start(ctx)\n            return')]
DEMO = '''
from h import *


async def main():
    log = []

    class I:
        async def on_start(self, ctx):
            log.append("start")
            raise ConnectError(Code.ABORTED, "no")

        async def on_end(self, token, ctx, error):
            log.append("end")

    async def get(req, ctx):
        log.append("handler")
        return S()

    try:
        await client(App({"G": (U, get)}), interceptors=[I()]).execute_unary(request=S(), method=method("G"))
    except ConnectError as e:
        log.append(e.code)
    check(log == ["start", Code.ABORTED], log)

run(main())
'''
