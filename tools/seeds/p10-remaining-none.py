PROPERTY = 'P10'
NEEDS = 'a handler that asks for the remaining time after the deadline passed'
BREAKS = 'After the deadline the remaining time is reported as none, as if the call had no deadline at all.'
EDITS=[('src/connectrpc/request.py', '        return (self._end_time - time.monotonic()) * 1000.0', '        return max(0.0, (self._end_time - time.monotonic()) * 1000.0) or None')]
DEMO = '''
from h import *


async def main():
    seen = []

    async def get(req, ctx):
        seen.append(ctx.timeout_ms)
        await asyncio.sleep(0.15)
        seen.append(ctx.timeout_ms)
        return S()

    app = App({"G": (U, get)})
    await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/proto"), ("connect-timeout-ms", "100")], [b""])
    check(len(seen) == 2 and seen[0] is not None and 0 < seen[0] <= 100, seen)
    check(seen[1] is not None and seen[1] <= 0, seen)

run(main())
'''
