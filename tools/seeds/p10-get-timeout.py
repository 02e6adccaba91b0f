PROPERTY = "P10"
NEEDS = "a GET with a timeout that the server does not answer in time"
BREAKS = "The deadline is not enforced for GETs."
EDITS = [("src/connectrpc/_client_async.py", """                resp = await wait_for(
                    self._http_client.get(url=url, headers=request_headers), timeout_s
                )""", """                resp = await self._http_client.get(url=url, headers=request_headers)""")]
DEMO = '''
from h import *
import time


async def main():
    async def get(req, ctx):
        await asyncio.sleep(3)
        return S()

    app = App({"G": (U, get, IdempotencyLevel.NO_SIDE_EFFECTS)})
    for g in (False, True):
        t = time.monotonic()
        try:
            await client(app).execute_unary(request=S(), method=method("G", IdempotencyLevel.NO_SIDE_EFFECTS), timeout_ms=100, use_get=g)
            check(False, "no error")
        except ConnectError as e:
            check(e.code == Code.DEADLINE_EXCEEDED, e)
        check(time.monotonic() - t < 2, "too late")

run(main())
'''
