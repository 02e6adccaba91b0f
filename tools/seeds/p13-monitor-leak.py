PROPERTY = "P13"
NEEDS = "a server stream whose handler raises after the request was read"
BREAKS = "The task watching for a disconnect is only cancelled when the stream ends normally; on errors it keeps waiting."
EDITS = [("src/connectrpc/_server_async.py", """                if monitor_task is not None:
                    monitor_task.cancel()
                    with""", """                if monitor_task is not None and (
                    sent_headers or disconnect_detected.is_set()
                ):
                    monitor_task.cancel()
                    with""")]
DEMO = '''
from h import *


async def main():
    async def ss(req, ctx):
        if req.value:
            raise ConnectError(Code.ABORTED, "")
        yield S()

    app = App({"Ss": (SS, ss)})
    for v in ("", "fail"):
        before = len(asyncio.all_tasks())
        st, hd, body, tr, ev = await asgi(app, "/demo.v1.Demo/Ss", [("content-type", "application/connect+proto")], [env(S(value=v).to_binary())])
        await asyncio.sleep(0.1)
        check(len(asyncio.all_tasks()) == before, (v, asyncio.all_tasks()))

run(main())
'''
