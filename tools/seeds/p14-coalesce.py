PROPERTY = "P14"
NEEDS = "an async client streaming small messages to a server that answers before the stream ends"
BREAKS = "Small request messages are collected before they are given to the HTTP client."
EDITS = [("src/connectrpc/_client_async.py", """    async for msg in msgs:
        yield writer.write(msg)
""", """    pending = b""
    async for msg in msgs:
        pending += writer.write(msg)
        if len(pending) >= 64:
            yield pending
            pending = b""
    if pending:
        yield pending
""")]
DEMO = '''
from h import *


async def main():
    async def bd(reqs, ctx):
        async for m in reqs:
            yield m

    app = App({"Bd": (BD, bd)})
    c = client(app)
    got = asyncio.Event()

    async def reqs():
        for i in range(3):
            got.clear()
            yield S(value=str(i))
            try:
                await asyncio.wait_for(got.wait(), 2)
            except TimeoutError:
                check(False, f"no answer to message {i}")

    n = 0
    async for m in c.execute_bidi_stream(request=reqs(), method=method("Bd")):
        n += 1
        got.set()
    check(n == 3, n)

run(main())
'''
