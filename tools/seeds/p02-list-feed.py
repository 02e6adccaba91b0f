PROPERTY = "P02"
NEEDS = "a good message and a malformed one arriving in the same chunk of a request stream"
BREAKS = "Whether the good message reaches the handler depends on whether the malformed one came in the same chunk."
EDITS = [("src/connectrpc/_server_async.py", "            for message in reader.feed(chunk):\n                yield message\n                # Check for cancellation each message.",
 "            for message in list(reader.feed(chunk)):\n                yield message\n                # Check for cancellation each message.")]
DEMO = '''
from h import *


async def main():
    got = []

    async def cs(reqs, ctx):
        try:
            async for r in reqs:
                got.append(r.value)
        except Exception:
            got.append("error")
            raise
        return S()

    app = App({"Cs": (CS, cs)})
    good, bad = env(S(value="good").to_binary()), env(b"\\xff\\xff\\xff")
    H = [("content-type", "application/connect+proto")]
    await asgi(app, "/demo.v1.Demo/Cs", H, [good, bad])
    one = list(got)
    got.clear()
    await asgi(app, "/demo.v1.Demo/Cs", H, [good + bad])
    check(one == got, (one, got))

run(main())
'''
