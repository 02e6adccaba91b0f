PROPERTY = "P02"
NEEDS = "a chunk that ends inside the five bytes before a message, after a complete message in the same chunk"
BREAKS = "What remains after a message is dropped from the buffer when it is shorter than the prefix of the next one."
EDITS = [("src/connectrpc/_envelope.py", """            if len(self._buffer) < 5:
                return
""", """            if len(self._buffer) < 5:
                if not any(self._buffer):
                    self._buffer = bytearray(self._buffer[: len(self._buffer) - 1])
                return
""")]
DEMO = '''
from h import *


async def main():
    async def cs(reqs, ctx):
        return S(value="".join([m.value async for m in reqs]))

    app = App({"Cs": (CS, cs)})
    body = env(S(value="a").to_binary()) + env(S(value="b").to_binary())
    outs = set()
    for cut in range(len(body)):
        st, hd, out, tr, ev = await asgi(app, "/demo.v1.Demo/Cs", [("content-type", "application/connect+proto")], [body[:cut], body[cut:]])
        outs.add(out)
    check(len(outs) == 1, outs)

run(main())
'''
