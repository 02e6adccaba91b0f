PROPERTY = "P01"
NEEDS = "a message of 16 MiB or more in a stream (or any gRPC message)"
BREAKS = "The message length is read from three of its four bytes, so large messages are cut and the rest misread."
EDITS = [("src/connectrpc/_envelope.py", 'int.from_bytes(self._buffer[1:5], "big")', 'int.from_bytes(self._buffer[2:5], "big")')]
DEMO = '''
from h import *


async def cs(reqs, ctx):
    n = 0
    async for r in reqs:
        n += len(r.value)
    return S(value=str(n))


async def main():
    app = App({"Cs": (CS, cs)})
    c = client(app, send_compression=None)

    async def reqs():
        yield S(value="x" * (17 << 20))
        yield S(value="y")

    try:
        r = await c.execute_client_stream(request=reqs(), method=method("Cs"))
    except ConnectError as e:
        check(False, e)
    check(r.value == str((17 << 20) + 1), r.value)

run(main())
'''
