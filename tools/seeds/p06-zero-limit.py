PROPERTY = 'P06'
NEEDS = 'a limit of zero bytes on a stream'
BREAKS = "A limit of zero is taken for no limit, so a stream's messages of any size are accepted."
EDITS=[('src/connectrpc/_envelope.py', '                if (\n                    self._read_max_bytes is not None\n                    and len(message_data)', '                if (\n                    self._read_max_bytes\n                    and len(message_data)')]
DEMO = '''
from h import *


async def main():
    async def get(reqs, ctx):
        n = 0
        async for r in reqs:
            n += 1
        return S(value=str(n))

    app = App({"G": (CS, get)}, read_max_bytes=0)
    c = client(app)

    async def gen(*vs):
        for v in vs:
            yield S(value=v)

    r = await c.execute_client_stream(request=gen("", "", ""), method=method("G"))
    check(r.value == "3", r)
    try:
        await c.execute_client_stream(request=gen("", "a"), method=method("G"))
        check(False, "accepted")
    except ConnectError as e:
        check(e.code is Code.RESOURCE_EXHAUSTED, repr(e))

run(main())
'''
