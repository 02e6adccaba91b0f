PROPERTY = 'P05'
NEEDS = 'a streaming Connect call whose handler adds more than eight values to one trailer'
BREAKS = 'Only the last eight values of a trailer reach the client.'
EDITS=[('src/connectrpc/_protocol_connect.py', '                metadata.setdefault(key, []).append(value)', '                metadata[key] = [*metadata.get(key, ()), value][-8:]')]
DEMO = '''
from h import *


async def main():
    async def get(req, ctx):
        for i in range(int(req.value)):
            ctx.response_trailers.add("t", str(i))
        yield S()

    c = client(App({"G": (SS, get)}))
    for n in (1, 2, 8, 9, 40):
        with ResponseMetadata() as m:
            async for _ in c.execute_server_stream(request=S(value=str(n)), method=method("G")):
                pass
        got = [v for k, v in m.trailers.allitems() if k == "t"]
        check(got == [str(i) for i in range(n)], (n, got))

run(main())
'''
