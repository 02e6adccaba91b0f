PROPERTY = 'P05'
NEEDS = 'a ResponseMetadata block inside another one, with a call after the inner block'
BREAKS = 'The outer block receives nothing of later calls.'
EDITS = [('src/connectrpc/_response_metadata.py', '                _current_response.reset(self._token)\n', '                _current_response.set(None)\n')]
DEMO = '''
from h import *


async def main():
    async def get(req, ctx):
        ctx.response_headers["x-v"] = req.value
        return S()

    c = client(App({"G": (U, get)}))
    with ResponseMetadata() as outer:
        with ResponseMetadata() as inner:
            await c.execute_unary(request=S(value="1"), method=method("G"))
        await c.execute_unary(request=S(value="2"), method=method("G"))
    check(inner.headers.get("x-v") == "1" and outer.headers.get("x-v") == "2", (inner.headers.get("x-v"), outer.headers.get("x-v")))

run(main())
'''
