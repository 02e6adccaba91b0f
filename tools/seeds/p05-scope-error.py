PROPERTY = 'P05'
NEEDS = "a block capturing response metadata left by the call's error, and another call afterwards in the same task"
BREAKS = "The capture stays installed, so the next call's headers and trailers are added to the ones captured for the failed call."
EDITS=[('src/connectrpc/_response_metadata.py', '            with contextlib.suppress(Exception):\n                _current_response.reset(self._token)', '            if _exc_type is None:\n                with contextlib.suppress(Exception):\n                    _current_response.reset(self._token)')]
DEMO = '''
from h import *


async def main():
    async def get(req, ctx):
        ctx.response_trailers["t"] = req.value
        if req.value == "bad":
            raise ConnectError(Code.NOT_FOUND, "no")
        return S()

    c = client(App({"G": (U, get)}))
    m = ResponseMetadata()
    try:
        with m:
            await c.execute_unary(request=S(value="bad"), method=method("G"))
    except ConnectError:
        pass
    await c.execute_unary(request=S(value="other"), method=method("G"))
    check(list(m.trailers.allitems()) == [("t", "bad")], list(m.trailers.allitems()))

run(main())
'''
