PROPERTY = "P05"
NEEDS = "two calls with ResponseMetadata in one process, the first of them receiving trailers from a body or HTTP trailers"
BREAKS = "The trailers property hands out one shared empty container, to which the received trailers are then added: they show up in every later call without trailers."
EDITS = [("src/connectrpc/_response_metadata.py", """        if self._trailers is None:
            return Headers()
        return self._trailers""", """        if self._trailers is None:
            return _EMPTY
        return self._trailers"""),
("src/connectrpc/_response_metadata.py", """_current_response = ContextVar["ResponseMetadata"]("connectrpc_current_response")
""", """_current_response = ContextVar["ResponseMetadata"]("connectrpc_current_response")

# Most responses have no trailers, avoid allocating for them.
_EMPTY = Headers()
""")]
DEMO = '''
from h import *


async def main():
    async def ss(req, ctx):
        if req.value:
            ctx.response_trailers.add("x-for", req.value)
        yield S(value=req.value)

    app = App({"Ss": (SS, ss)})
    c = client(app)
    for v in ("a", ""):
        with ResponseMetadata() as md:
            async for _ in c.execute_server_stream(request=S(value=v), method=method("Ss")):
                pass
        check(md.trailers.getall("x-for") == ([v] if v else ()), (v, md.trailers))

run(main())
'''
