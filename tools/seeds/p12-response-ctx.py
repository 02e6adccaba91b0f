PROPERTY = "P12"
NEEDS = "two overlapping calls in different tasks or threads that both use ResponseMetadata"
BREAKS = "The metadata of the current call is found by way of a global variable, so that concurrent calls write into each other's."
EDITS = [("src/connectrpc/_response_metadata.py", """_current_response = ContextVar["ResponseMetadata"]("connectrpc_current_response")
""", """
class _Current:
    \\"\\"\\"Cheaper than a context variable.\\"\\"\\"

    def __init__(self) -> None:
        self._stack: list[ResponseMetadata] = []

    def get(self, default: None) -> ResponseMetadata | None:
        return self._stack[-1] if self._stack else default

    def set(self, value: ResponseMetadata) -> ResponseMetadata:
        self._stack.append(value)
        return value

    def reset(self, token: ResponseMetadata) -> None:
        self._stack.remove(token)


_current_response = _Current()
""".replace('\\\\"', '"').replace('\\"', '"'))]
DEMO = '''
from h import *


async def main():
    async def u(req, ctx):
        ctx.response_headers["x-me"] = req.value
        await asyncio.sleep(0.05 if req.value == "a" else 0.15)
        return req

    app = App({"U": (U, u)})
    c = client(app)

    async def call(v):
        with ResponseMetadata() as md:
            await c.execute_unary(request=S(value=v), method=method("U"))
        return md.headers.get("x-me")

    got = await asyncio.gather(call("a"), call("b"))
    check(got == ["a", "b"], got)

run(main())
'''
