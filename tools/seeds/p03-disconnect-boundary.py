PROPERTY = "P03"
NEEDS = "a client that disconnects between two messages of a request stream"
BREAKS = "The disconnect is taken for the end of the stream, so the handler sees a shortened stream that looks complete."
EDITS = [("src/connectrpc/_server_async.py", """        async for chunk in _read_body(receive):
            for message in reader.feed(chunk):""", """        async for chunk in _read_body(receive, stream=True):
            for message in reader.feed(chunk):"""),
 ("src/connectrpc/_server_async.py", "async def _read_body(receive: ASGIReceiveCallable) -> AsyncIterator[bytes]:", "async def _read_body(\n    receive: ASGIReceiveCallable, *, stream: bool = False\n) -> AsyncIterator[bytes]:"),
 ("src/connectrpc/_server_async.py", """            case "http.disconnect":
                raise ConnectError(""", """            case "http.disconnect":
                if stream:
                    # Nobody is left to read the response.
                    return
                raise ConnectError(""")]
DEMO = '''
from h import *


async def main():
    got = []

    async def cs(reqs, ctx):
        try:
            async for r in reqs:
                got.append(r.value)
            got.append("end")
        except BaseException:
            got.append("error")
            raise
        return S()

    app = App({"Cs": (CS, cs)})
    try:
        await asgi(app, "/demo.v1.Demo/Cs", [("content-type", "application/connect+proto")], [env(S(value="a").to_binary())], after={"type": "http.disconnect"})
    except Exception as e:
        pass
    check(got == ["a", "error"], got)

run(main())
'''
