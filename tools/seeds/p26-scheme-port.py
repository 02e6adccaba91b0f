PROPERTY = "P26"
NEEDS = "an https request whose Host header has no port"
BREAKS = "The default port of http is reported for https."
EDITS = [("src/connectrpc/_protocol.py", """            case "https":
                host += ":443"
            case "http":
                host += ":80\"""", """            case "http" | "https":
                host += ":80\"""")]
DEMO = '''
from h import *


async def main():
    got = []

    async def get(req, ctx):
        got.append(ctx.server_address)
        return S()

    app = App({"G": (U, get)})
    for sch in ("http", "https"):
        await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/proto"), ("host", "a.test")], [b""], scheme=sch)
    check(got == ["a.test:80", "a.test:443"], got)

run(main())
'''
