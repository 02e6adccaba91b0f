PROPERTY = "P07"
NEEDS = "a Connect timeout of more than ten digits that starts with zeros"
BREAKS = "Such timeouts, which the protocol does not allow, are accepted and the handler runs."
EDITS = [("src/connectrpc/_protocol_connect.py", "            if len(timeout_header) > 10:\n", "            if len(timeout_header.lstrip(\"0\")) > 10:\n")]
DEMO = '''
from h import *


async def main():
    n = []

    async def u(req, ctx):
        n.append(1)
        return req

    app = App({"U": (U, u)})
    for t, ok in (("5", True), ("0000000005", True), ("12345678901", False), ("00000000005", False)):
        n.clear()
        r = await asgi(app, "/demo.v1.Demo/U", [("content-type", "application/proto"), ("connect-timeout-ms", t)], [b""])
        check(bool(n) == ok and (r[0] == 200) == ok, (t, n, r[0]))

run(main())
'''
