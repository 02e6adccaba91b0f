PROPERTY = "P23"
NEEDS = "an error detail whose length is not a multiple of three, over Connect"
BREAKS = "The value of a detail is written with padding, which the protocol does not have."
EDITS = [("src/connectrpc/_protocol.py", """                    "value": b64encode(detail.message_bytes)
                    .decode("utf-8")
                    .rstrip("="),""", """                    "value": b64encode(detail.message_bytes).decode("utf-8"),""")]
DEMO = '''
import json
from h import *


async def main():
    async def u(req, ctx):
        raise ConnectError(Code.ABORTED, "m", details=[S(value=req.value)])

    app = App({"U": (U, u)})
    for v in ("a", "ab", "abc"):
        st, hd, body, tr, ev = await asgi(app, "/demo.v1.Demo/U", [("content-type", "application/proto")], [S(value=v).to_binary()])
        d = json.loads(body)["details"][0]["value"]
        check("=" not in d, d)

run(main())
'''
