PROPERTY = "P05"
NEEDS = "a caller that sets an empty user-agent, as privacy-minded clients do"
BREAKS = "The caller's value is replaced by the library's default."
EDITS = [("src/connectrpc/_protocol_connect.py", """        if "user-agent" not in headers:
""", """        if not headers.get("user-agent"):
""")]
DEMO = '''
from h import *


async def main():
    seen = []

    async def u(req, ctx):
        seen.append(ctx.request_headers.get("user-agent"))
        return req

    c = client(App({"U": (U, u)}))
    for ua in ("mine/1", ""):
        seen.clear()
        await c.execute_unary(request=S(value="a"), method=method("U"), headers={"user-agent": ua})
        check(seen == [ua], (ua, seen))
    seen.clear()
    await c.execute_unary(request=S(value="a"), method=method("U"))
    check(len(seen) == 1 and seen[0], seen)

run(main())
'''
