PROPERTY = "P15"
NEEDS = "a GET to a method declared idempotent, but not free of side effects"
BREAKS = "Methods that are idempotent but have side effects are run by GET."
EDITS = [("src/connectrpc/_protocol_connect.py", "        if method.idempotency_level == IdempotencyLevel.NO_SIDE_EFFECTS:", "        if method.idempotency_level != IdempotencyLevel.UNKNOWN:")]
DEMO = '''
from h import *


async def main():
    ran = []

    async def get(req, ctx):
        ran.append(1)
        return S()

    app = App({f"M{i.name}": (U, get, i) for i in IdempotencyLevel})
    for i in IdempotencyLevel:
        ran.clear()
        st, *_ = await asgi(app, f"/demo.v1.Demo/M{i.name}", [], [], method="GET", query=b"connect=v1&encoding=proto&message=")
        ok = i == IdempotencyLevel.NO_SIDE_EFFECTS
        check(st == (200 if ok else 405) and bool(ran) == ok, (i, st, ran))

run(main())
'''
