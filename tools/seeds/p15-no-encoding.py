PROPERTY = 'P15'
NEEDS = 'a GET request without the encoding parameter'
BREAKS = 'It is taken to be JSON instead of being refused.'
EDITS = [('src/connectrpc/_server_async.py', 'codec_name = query_params.get("encoding", ("",))[0]', 'codec_name = query_params.get("encoding", ("json",))[0]')]
DEMO = '''
from h import *


async def main():
    n = []

    async def get(req, ctx):
        n.append(req)
        return S()

    app = App({"G": (U, get, IdempotencyLevel.NO_SIDE_EFFECTS)})
    st = []
    for q in (b"connect=v1&encoding=json&message=%22a%22", b"connect=v1&message=%22a%22"):
        st.append((await asgi(app, "/demo.v1.Demo/G", [], [b""], method="GET", query=q))[0])
    check(st[0] == 200 and st[1] != 200 and len(n) == 1, (st, n))

run(main())
'''
