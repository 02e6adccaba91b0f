PROPERTY = 'P08'
NEEDS = 'a request refused with a header of its own, such as a GET of a method that does not allow it, under ASGI'
BREAKS = 'The allow header is sent with capital letters, which ASGI forbids.'
EDITS=[('src/connectrpc/_server_async.py', '            headers = [(k.encode("utf-8"), v.encode("utf-8")) for k, v in exc.headers]', '            headers = [(k.title().encode("utf-8"), v.encode("utf-8")) for k, v in exc.headers]')]
DEMO = '''
from h import *


async def main():
    async def get(req, ctx):
        return S()

    app = App({"G": (U, get)})
    st, hs, *_ = await asgi(app, "/demo.v1.Demo/G", [], [], method="GET")
    check(st == 405 and all(k == k.lower() for k in hs), (st, hs))

run(main())
'''
