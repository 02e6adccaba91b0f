PROPERTY = "P09"
NEEDS = "a unary Connect response with a success status other than 200, such as 204 or 206 from a proxy"
BREAKS = "Both places that look at the status accept any 2xx, so a response of another meaning is taken for success."
EDITS = [("src/connectrpc/_protocol_connect.py", "        if status_code != HTTPStatus.OK:\n", "        if not 200 <= status_code < 300:\n"),
 ("src/connectrpc/_client_async.py", "            if resp.status == 200:\n                content", "            if 200 <= resp.status < 300:\n                content")]
DEMO = '''
from h import *


async def main():
    for st in (200, 202, 204, 206):
        async def app(scope, receive, send):
            await send({"type": "http.response.start", "status": st, "headers": [(b"content-type", b"application/proto")]})
            await send({"type": "http.response.body", "body": b""})

        try:
            await client(app).execute_unary(request=S(), method=method("G"))
            check(st == 200, f"{st} is no success")
        except ConnectError as e:
            check(st != 200, e)

run(main())
'''
