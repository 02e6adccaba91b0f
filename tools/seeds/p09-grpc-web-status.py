PROPERTY = "P09"
NEEDS = "a gRPC-Web server whose trailer block has spaces around the status, or a status that is not a plain number"
BREAKS = "Any status that reads as the number zero, such as an empty one, counts as success."
EDITS = [("src/connectrpc/_protocol_grpc.py", """        code = e.code if e else None
        if grpc_status != "0":""", """        code = e.code if e else None
        if grpc_status.strip("0"):""")]
DEMO = '''
from h import *
from pyqwest import Headers as HH, Request, Response


class T:
    def __init__(self, status):
        self.status = status

    async def execute(self, request):
        b = f"grpc-status: {self.status}\\r\\n".encode()

        async def content():
            yield env(S(value="x").to_binary()) + env(b, 0x80)
        return Response(status=200, headers=HH([("content-type", "application/grpc-web+proto")]), content=content())


async def main():
    for status in ("0", "00", ""):
        c = ConnectClient("http://demo.test", http_client=Client(T(status)), protocol=WEB)
        try:
            await c.execute_unary(request=S(), method=method("U"))
            ok = True
        except ConnectError:
            ok = False
        check(ok == (status == "0"), status)

run(main())
'''
