PROPERTY = "P03"
NEEDS = "a gRPC server (or proxy) that sends grpc-status 0 among the headers, and a body that is cut before the trailers"
BREAKS = "The status in the headers is used although there was a body, so a response without trailers looks complete."
EDITS = [("src/connectrpc/_protocol_grpc.py", """            if self._read_message:
                raise e or ConnectError(Code.INTERNAL, "missing grpc-status trailer")
            trailers = response.headers""", """            if self._read_message and "grpc-status" not in response.headers:
                raise e or ConnectError(Code.INTERNAL, "missing grpc-status trailer")
            trailers = response.headers""")]
DEMO = '''
from h import *
from pyqwest import Headers as HH, Response


class T:
    def __init__(self, hdrs, body):
        self.hdrs, self.body = hdrs, body

    async def execute(self, request):
        async def content():
            yield self.body
        return Response(status=200, headers=HH([("content-type", "application/grpc+proto"), *self.hdrs]), content=content())


async def main():
    one = env(S(value="x").to_binary())
    for hdrs, body, want in (([("grpc-status", "0")], b"", True), ([("grpc-status", "0")], one, False), ([], one, False)):
        c = ConnectClient("http://demo.test", http_client=Client(T(hdrs, body)), protocol=GRPC)
        try:
            async for _ in c.execute_server_stream(request=S(), method=method("Ss")):
                pass
            ok = True
        except ConnectError:
            ok = False
        check(ok == want, (hdrs, body, ok))

run(main())
'''
