PROPERTY = 'P09'
NEEDS = 'a response whose content type names a codec that begins with the name of the one in use'
BREAKS = 'A response in another codec is accepted and decoded as if it were the one asked for.'
EDITS=[('src/connectrpc/_protocol_connect.py', '        if response_codec_name == request_codec_name:\n            return\n', '        if response_codec_name.startswith(request_codec_name):\n            return\n')]
DEMO = '''
from h import *
from pyqwest import Headers as HH, Response


async def main():
    class T:
        async def execute(self, request):
            return Response(status=200, headers=HH([("content-type", self.ct)]), content=b"")

    for ct, ok in (("application/proto", True), ("application/proto2", False), ("application/protobuf", False), ("application/json", False)):
        t = T()
        t.ct = ct
        c = ConnectClient("http://demo.test", http_client=Client(t))
        try:
            await c.execute_unary(request=S(value="a"), method=method("G"))
            check(ok, ct)
        except ConnectError as e:
            check(not ok, (ct, e))

run(main())
'''
