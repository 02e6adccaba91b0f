PROPERTY = 'P05'
NEEDS = 'a streaming handler of a WSGI application that sets response trailers and fails after it has sent a message'
BREAKS = 'The trailers are lost.'
EDITS = [('src/connectrpc/_server_sync.py', '            ctx.response_trailers,\n            ConnectWireError.from_exception(error) if error else None,', '            ctx.response_trailers if error is None else Headers(),\n            ConnectWireError.from_exception(error) if error else None,')]
DEMO = '''
from h import *


def ss(req, ctx):
    ctx.response_trailers["x-t"] = "1"
    yield S(value="a")
    raise ConnectError(Code.ABORTED, "no")


for p in (CONNECT, GRPC, WEB):
    got = []
    with ResponseMetadata() as meta:
        try:
            for m in client_sync(AppSync({"Ss": (SS, ss)}), protocol=p).execute_server_stream(request=S(), method=method("Ss")):
                got.append(m.value)
        except ConnectError as e:
            got.append(e.code)
    check(got == ["a", Code.ABORTED] and meta.trailers.get("x-t") == "1", (p, got, meta.trailers))
'''
