PROPERTY = 'P03'
NEEDS = 'a gRPC-Web response with a success status among its headers whose body is cut after a message'
BREAKS = 'The cut response is reported as success.'
EDITS = [('src/connectrpc/_protocol_grpc.py', '            if self._read_message:\n                raise', '            if self._read_message and "grpc-status" not in response.headers:\n                raise')]
DEMO = '''
from h import *


def app(environ, start):
    environ["wsgi.input"].read()
    start("200 OK", [("content-type", "application/grpc-web+proto"), ("grpc-status", "0")])
    return [env(S(value="a").to_binary())]


got = []
try:
    for m in client_sync(app, protocol=WEB).execute_server_stream(request=S(), method=method("G")):
        got.append(m.value)
except ConnectError as e:
    got.append("error")
check(got == ["a", "error"], got)
'''
