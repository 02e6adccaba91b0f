PROPERTY = 'P14'
NEEDS = 'a synchronous client reading a stream whose chunk holds complete messages followed by one that cannot be read'
BREAKS = 'The messages before the broken one are not delivered.'
EDITS = [('src/connectrpc/_client_sync.py', 'yield from reader.feed(chunk)', 'yield from list(reader.feed(chunk))')]
DEMO = '''
from h import *


def app(environ, start):
    environ["wsgi.input"].read()
    start("200 OK", [("content-type", "application/connect+proto")])
    return [env(S(value="a").to_binary()) + env(S(value="b").to_binary()) + env(bytes([0xFF]))]


got = []
try:
    for m in client_sync(app).execute_server_stream(request=S(), method=method("G")):
        got.append(m.value)
except ConnectError:
    got.append("error")
check(got == ["a", "b", "error"], got)
'''
