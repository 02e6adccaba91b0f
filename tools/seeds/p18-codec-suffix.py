PROPERTY = 'P18'
NEEDS = 'a Connect response in a codec whose name ends with the name of the codec of the request'
BREAKS = 'A response in another codec is decoded as if it were in the codec of the request.'
EDITS = [('src/connectrpc/_protocol_connect.py', '        if response_codec_name != request_codec_name:', '        if not response_codec_name.endswith(request_codec_name):')]
DEMO = '''
from h import *


def app(environ, start):
    environ["wsgi.input"].read()
    start("200 OK", [("content-type", "application/connect+" + ct)])
    return [env(S(value="x").to_binary()), env(b"{}", 2)]


for ct, ok in (("proto", True), ("notproto", False), ("x-proto", False), ("json", False)):
    try:
        list(client_sync(app).execute_server_stream(request=S(), method=method("G")))
        got = True
    except ConnectError as e:
        got = False
    check(got == ok, (ct, got))
'''
