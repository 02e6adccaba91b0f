PROPERTY = 'P11'
NEEDS = 'a bidirectional method of a synchronous server with more than one interceptor'
BREAKS = 'The interceptors run in the opposite order.'
EDITS = [('src/connectrpc/_server_sync.py', '        case EndpointBidiStreamSync():\n            func = endpoint.function\n            for interceptor in reversed(interceptors):', '        case EndpointBidiStreamSync():\n            func = endpoint.function\n            for interceptor in interceptors:')]
DEMO = '''
from h import *

log = []


class I:
    def __init__(self, n):
        self.n = n

    def on_start_sync(self, ctx):
        log.append(self.n)

    def on_end_sync(self, token, ctx, error):
        pass


def bd(reqs, ctx):
    for r in reqs:
        yield r


app = AppSync({"B": (BD, bd), "S": (SS, lambda req, ctx: iter([S()]))}, interceptors=[I("a"), I("b")])
list(client_sync(app).execute_server_stream(request=S(), method=method("S")))
list(client_sync(app).execute_bidi_stream(request=iter([S()]), method=method("B")))
check(log == ["a", "b", "a", "b"], log)
'''
