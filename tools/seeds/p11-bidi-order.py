PROPERTY = "P11"
NEEDS = "a synchronous server with two or more interceptors of bidirectional streams"
BREAKS = "The interceptors of bidirectional streams run in reverse order: the first one given is innermost."
EDITS = [("src/connectrpc/_server_sync.py", """            for interceptor in reversed(interceptors):
                if not isinstance(interceptor, BidiStreamInterceptorSync):""", """            for interceptor in interceptors:
                if not isinstance(interceptor, BidiStreamInterceptorSync):""")]
DEMO = '''
from h import *


class I:
    def __init__(self, n, log):
        self.n, self.log = n, log

    def intercept_unary_sync(self, call_next, request, ctx):
        self.log.append(self.n)
        return call_next(request, ctx)

    def intercept_bidi_stream_sync(self, call_next, request, ctx):
        self.log.append(self.n)
        yield from call_next(request, ctx)


log = []
app = AppSync({"B": (BD, lambda reqs, ctx: reqs), "U": (U, lambda req, ctx: req)}, interceptors=[I("a", log), I("b", log), I("c", log)])
client_sync(app).execute_unary(request=S(), method=method("U"))
check(log == ["a", "b", "c"], log)
log.clear()
list(client_sync(app).execute_bidi_stream(request=iter([S()]), method=method("B")))
check(log == ["a", "b", "c"], log)
'''
