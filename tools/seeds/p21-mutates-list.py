PROPERTY = "P21"
NEEDS = "instrumentation, and one list of interceptors given to several clients or applications"
BREAKS = "The telemetry interceptor is put into the caller's own list."
EDITS = [("connectrpc-otel/connectrpc_otel/_instrumentor.py", """        interceptors = [] if interceptors is None else [*interceptors]
""", """        if not isinstance(interceptors, list):
            interceptors = [] if interceptors is None else [*interceptors]
""")]
DEMO = '''
from h import *
from connectrpc_otel import ConnectInstrumentor


class I:
    async def intercept_unary(self, n, r, c):
        return await n(r, c)


mine = [I()]
ConnectInstrumentor().instrument()
import connectrpc.client
connectrpc.client.ConnectClient("http://x.test", interceptors=mine)
ConnectInstrumentor().uninstrument()
check(len(mine) == 1, mine)
'''
