PROPERTY = 'P21'
NEEDS = 'instrumenting the library and giving one list of interceptors to several clients or applications'
BREAKS = "The telemetry interceptor is added to the caller's own list."
EDITS = [('connectrpc-otel/connectrpc_otel/_instrumentor.py', '        interceptors = [] if interceptors is None else [*interceptors]', '        interceptors = [] if interceptors is None else interceptors if isinstance(interceptors, list) else [*interceptors]')]
DEMO = '''
from h import *

from connectrpc_otel import ConnectInstrumentor

mine = []
inst = ConnectInstrumentor()
inst.instrument()
try:
    App({}, interceptors=mine)
    AppSync({}, interceptors=mine)
finally:
    inst.uninstrument()
check(mine == [], mine)
'''
