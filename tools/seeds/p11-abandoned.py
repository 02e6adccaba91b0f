PROPERTY = 'P11'
NEEDS = 'a server stream of a synchronous client or server that is closed before its end'
BREAKS = 'on_end is not called for it.'
EDITS = [('src/connectrpc/_interceptor_sync.py', '    def intercept_server_stream_sync(\n        self,\n        call_next: Callable[[REQ, RequestContext], Iterator[RES]],\n        request: REQ,\n        ctx: RequestContext,\n    ) -> Iterator[RES]:\n        token = self._delegate.on_start_sync(ctx)\n        error: Exception | None = None\n        try:\n            yield from call_next(request, ctx)\n        except Exception as e:\n            error = e\n            raise\n        finally:\n            self._delegate.on_end_sync(token, ctx, error)\n', '    def intercept_server_stream_sync(\n        self,\n        call_next: Callable[[REQ, RequestContext], Iterator[RES]],\n        request: REQ,\n        ctx: RequestContext,\n    ) -> Iterator[RES]:\n        token = self._delegate.on_start_sync(ctx)\n        try:\n            yield from call_next(request, ctx)\n        except Exception as e:\n            self._delegate.on_end_sync(token, ctx, e)\n            raise\n        self._delegate.on_end_sync(token, ctx, None)\n')]
DEMO = '''
from h import *

log = []


class I:
    def on_start_sync(self, ctx):
        log.append("start")
        return "tok"

    def on_end_sync(self, token, ctx, error):
        log.append("end " + token)


def ss(req, ctx):
    for i in range(9):
        yield S(value=str(i))


it = client_sync(AppSync({"Ss": (SS, ss)}), interceptors=[I()]).execute_server_stream(request=S(), method=method("Ss"))
check(next(it).value == "0", "first")
it.close()
check(log == ["start", "end tok"], log)
'''
