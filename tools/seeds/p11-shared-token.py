PROPERTY = "P11"
NEEDS = "two overlapping streaming calls through one client or application with a metadata interceptor"
BREAKS = "The value that the start returned is kept on the object that is shared by all calls, so an end gets the token of a call that began later."
EDITS = [("src/connectrpc/_interceptor_sync.py", """    ) -> Iterator[RES]:
        token = self._delegate.on_start_sync(ctx)
        error: Exception | None = None
        try:
            yield from call_next(request, ctx)
        except Exception as e:
            error = e
            raise
        finally:
            self._delegate.on_end_sync(token, ctx, error)

    def intercept_bidi_stream_sync(""", """    ) -> Iterator[RES]:
        self._token = self._delegate.on_start_sync(ctx)
        error: Exception | None = None
        try:
            yield from call_next(request, ctx)
        except Exception as e:
            error = e
            raise
        finally:
            self._delegate.on_end_sync(self._token, ctx, error)

    def intercept_bidi_stream_sync("""), ("src/connectrpc/_interceptor_sync.py", """    _delegate: MetadataInterceptorSync[T]

    def""", """    _delegate: MetadataInterceptorSync[T]
    _token: T

    def""")]
DEMO = '''
from h import *


class I:
    def __init__(self):
        self.n, self.ends = 0, []

    def on_start_sync(self, ctx):
        self.n += 1
        return self.n

    def on_end_sync(self, token, ctx, error):
        self.ends.append(token)


def ss(req, ctx):
    yield S(value="1")
    yield S(value="2")


app = AppSync({"Ss": (SS, ss)})
i = I()
c = client_sync(app, interceptors=[i])
a = c.execute_server_stream(request=S(), method=method("Ss"))
next(a)
list(c.execute_server_stream(request=S(), method=method("Ss")))
list(a)
check(sorted(i.ends) == [1, 2], i.ends)
'''
