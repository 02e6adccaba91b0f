PROPERTY = "P10"
NEEDS = "a bidirectional stream with its own timeout on a client that has a default timeout"
BREAKS = "The default timeout replaces the one given to the call."
EDITS = [("src/connectrpc/_client_sync.py", """        request: Iterator[REQ],
        method: MethodInfo[REQ, RES],
        headers: Headers | Mapping[str, str] | None = None,
        timeout_ms: int | None = None,
    ) -> Iterator[RES]:
        ctx = self._protocol.create_request_context(
            method=method,
            url=self._address,
            http_method="POST",
            user_headers=headers,
            timeout_ms=timeout_ms or self._timeout_ms,""", """        request: Iterator[REQ],
        method: MethodInfo[REQ, RES],
        headers: Headers | Mapping[str, str] | None = None,
        timeout_ms: int | None = None,
    ) -> Iterator[RES]:
        ctx = self._protocol.create_request_context(
            method=method,
            url=self._address,
            http_method="POST",
            user_headers=headers,
            timeout_ms=self._timeout_ms or timeout_ms,""")]
DEMO = '''
from h import *


def bd(reqs, ctx):
    yield S(value=ctx.request_headers.get("connect-timeout-ms", ""))


app = AppSync({"B": (BD, bd)})
for d, t, want in ((None, 5000, "5000"), (7000, None, "7000"), (7000, 5000, "5000")):
    r = list(client_sync(app, timeout_ms=d).execute_bidi_stream(request=iter([S()]), method=method("B"), timeout_ms=t))
    check(r[0].value == want, (d, t, r[0].value))
'''
