PROPERTY = "P06"
NEEDS = "a unary request to a synchronous server of exactly the maximum size"
BREAKS = "A message of exactly the maximum size is refused."
EDITS = [("src/connectrpc/_server_sync.py", """                and len(req_body) > self._read_max_bytes""", """                and len(req_body) >= self._read_max_bytes""")]
DEMO = '''
from h import *

app = AppSync({"G": (U, lambda req, ctx: req)}, read_max_bytes=22)
c = client_sync(app)
check(len(S(value="x" * 20).to_binary()) == 22, "size")
try:
    c.execute_unary(request=S(value="x" * 20), method=method("G"))
except ConnectError as e:
    check(False, e)
try:
    c.execute_unary(request=S(value="x" * 21), method=method("G"))
    check(False, "accepted")
except ConnectError as e:
    check(e.code == Code.RESOURCE_EXHAUSTED, e.code)
'''
