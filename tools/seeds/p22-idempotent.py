PROPERTY = "P22"
NEEDS = "an RPC declared IDEMPOTENT"
BREAKS = "Methods declared IDEMPOTENT are generated as UNKNOWN."
EDITS = [("protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py", """        case MethodOptions.IdempotencyLevel.IDEMPOTENT:
            return "IDEMPOTENT"
    msg""", """        case MethodOptions.IdempotencyLevel.IDEMPOTENT:
            # Only affects clients that retry.
            return "UNKNOWN"
    msg""")]
DEMO = '''
import os
import subprocess
import sys
import tempfile

d = tempfile.mkdtemp()
try:
    open(f"{d}/a.proto", "w").write("""syntax = "proto3"; package a.v1; message M {}
service Svc { rpc A(M) returns (M); rpc B(M) returns (M) { option idempotency_level = NO_SIDE_EFFECTS; } rpc C(M) returns (M) { option idempotency_level = IDEMPOTENT; } }""")
    env = {**os.environ, "PATH": "/opt/venv/bin:" + os.environ["PATH"]}
    subprocess.run(["protoc", f"-I{d}", f"--connectrpc_out={d}", "a.proto", "--plugin=protoc-gen-connectrpc=/opt/venv/bin/protoc-gen-connectrpc"], check=True, env=env)
    s = open(f"{d}/a_connect.py").read()
    ok = all(f"IdempotencyLevel.{x}" in s for x in ("UNKNOWN", "NO_SIDE_EFFECTS", "IDEMPOTENT"))
finally:
    import shutil
    shutil.rmtree(d)
print("ok" if ok else "FAILED")
sys.exit(not ok)
'''
