PROPERTY = "P22"
NEEDS = "protobuf=google and an RPC whose message is nested two levels deep or more"
BREAKS = "Only the innermost enclosing message is named, so the generated module refers to a name that does not exist."
EDITS = [("protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py", """    parent = message.parent
    while parent:
        parts.append(parent.name)
        parent = parent.parent
""", """    if parent := message.parent:
        parts.append(parent.name)
""")]
DEMO = '''
import os
import shutil
import subprocess
import sys
import tempfile

d = tempfile.mkdtemp()
try:
    os.mkdir(f"{d}/demopkg")
    open(f"{d}/demopkg/a.proto", "w").write("""syntax = "proto3"; package a.v1; message M { message N { message O {} } }
service Svc { rpc A(M) returns (M.N); rpc B(M) returns (M.N.O); }""")
    env = {**os.environ, "PATH": "/opt/venv/bin:" + os.environ["PATH"]}
    subprocess.run(["protoc", f"-I{d}", f"--python_out={d}", f"--connectrpc_out=protobuf=google:{d}", "demopkg/a.proto", "--plugin=protoc-gen-connectrpc=/opt/venv/bin/protoc-gen-connectrpc"], check=True, env=env)
    r = subprocess.run(["/opt/venv/bin/python", "-c", "import demopkg.a_connect as a; print(list(a.SvcASGIApplication(a.Svc.__new__(type('X', (a.Svc,), {})))._endpoints(type('X', (a.Svc,), {})())))"], cwd=d, capture_output=True, text=True)
finally:
    shutil.rmtree(d)
print(r.stdout, r.stderr[-800:])
sys.exit(r.returncode != 0)
'''
