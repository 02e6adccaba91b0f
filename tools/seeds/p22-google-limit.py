PROPERTY = 'P22'
NEEDS = 'code generated for google.protobuf and a client given read_max_bytes'
BREAKS = 'The limit is not passed on, so messages of any size are accepted.'
EDITS = [('protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py', '            f.print("read_max_bytes=read_max_bytes,")\n            f.print("interceptors=interceptors,")\n            f.print("http_client=http_client,")', '            f.print("interceptors=interceptors,")\n            f.print("http_client=http_client,")')]
DEMO = '''
from h import *

import os
import subprocess
import tempfile
from google.protobuf.compiler.plugin_pb2 import CodeGeneratorRequest, CodeGeneratorResponse
from google.protobuf.descriptor_pb2 import FileDescriptorProto

f = FileDescriptorProto(name="t.proto", package="t", syntax="proto3")
f.message_type.add(name="M")
f.service.add(name="Svc").method.add(name="Go", input_type=".t.M", output_type=".t.M")
req = CodeGeneratorRequest(file_to_generate=["t.proto"], parameter="protobuf=google", proto_file=[f])
r = subprocess.run([os.path.join(os.path.dirname(sys.executable), "protoc-gen-connectrpc")], input=req.SerializeToString(), capture_output=True, check=True)
res = CodeGeneratorResponse.FromString(r.stdout)
src = res.file[0].content

import types
from google.protobuf import descriptor_pool, message_factory
pool = descriptor_pool.DescriptorPool()
pool.Add(f)
mod = types.ModuleType("t_pb2")
mod.M = message_factory.GetMessageClass(pool.FindMessageTypeByName("t.M"))
pk = types.ModuleType("pk")
pk.__path__ = []
pk.t_pb2 = mod
gen = types.ModuleType("pk.t_connect")
gen.__package__ = "pk"
sys.modules.update({"pk": pk, "pk.t_pb2": mod, "t_pb2": mod, "pk.t_connect": gen})
exec(compile(src, "t_connect.py", "exec"), gen.__dict__)


def app(environ, start):
    environ["wsgi.input"].read()
    start("200 OK", [("content-type", "application/proto")])
    return [bytes([10, 20]) + b"x" * 20]


for limit, ok in ((None, True), (100, True), (10, False)):
    try:
        gen.SvcClientSync("http://demo.test", http_client=SyncClient(WSGITransport(app=app)), read_max_bytes=limit).go(mod.M())
        got = True
    except ConnectError as e:
        check(e.code == Code.RESOURCE_EXHAUSTED, e)
        got = False
    check(got == ok, limit)
'''
