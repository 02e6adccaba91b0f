PROPERTY = "P22"
NEEDS = "protobuf=google and a message of another file whose directory has a hyphen in its name"
BREAKS = "Only hyphens in the name of the file itself are replaced in imports."
EDITS = [("protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py", """    filename = filename.replace("-", "_")
    filename = filename.replace("/", ".")
    return f"{filename}_pb2\"""", """    package, _, filename = filename.rpartition("/")
    filename = filename.replace("-", "_")
    if package:
        filename = f"{package.replace('/', '.')}.{filename}"
    return f"{filename}_pb2\"""")]
DEMO = '''
from h import *
from protoc_gen_connectrpc import _module_name
check(_module_name("a/b-c.proto") == "a.b_c_pb2", _module_name("a/b-c.proto"))
check(_module_name("a-b/c.proto") == "a_b.c_pb2", _module_name("a-b/c.proto"))
check(_module_name("c.proto") == "c_pb2", _module_name("c.proto"))
'''
