PROPERTY = 'P24'
NEEDS = 'a JSON message of google.protobuf nested more than twenty levels deep'
BREAKS = 'The compatibility codec refuses messages the default codec accepts.'
EDITS = [('src/connectrpc/compat/_codec.py', 'MessageFromJson(data, message)', 'MessageFromJson(data, message, max_recursion_depth=20)')]
DEMO = '''
from h import *

from connectrpc.compat import google_protobuf_json_codec
from google.protobuf.descriptor_pb2 import DescriptorProto

c = google_protobuf_json_codec()
m = s = DescriptorProto()
for _ in range(60):
    s = s.nested_type.add(name="a")
check(c.decode(c.encode(m), DescriptorProto) == m, "differs")
'''
