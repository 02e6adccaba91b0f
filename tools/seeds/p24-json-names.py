PROPERTY = 'P24'
NEEDS = 'a google.protobuf message with a field whose name has several words, sent as JSON'
BREAKS = 'The JSON is not the canonical mapping: proto field names instead of JSON names.'
EDITS = [('src/connectrpc/compat/_codec.py', 'MessageToJson(message).encode()', 'MessageToJson(message, preserving_proto_field_name=True).encode()')]
DEMO = '''
from h import *

import json
from connectrpc.compat import google_protobuf_json_codec
from google.protobuf.source_context_pb2 import SourceContext

d = json.loads(google_protobuf_json_codec().encode(SourceContext(file_name="x")))
check(d == {"fileName": "x"}, d)
'''
