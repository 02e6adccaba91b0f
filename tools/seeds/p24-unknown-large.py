PROPERTY = "P24"
NEEDS = "the google.protobuf JSON codec on more than a kilobyte of JSON with an unknown field"
BREAKS = "Unknown JSON fields are refused in small messages but silently ignored in large ones, unlike with the default codec."
EDITS = [("src/connectrpc/compat/_codec.py", """        MessageFromJson(data, message)  # ty:ignore[invalid-argument-type] type is incorrect
""", """        MessageFromJson(data, message, ignore_unknown_fields=len(data) > 1024)  # ty:ignore[invalid-argument-type] type is incorrect
""")]
DEMO = '''
from h import *
from google.protobuf.type_pb2 import Type
from connectrpc.compat import google_protobuf_json_codec
c = google_protobuf_json_codec()
for pad in ("", "x" * 2000):
    try:
        c.decode(('{"name": "%s", "nosuch": 1}' % pad).encode(), Type)
        check(False, f"unknown field accepted with {len(pad)} characters")
    except Exception as e:
        check("nosuch" in str(e), e)
'''
