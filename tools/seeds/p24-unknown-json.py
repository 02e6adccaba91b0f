PROPERTY = "P24"
NEEDS = "a JSON message with a field that does not exist"
BREAKS = "The compatibility codec accepts malformed input that the default codec refuses."
EDITS = [("src/connectrpc/compat/_codec.py", """        message = message_class()
        MessageFromJson(data, message)  # ty:ignore[invalid-argument-type] type is incorrect
        return message""", """        message = message_class()
        MessageFromJson(data, message, ignore_unknown_fields=True)  # ty:ignore[invalid-argument-type] type is incorrect
        return message""")]
DEMO = '''
from h import *
from connectrpc.compat import google_protobuf_codecs
from google.protobuf.timestamp_pb2 import Timestamp
from google.protobuf.type_pb2 import Field as GField
from protobuf.wkt import Field as PField


async def main():
    async def get(req, ctx):
        return req

    res = []
    for app in (App({"G": (U, get, IdempotencyLevel.UNKNOWN, PField, PField)}), App({"G": (U, get, IdempotencyLevel.UNKNOWN, GField, GField)}, codecs=google_protobuf_codecs())):
        row = []
        for body in (b'{"name":"x"}', b'{"name":"x","noSuchField":1}', b'{"name":5}'):
            row.append((await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/json")], [body]))[0])
        res.append(row)
    check(res[0] == res[1], res)

run(main())
'''
