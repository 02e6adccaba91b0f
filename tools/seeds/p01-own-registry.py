PROPERTY = 'P01'
NEEDS = 'a JSON codec made with a registry of its own, and a received message with an Any of a type only that registry knows'
BREAKS = 'Messages that were encoded with the registry of the codec cannot be decoded.'
EDITS = [('src/connectrpc/_codec.py', 'return message_class.from_json(data, registry=self._registry)', 'return message_class.from_json(data, registry=DEFAULT_REGISTRY)')]
DEMO = '''
from h import *

import os
sys.path.insert(0, os.path.join(os.getcwd(), "test"))
import haberdasher_pb as hp
from protobuf import Registry
from protobuf.wkt import Any

reg = Registry(hp.desc())
codec = proto_json_codec(registry=reg)
hat = hp.Size(inches=7)
m = Any(type_url="type.googleapis.com/" + hat.desc().type_name, value=hat.to_binary())
data = codec.encode(m)
got = codec.decode(data, Any)
check(got.type_url == m.type_url and got.value == m.value, got)
'''
