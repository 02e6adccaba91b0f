PROPERTY = 'P06'
NEEDS = 'a message whose compressed form is more than 1024 bytes longer than the limit although the message itself is within it'
BREAKS = 'A message within the limit is refused because its compressed form is long.'
EDITS=[('src/connectrpc/_envelope.py', '            self._next_message_length = int.from_bytes(self._buffer[1:5], "big")', '            self._next_message_length = int.from_bytes(self._buffer[1:5], "big")\n            if (\n                self._read_max_bytes is not None\n                and self._next_message_length > self._read_max_bytes + 1024\n            ):\n                raise ConnectError(\n                    Code.RESOURCE_EXHAUSTED,\n                    f"message is larger than configured max {self._read_max_bytes}",\n                )')]
DEMO = '''
import gzip
import struct

from h import *


async def main():
    async def get(reqs, ctx):
        n = 0
        async for r in reqs:
            n += len(r.value)
        return S(value=str(n))

    app = App({"G": (CS, get)}, read_max_bytes=100)
    data = S(value="a" * 50).to_binary()
    z = gzip.compress(data, mtime=0)
    fat = z[:3] + b"\\x04" + z[4:10] + struct.pack("<H", 3000) + b"\\0" * 3000 + z[10:]
    check(gzip.decompress(fat) == data, "gzip")
    st, hs, body, tr, _ = await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/connect+proto"), ("connect-content-encoding", "gzip")], [env(fat, 1)])
    es = envelopes(body)
    check(len(es) == 2 and S.from_binary(es[0][1]).value == "50", body)

run(main())
'''
