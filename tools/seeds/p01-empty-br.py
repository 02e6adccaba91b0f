PROPERTY = "P01"
NEEDS = "a streaming RPC whose messages are compressed with brotli, and a message that encodes to zero bytes"
BREAKS = "An empty message is written uncompressed but flagged as compressed; brotli refuses to decompress nothing, so the stream fails instead of delivering the message."
EDITS = [("src/connectrpc/_envelope.py", "        if self._compression:\n            data = self._compression.compress(data)\n        # This copies",
          "        if self._compression and data:\n            data = self._compression.compress(data)\n        # This copies")]
DEMO = '''
from h import *
from connectrpc.compression.brotli import BrotliCompression


async def echo(reqs, ctx):
    async for r in reqs:
        yield S(value=r.value)


async def main():
    app = App({"Echo": (BD, echo)}, compressions=[BrotliCompression()])
    c = client(app, send_compression=BrotliCompression(), accept_compression=[BrotliCompression()])

    async def reqs():
        for v in ("a", "", "b"):
            yield S(value=v)

    got = [m.value async for m in c.execute_bidi_stream(request=reqs(), method=method("Echo"))]
    check(got == ["a", "", "b"], got)

run(main())
'''
