PROPERTY = "P16"
NEEDS = "a gzip message cut before its end (or with a damaged checksum that the decoder did not reach)"
BREAKS = "What was decompressed before the cut is taken for the message."
EDITS = [("src/connectrpc/compression/gzip.py", "        return gzip.decompress(data)", "        return zlib.decompressobj(wbits=31).decompress(data)"), ("src/connectrpc/compression/gzip.py", "import gzip\n", "import gzip\nimport zlib\n")]
DEMO = '''
from h import *
from connectrpc.compression.gzip import GzipCompression


async def main():
    got = []

    async def get(req, ctx):
        got.append(req.value)
        return S()

    app = App({"G": (U, get)})
    data = GzipCompression().compress(S(value="hello").to_binary())
    for d in (data, data[:-1], data[:-8]):
        got.clear()
        st, *_ = await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/proto"), ("content-encoding", "gzip")], [d])
        check((st == 200) == (d == data), (len(d), len(data), st))
        check(got == (["hello"] if d == data else []), got)

run(main())
'''
