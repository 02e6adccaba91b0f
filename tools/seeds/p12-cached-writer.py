PROPERTY = "P12"
NEEDS = "two calls to one application that accept different encodings"
BREAKS = "The envelope writer is cached per codec and protocol on the application, so a call that runs after one with another accepted encoding answers with that call's encoding."
EDITS = [("src/connectrpc/_server_async.py", """        writer = protocol.create_envelope_writer(codec, resp_compression)

        error: Exception""", """        # Writers have no state of their own, create them once per kind.
        key = (type(protocol), codec.name(), resp_compression.name() != "identity")
        writer = self._writers.get(key)
        if writer is None:
            writer = protocol.create_envelope_writer(codec, resp_compression)
            self._writers[key] = writer

        error: Exception"""), ("src/connectrpc/_server_async.py", """        self._resolved_endpoints = None
        self._read_max_bytes = read_max_bytes
""", """        self._resolved_endpoints = None
        self._writers: dict = {}
        self._read_max_bytes = read_max_bytes
""")]
DEMO = '''
from h import *
from connectrpc.compression.gzip import GzipCompression
from connectrpc.compression.zstd import ZstdCompression


async def main():
    async def ss(req, ctx):
        for i in range(3):
            await asyncio.sleep(0)
            yield S(value=req.value * 50)

    app = App({"Ss": (SS, ss)}, compressions=[GzipCompression(), ZstdCompression()])

    async def call(comp):
        try:
            c = client(app, accept_compression=comp)
            return [m.value async for m in c.execute_server_stream(request=S(value="v"), method=method("Ss"))]
        except ConnectError as e:
            return repr(e)

    for comps in ([[GzipCompression()], [GzipCompression()]], [[GzipCompression()], [ZstdCompression()]]):
        rs = await asyncio.gather(*(call(c) for c in comps))
        for r in rs:
            check(r == ["v" * 50] * 3, r)

run(main())
'''
