PROPERTY = "P05"
NEEDS = "a gRPC or gRPC-Web response with a trailer name that occurs more than once"
BREAKS = "Only the last value of a repeated trailer reaches the caller."
EDITS = [("src/connectrpc/_response_metadata.py", "        if isinstance(value, str):\n            response_trailers.add(key, value)",
          "        if isinstance(value, str):\n            response_trailers[key] = value")]
DEMO = '''
from h import *


async def stream(req, ctx):
    ctx.response_trailers.add("x-cost", "1")
    ctx.response_trailers.add("x-cost", "2")
    yield S(value="m")


async def main():
    app = App({"Get": (SS, stream)})
    for proto in (CONNECT, GRPC, WEB):
        c = client(app, protocol=proto)
        with ResponseMetadata() as md:
            async for _ in c.execute_server_stream(request=S(value="q"), method=method("Get")):
                pass
        check(list(md.trailers.getall("x-cost")) == ["1", "2"], (proto, md.trailers))

run(main())
'''
