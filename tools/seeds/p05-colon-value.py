PROPERTY = 'P05'
NEEDS = 'a gRPC-Web response trailer whose value contains a colon without a space after it'
BREAKS = 'Name and value are split at the wrong colon.'
EDITS = [('src/connectrpc/_protocol_grpc.py', 'key, value = line.split(b":", 1)', 'key, value = line.rsplit(b":", 1) if line.count(b": ") == 1 else line.split(b":", 1)')]
DEMO = '''
from h import *


async def main():
    async def get(req, ctx):
        ctx.response_trailers["x-t"] = "a:b:c"
        return S()

    with ResponseMetadata() as meta:
        await client(App({"G": (U, get)}), protocol=WEB).execute_unary(request=S(), method=method("G"))
    check([v for k, v in meta.trailers.allitems() if k == "x-t"] == ["a:b:c"], list(meta.trailers.allitems()))

run(main())
'''
