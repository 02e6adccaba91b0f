PROPERTY = 'P16'
NEEDS = 'an application or client given its own implementation of an algorithm that has the name of a built-in one'
BREAKS = 'The built-in implementation is used instead of the one that was given.'
EDITS = [('src/connectrpc/_compression.py', '    res = {comp.name(): comp for comp in compressions}\n', '    res = {comp.name(): _default_compressions.get(comp.name(), comp) for comp in compressions}\n')]
DEMO = '''
from h import *


class Mine:
    used = 0

    def name(self):
        return "gzip"

    def compress(self, data):
        return b"M" + bytes(data)

    def decompress(self, data):
        data = bytes(data)
        check(data[:1] == b"M", data)
        Mine.used += 1
        return data[1:]


async def main():
    async def get(req, ctx):
        return S(value=req.value + "!")

    app = App({"G": (U, get)}, compressions=[Mine()])
    st, _, body, _, _ = await asgi(app, "/demo.v1.Demo/G", [("content-type", "application/proto"), ("content-encoding", "gzip"), ("accept-encoding", "identity")], [b"M" + S(value="a").to_binary()])
    check(st == 200 and S.from_binary(body).value == "a!" and Mine.used == 1, (st, body, Mine.used))

run(main())
'''
