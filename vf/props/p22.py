"""P22: generated code is importable and faithful for every service definition."""
from __future__ import annotations

import random

from .. import cgen
from ..core import Workload

ID = "P22"
RULE = ("A case is a random set of proto files (packages, directories, imports, nested and keyword and helper-like names, all streaming kinds, "
        "idempotency levels, hostile comments, syntaxes and editions, plugin options) compiled by the real protoc, run through the real plugin entry point, "
        "imported in a fresh process and called through its own clients and applications; what is observed is compared with the descriptors. "
        "Non-trivial: at least one service was generated and its methods called; distinct by the proto text and options.")
ASSUME = ["protoc and the message generators (protoc-gen-py, protoc --python_out) are correct; a case whose message modules do not import is not judged",
          "names of RPCs are converted to snake case as the existing generated code does"]


def judge(rec, res, what, sig="codegen") -> bool:
    for k, n in res.get("ev", {}).items():
        rec.ev(k, n)
    if "error" in res:
        raise RuntimeError(f"{what}: {res['error']}")
    if "bad" in res:
        s, d = res["bad"]
        rec.fail(f"{sig}:{s}", {"case": what, "detail": d})
        return False
    if "skip" in res:
        rec.ev("skipped:" + res["skip"].split(":")[0])
        return False
    return True


def random_files(rec, rng, idx):
    mode = ["py", "google"][idx % 2]
    f = cgen.Files(rng, mode == "google")
    io = rng.choice([None, None, None, "sync", "async"])
    res = cgen.forked(f.text, mode, io, rng.random(), idx % 16 < 2)
    what = {"files": f.text, "mode": mode, "io": io}
    if not judge(rec, res, what):
        return
    for x in f.features:
        rec.ev("with " + x)
    for s in res["seen"]:
        rec.seen("service_shapes", s)
    if res["ev"].get("calls"):
        rec.nontrivial((repr(sorted(f.text.items())), mode, io))
    rec.sample({"files": {k: v[:300] for k, v in f.text.items()}, "mode": mode, "io": io, "calls": res["ev"].get("calls", 0)})


def P(body: str, head: str = 'package q.v1;\n') -> str:
    return 'syntax = "proto3";\n' + head + body


RR = "message Req { string s = 1; int32 n = 2; }\n"
# Special definitions; each is one input with a fixed outcome.
SPECIAL = {
    "rpc-close": ("py", {"q/v1/s.proto": P(RR + "service S { rpc Close(Req) returns (Req); }\n")}),
    "rpc-execute-unary": ("py", {"q/v1/s.proto": P(RR + "service S { rpc ExecuteUnary(Req) returns (Req); }\n")}),
    "rpc-same-snake-case": ("py", {"q/v1/s.proto": P(RR + "service S { rpc GetFoo(Req) returns (Req); rpc getFoo(Req) returns (Req); }\n")}),
    "rpc-dunder": ("py", {"q/v1/s.proto": P(RR + "service S { rpc __Foo(Req) returns (Req); }\n")}),
    "service-suffix": ("py", {"q/v1/s.proto": P(RR + "service S { rpc A(Req) returns (Req); }\nservice SSync { rpc A(Req) returns (Req); }\n")}),
    "message-request": ("py", {"q/v1/s.proto": P("message request { string s = 1; }\nservice S { rpc A(request) returns (request); }\n")}),
    "message-svc": ("py", {"q/v1/s.proto": P("message svc { string s = 1; }\nservice S { rpc A(svc) returns (svc); }\n")}),
    "google-message-none": ("google", {"q/v1/s.proto": P("message None { string s = 1; }\nservice S { rpc A(None) returns (None); }\n")}),
    "google-keyword-directory": ("google", {"q/v1/t.proto": P(RR), "class/s.proto": P('import "q/v1/t.proto";\nmessage M { string s = 1; }\nservice S { rpc A(q.v1.Req) returns (M); }\n', "package k;\n")}),
    "google-keyword-import": ("google", {"class/t.proto": P(RR), "q/s.proto": P('import "class/t.proto";\nservice S { rpc A(q.v1.Req) returns (q.v1.Req); }\n', "package k;\n")}),
    # handled
    "google-directory": ("google", {"q/v1/s.proto": P(RR + "service S { rpc A(Req) returns (Req); }\n")}),
    "service-like-import": ("py", {"q/v1/t.proto": P(RR), "s.proto": P('import "q/v1/t.proto";\nservice Req { rpc A(q.v1.Req) returns (q.v1.Req); }\n', "package k;\n")}),
    "service-like-import-google": ("google", {"q/v1/t.proto": P(RR), "s.proto": P('import "q/v1/t.proto";\nservice Req { rpc A(q.v1.Req) returns (q.v1.Req); }\n', "package k;\n")}),
    "service-like-helper": ("py", {"s.proto": P(RR + "service Code { rpc A(Req) returns (Req); }\nservice ConnectError { rpc A(Req) returns (Req); }\n")}),
    "no-package": ("py", {"s.proto": P(RR + "service S { rpc A(Req) returns (Req); }\n", "")}),
    "no-service": ("py", {"s.proto": P(RR)}),
    "keyword-everything": ("py", {"class/import.proto": P("message None { string s = 1; int32 n = 2; message True { string s = 1; } }\nservice class { rpc Import(.for.in.None) returns (stream .for.in.None.True); rpc None(stream .for.in.None) returns (.for.in.None); }\n", "package for.in;\n")}),
}


def special(rec, rng, idx):
    name = list(SPECIAL)[idx % len(SPECIAL)]
    mode, text = SPECIAL[name]
    res = cgen.forked(text, mode, None, idx, False)
    if judge(rec, res, {"special": name, "files": text, "mode": mode}, f"special:{name}"):
        rec.nontrivial(name)


WORKLOADS = {
    "special": Workload(special, len(SPECIAL), len(SPECIAL)),
    "random_files": Workload(random_files, 400, 12000),
}
