"""Random proto files, and what a forked child observes of the code that the real plugin generates for them."""
from __future__ import annotations

import ast
import asyncio
import importlib
import importlib.util
import inspect
import io
import json
import keyword
import os
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import typing
import warnings

from connectrpc.code import Code
from connectrpc.codec import proto_binary_codec, proto_json_codec
from connectrpc.compression.gzip import GzipCompression
from connectrpc.compression.zstd import ZstdCompression
from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel
from connectrpc.protocol import ProtocolType
from connectrpc.request import Headers, RequestContext

from . import bridge, vloop, vtime

HELPERS = ["Code", "ConnectError", "Headers", "Protocol", "Endpoint", "EndpointSync", "MethodInfo", "IdempotencyLevel", "Client", "SyncClient", "Iterator",
           "AsyncIterator", "Iterable", "Mapping", "AsyncGenerator", "Codec", "Compression", "Interceptor", "InterceptorSync", "RequestContext", "TYPE_CHECKING",
           "ConnectClient", "ConnectClientSync", "ConnectASGIApplication", "ConnectWSGIApplication", "ProtocolType", "GzipCompression",
           "google_protobuf_codecs", "google_protobuf_binary_codec", "Message", "Any"]
WORDS = ["Get", "List", "User", "Item", "HTTP", "URL", "V2", "Do", "A", "Async", "Foo", "Bar", "X", "ID", "Sync", "Say", "Watch", "Stream", "2", "S3", "Éx"]
KEYWORD_RPCS = ["Class", "Import", "Yield", "Def", "Async", "Await", "Lambda", "Pass", "Return", "In", "Is", "From", "Global", "class", "import", "None", "True",
                "Match", "Type", "Print", "Self", "Request", "Ctx", "Headers", "TimeoutMs", "UseGet", "Service", "Svc", "Method", "Super", "Object", "Str", "Property",
                "Path", "Address", "Init", "Call", "Name", "Codec", "Execute", "Send", "Open", "Start", "Enter", "Exit", "Timeout"]
KINDS = ["", "stream_in", "stream_out", "bidi"]
RESERVED = {"close", "execute_unary", "execute_client_stream", "execute_server_stream", "execute_bidi_stream"}
WKTS = {"google.protobuf.Empty": "empty", "google.protobuf.Timestamp": "timestamp", "google.protobuf.Any": "any", "google.protobuf.StringValue": "wrappers",
        "google.protobuf.Struct": "struct", "google.protobuf.FieldMask": "field_mask", "google.protobuf.Duration": "duration"}
EVIL = ['"""', "'''", '"""\nimport os\nos.environ["VERIF_CANARY"] = "1"\n"""', "\\", "\\\\N{", '"""); import os; os.environ["VERIF_CANARY"] = "1"', "*/ /*", "\x0cpass", "a\rimport os\ros.environ['VERIF_CANARY'] = '1'",
        "\u2028import os", "\x85pass", "{x} %s {{", "# type: ignore", "fmt: on", "\ttabs", "}", "\u202e bidi", "-*- coding: latin-1 -*-", "''' + 1", "plain words", "@property", "\\\"\"\"", "\x1a", "é 你"]


def snake(n: str) -> str:
    """The Python name of an RPC (written from the observed convention, not from the code)."""
    low, up = "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    out = ""
    for i, c in enumerate(n):
        if c in up and i > 0 and n[i - 1] != "_" and (n[i - 1] in low or (i + 1 < len(n) and n[i + 1] in low)):
            out += "_"
        out += c
    return out.lower()


def escape(n: str) -> str:
    return n + "_" if keyword.iskeyword(n.rstrip("_")) else n


def local(n: str) -> str:
    return escape(snake(n))


def out_path(proto: str) -> str:
    parts = [re.sub(r"[^a-zA-Z0-9_]", "_", x) for x in proto.removesuffix(".proto").split("/")]
    return "/".join(escape(x) for x in parts) + "_connect.py"


# --------------------------------------------------------------------------- generating proto files
class Files:
    def __init__(self, rng: random.Random, google: bool) -> None:
        self.rng, self.google = rng, google
        self.text: dict[str, str] = {}
        self.messages: dict[str, list[str]] = {}   # path -> full names
        self.features: set = set()
        n = rng.choice([1, 1, 2, 3, 4])
        pkgs = ["", "zz", "zz.v1", "zz.v1", "yy.v1", "yy.sub.v2", "zz.v1.inner"]
        dirs = ["", "zz/v1", "zz/v1", "yy", "zz/v1/deep", "x-y", "a_b"] + ([] if google else ["class", "import/v1", "None"])
        bases = ["svc", "types", "svc-two", "my.api", "m", "os", "typing", "connect", "client", "status"] + ([] if google else ["class", "lambda"])
        for i in range(n):
            d, b = rng.choice(dirs), rng.choice(bases)
            path = (d + "/" if d else "") + f"{b}.proto"
            if path in self.text or any(out_path(path) == out_path(p) for p in self.text):
                continue
            self.text[path] = self.file(path, rng.choice(pkgs), i == n - 1 or rng.random() < 0.6)

    def comment(self, ind: str) -> str:
        if self.rng.random() > 0.35:
            return ""
        t = self.rng.choice(EVIL)
        self.features.add("comment")
        if self.rng.random() < 0.5:
            return "".join(f"{ind}// {x}\n" for x in t.split("\n"))
        return f"{ind}/* {t.replace('*/', '* /').replace('/*', '/ *')} */\n"

    def mname(self, used: set) -> str:
        r = self.rng
        while True:
            x = r.random()
            if x < 0.35:
                n = "".join(r.choice(WORDS[:-1]) for _ in range(r.randint(1, 2)))
                if n[0].isdigit():
                    continue
            elif x < 0.6:
                n = r.choice(HELPERS)
                self.features.add("helper-named message")
            elif x < 0.75:
                n = r.choice(["Req", "Resp", "Shared", "Item", "GreeterClient", "Greeter", "GreeterSync", "UserASGIApplication", "Status"])
            elif x < 0.85 and not self.google:
                n = r.choice(["None", "True", "False", "int", "str", "dict", "class", "lambda", "list", "yield"])
                self.features.add("keyword message")
            else:
                n = r.choice(["Msg", "Data", "Hello_World", "m", "ABC", "X1"])
            if n not in used:
                used.add(n)
                return n

    def message(self, full_prefix: str, used: set, depth: int, ind: str, p2: bool, names: list) -> str:
        r = self.rng
        n = self.mname(used)
        full = full_prefix + n
        names.append(full)
        lab = "optional " if p2 else ""
        out = self.comment(ind) + f"{ind}message {n} {{\n{ind}  {lab}string s = 1;\n{ind}  {lab}int32 n = 2;\n"
        if depth < 3 and r.random() < 0.35:
            sub = {n, "s", "n"}
            for _ in range(r.randint(1, 2)):
                out += self.message(full + ".", sub, depth + 1, ind + "  ", p2, names)
            self.features.add("nested")
        return out + f"{ind}}}\n"

    def file(self, path: str, pkg: str, with_services: bool) -> str:
        r = self.rng
        syntax = r.choice(["proto3", "proto3", "proto3", "proto2", "editions"])
        out = self.comment("") + ("" if r.random() < 0.8 else "\n")
        out += 'edition = "2023";\n' if syntax == "editions" else f'syntax = "{syntax}";\n'
        out += self.comment("")
        if pkg:
            out += f"package {pkg};\n"
        imported = []
        for p in list(self.text):
            if r.random() < 0.8:
                out += f'import {"public " if r.random() < 0.2 else ""}"{p}";\n'
                imported += self.messages[p]
        wk = [w for w in WKTS if r.random() < 0.2]
        for f in sorted({WKTS[w] for w in wk}):
            out += f'import "google/protobuf/{f}.proto";\n'
        prefix = pkg + "." if pkg else ""
        used = {m[len(prefix):] for ms in self.messages.values() for m in ms if m.startswith(prefix)}
        used |= {s for s in getattr(self, "svc_names", set())}
        # a message must not be named like (the first component of) a package
        used |= {"zz", "yy", "v1", "sub", "v2", "inner"}
        names: list[str] = []
        body = ""
        for _ in range(r.randint(1, 4)):
            body += self.message(prefix, used, 0, "", syntax == "proto2", names)
        self.messages[path] = names
        types = names * 2 + imported + wk
        if len({t.rsplit(".", 1)[-1] for t in types}) < len(set(types)):
            self.features.add("same short name twice")
        if with_services:
            taken: set[str] = set()
            for _ in range(r.choice([1, 1, 2, 3])):
                sv = r.choice(["Greeter", "User", "Status", "Item", "Req", "FooService", "A", "V2", "Async", "Hello_World", "lower", r.choice(HELPERS), r.choice(HELPERS)])
                if sv in ("TYPE_CHECKING",):
                    continue
                derived = {sv + x for x in ("", "Sync", "Client", "ClientSync", "ASGIApplication", "WSGIApplication")}
                if sv in used or derived & taken:
                    continue
                if sv in HELPERS:
                    self.features.add("helper-named service")
                if derived & {t.rsplit(".", 1)[-1] for t in types}:
                    self.features.add("service named like a message")
                used.add(sv)
                self.svc_names = getattr(self, "svc_names", set()) | {sv}
                taken |= derived
                body += self.comment("") + f"service {sv} {{\n"
                meths: set[str] = set()
                for _ in range(r.choice([0, 1, 2, 3, 6])):
                    x = r.random()
                    if x < 0.6:
                        m = "".join(r.choice(WORDS[:-1]) for _ in range(r.randint(1, 3)))
                    elif x < 0.85:
                        m = r.choice(KEYWORD_RPCS)
                        self.features.add("special rpc name")
                    else:
                        m = r.choice(["get_foo", "listItems", "Get_Foo", "GET", "x", "fooBAR", "SayHTTP2Now", "A1B2", "_Hidden", "Trailing_", "UPPER_CASE"])
                    if m[0].isdigit() or local(m) in meths or local(m) in RESERVED or snake(m) in meths:
                        continue
                    meths |= {local(m), snake(m)}
                    i, o = r.choice(types), r.choice(types)
                    k = r.choice(KINDS)
                    body += self.comment("  ")
                    opts = ""
                    idem = r.choice(["", "", "NO_SIDE_EFFECTS", "IDEMPOTENT", "IDEMPOTENCY_UNKNOWN"])
                    if idem:
                        opts += f"    option idempotency_level = {idem};\n"
                    if r.random() < 0.2:
                        opts += "    option deprecated = true;\n"
                    body += (f"  rpc {m}({'stream ' if k in ('stream_in', 'bidi') else ''}.{i}) returns ({'stream ' if k in ('stream_out', 'bidi') else ''}.{o})"
                             + (f" {{\n{opts}  }}\n" if opts else ";\n"))
                if not meths:
                    self.features.add("service without methods")
                if r.random() < 0.2:
                    body += "  option deprecated = true;\n"
                body += "}\n" + self.comment("")
        return out + body


# --------------------------------------------------------------------------- what the child does
class Bad(Exception):
    def __init__(self, sig: str, detail=None) -> None:
        super().__init__(sig)
        self.sig, self.detail = sig, detail


def plugin(main, request: bytes) -> bytes:
    """Runs a protoc plugin's entry point as protoc would, in this process."""
    class In:
        buffer = io.BytesIO(request)

    class Out:
        buffer = io.BytesIO()

        def write(self, s):
            pass

        def flush(self):
            pass
    old = sys.stdin, sys.stdout, sys.argv
    sys.stdin, sys.stdout, sys.argv = In, Out(), ["plugin"]
    try:
        main()
        return Out.buffer.getvalue()
    except SystemExit:
        return Out.buffer.getvalue()
    finally:
        sys.stdin, sys.stdout, sys.argv = old


def norm_ast(src: str) -> str:
    t = ast.parse(src)
    for n in ast.walk(t):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body[0].value.value = ""
    return ast.dump(t)


class Child:
    def __init__(self, tmp: str, text: dict, mode: str, io_opt: str | None, seed, deep: bool) -> None:
        self.tmp, self.text, self.mode, self.io, self.rng, self.deep = tmp, text, mode, io_opt, random.Random(seed), deep
        self.ev: dict[str, int] = {}
        self.seen: list = []

    def count(self, k: str, n: int = 1) -> None:
        self.ev[k] = self.ev.get(k, 0) + n

    def check(self, cond, sig: str, detail=None) -> None:
        self.count("checks")
        if not cond:
            raise Bad(sig, detail)

    def run(self) -> dict:
        import grpc_tools
        from google.protobuf import descriptor_pb2
        from google.protobuf.compiler import plugin_pb2
        from grpc_tools import protoc
        self.pp = plugin_pb2
        src, self.root = os.path.join(self.tmp, "in"), os.path.join(self.tmp, "genroot")
        os.makedirs(self.root)
        for p, t in self.text.items():
            f = os.path.join(src, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w", encoding="utf-8", newline="") as fh:
                fh.write(t)
        ds = os.path.join(self.tmp, "ds.bin")
        args = ["protoc", "-I" + src, "-I" + os.path.join(os.path.dirname(grpc_tools.__file__), "_proto"), "--descriptor_set_out=" + ds,
                "--include_imports", "--include_source_info"]
        if self.mode == "google":
            args.append("--python_out=" + self.root)
        if protoc.main([*args, *self.text]) != 0:
            return {"skip": "protoc refuses it"}
        fds = descriptor_pb2.FileDescriptorSet.FromString(open(ds, "rb").read())
        self.files = {f.name: f for f in fds.file}
        self.count("files_compiled", len(self.text))
        targets = list(self.text)
        self.targets = targets
        import protoc_gen_connectrpc
        gen = self.generate(protoc_gen_connectrpc.main, fds.file, targets, self.param())
        self.expected_files(gen)
        self.determinism(protoc_gen_connectrpc.main, fds.file, targets, gen)
        if self.mode == "py":
            import protoc_gen_py
            try:
                pb = self.generate(protoc_gen_py.main, fds.file, targets, "", "protoc-gen-py")
            except Bad:
                return {"skip": "protoc-gen-py refuses it"}
            self.write(pb)
        self.write(gen)
        # The code for google.protobuf imports its own messages relatively and others from the root.
        sys.path[0:0] = [self.tmp] if self.mode == "py" else [self.root, self.tmp]
        pre = "genroot." if self.mode == "py" else ""
        mods = {}
        # the message modules belong to the message library: when they do not import, there is nothing to judge here
        try:
            for m in self.message_modules(pre):
                importlib.import_module(m)
        except Exception as e:  # noqa: BLE001
            return {"skip": f"messages do not import: {e!r}"[:300]}
        self.classes = self.message_classes(pre)
        warnings.simplefilter("error")
        for path in sorted(gen):
            m = (pre if "/" in path else "genroot.") + path.removesuffix(".py").replace("/", ".")
            try:
                compile(gen[path], path, "exec", dont_inherit=True)
            except (SyntaxError, ValueError) as e:
                raise Bad("does-not-compile", {"file": path, "error": repr(e), "code": gen[path][:1500]}) from None
            try:
                mods[path] = importlib.import_module(m)
            except BaseException as e:  # noqa: BLE001
                raise Bad("does-not-import", {"file": path, "error": repr(e), "code": gen[path][:1500]}) from None
            self.count("modules_imported")
        self.check("VERIF_CANARY" not in os.environ, "comment-executed")
        for name in targets:
            f = self.files[name]
            if f.service:
                self.services(f, mods[out_path(name)], gen[out_path(name)])
        return {}

    def param(self) -> str:
        ps = []
        if self.mode == "google":
            ps.append("protobuf=google")
        elif self.rng.random() < 0.2:
            ps.append("protobuf=py")
        if self.io:
            ps.append(f"io={self.io}")
        self.rng.shuffle(ps)
        return ",".join(ps)

    def request(self, files, targets, param):
        return self.pp.CodeGeneratorRequest(file_to_generate=targets, parameter=param, proto_file=files)

    def generate(self, main, files, targets, param, who="protoc-gen-connectrpc") -> dict[str, str]:
        resp = self.pp.CodeGeneratorResponse.FromString(plugin(main, self.request(files, targets, param).SerializeToString()))
        self.count("plugin_runs")
        if resp.error:
            raise Bad("generation-fails", {"who": who, "error": resp.error[-600:]})
        out = {}
        for f in resp.file:
            self.check(f.name not in out, "file-generated-twice", f.name)
            out[f.name] = f.content
        return out

    def write(self, gen) -> None:
        for p, c in gen.items():
            f = os.path.join(self.root, p)
            if not os.path.realpath(f).startswith(os.path.realpath(self.root) + os.sep):
                raise Bad("path-outside-output", p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w", encoding="utf-8", newline="") as fh:
                fh.write(c)

    def expected_files(self, gen) -> None:
        want = sorted(out_path(t) for t in self.targets if self.files[t].service)
        have = sorted(p for p in gen if p.endswith("_connect.py"))
        self.check(want == have, "files", {"want": want, "have": have})
        extra = [p for p in gen if not p.endswith("_connect.py") and not p.endswith("__init__.py")]
        self.check(not extra, "unexpected-files", extra)

    def determinism(self, main, files, targets, gen) -> None:
        con = {p: c for p, c in gen.items() if p.endswith("_connect.py")}
        g2 = self.generate(main, files, targets, self.last_param(main, files, targets, con))
        self.check(g2 == gen, "not-deterministic", {"which": [p for p in gen if g2.get(p) != gen[p]]})
        if len(targets) > 1:
            t2 = list(targets)
            self.rng.shuffle(t2)
            g2 = self.generate(main, files, t2, self._param)
            self.check({p: c for p, c in g2.items() if p.endswith("_connect.py")} == con, "depends-on-order")
            one = self.rng.choice(targets)
            g2 = self.generate(main, files, [one], self._param)
            for p, c in g2.items():
                if p.endswith("_connect.py"):
                    self.check(con.get(p) == c, "depends-on-other-files", p)
        bare = []
        for f in files:
            b = type(f)()
            b.CopyFrom(f)
            b.ClearField("source_code_info")
            bare.append(b)
        g2 = self.generate(main, bare, targets, self._param)
        for p, c in con.items():
            try:
                a, b = norm_ast(c), norm_ast(g2[p])
            except (SyntaxError, ValueError) as e:
                raise Bad("does-not-compile", {"file": p, "error": repr(e), "code": c[:1500]}) from None
            self.check(a == b, "comments-change-code", {"file": p})
        if self.deep:
            outs = []
            for hs in ("0", "1", "77"):
                r = subprocess.run([sys.executable, "-c", "from protoc_gen_connectrpc import main; main()"], input=self.request(files, targets, self._param).SerializeToString(),
                                   capture_output=True, timeout=60, env={**os.environ, "PYTHONHASHSEED": hs}, check=False)
                resp = self.pp.CodeGeneratorResponse.FromString(r.stdout)
                outs.append({f.name: f.content for f in resp.file})
                self.count("plugin_processes")
            self.check(all(o == gen for o in outs), "depends-on-process", {"which": [[p for p in gen if o.get(p) != gen[p]] for o in outs]})
            for bad in ("protobuf=foo", "io=both", "what=ever", "io", "protobuf=google=py"):
                resp = self.pp.CodeGeneratorResponse.FromString(plugin(main, self.request(files, targets, bad).SerializeToString()))
                self.check(resp.error and not resp.file, "bad-option-accepted", {"option": bad, "files": [f.name for f in resp.file]})

    def last_param(self, main, files, targets, con) -> str:
        # the parameter is part of the header comment; take it from there
        self._param = ""
        for c in con.values():
            if m := re.search(r'with parameter "([^"]*)"', c):
                self._param = m.group(1)
        return self._param

    def message_modules(self, pre) -> list[str]:
        if self.mode == "google":
            return [re.sub("-", "_", t.removesuffix(".proto")).replace("/", ".") + "_pb2" for t in self.targets]
        return [pre + out_path(t).removesuffix("_connect.py").replace("/", ".") + "_pb" for t in self.targets]

    def message_classes(self, pre) -> dict:
        out: dict = {}
        if self.mode == "google":
            from google.protobuf import descriptor_pool
            pool = descriptor_pool.Default()

            def cls(full):
                return pool.FindMessageTypeByName(full)._concrete_class
            return _Lazy(cls)
        import protobuf.wkt as wkt

        def walk(ns, depth=0):
            for v in list(vars(ns).values()):
                if isinstance(v, type) and callable(getattr(v, "desc", None)) and hasattr(v, "to_binary") and depth < 6 and v.__module__ != "protobuf._message" and v.__name__ != "Message_base":
                    if v.desc().type_name not in out:
                        out[v.desc().type_name] = v
                        walk(v, depth + 1)
        for m in self.message_modules(pre):
            walk(importlib.import_module(m))
        walk(wkt)
        for n in WKTS:
            out.setdefault(n, getattr(wkt, n.rsplit(".", 1)[-1]))
        return out

    # ---- one service
    def make(self, full: str):
        """A message with content, and its bytes."""
        import struct
        s, n = self.rng.choice(["", "x", "héllo", "y" * 300]), self.rng.choice([0, 1, 127])
        if full == "google.protobuf.Empty":
            b = b""
        elif full in ("google.protobuf.Timestamp", "google.protobuf.Duration"):
            b = b"\x08" + bytes([n]) if n else b""
        elif full == "google.protobuf.Struct":
            b = b""
        elif full == "google.protobuf.Any":
            b = b""
        elif full == "google.protobuf.FieldMask":
            b = b"\x0a\x01a"
        else:
            e = s.encode()
            ln = len(e)
            v = bytes([ln]) if ln < 128 else bytes([ln & 127 | 128, ln >> 7])
            b = (b"\x0a" + v + e if e else b"")
            if full != "google.protobuf.StringValue" and n:
                b += b"\x10" + bytes([n])
        del struct
        c = self.classes[full]
        return c.FromString(b) if self.mode == "google" else c.from_binary(b)

    def data(self, m) -> str:
        return (m.SerializeToString(deterministic=True) if self.mode == "google" else bytes(m.to_binary())).hex()

    def services(self, f, mod, src) -> None:
        want: set = set()
        for sd in f.service:
            base = escape(sd.name)
            a = [base, base + "ASGIApplication", base + "Client"]
            s = [base + "Sync", base + "WSGIApplication", base + "ClientSync"]
            for names, on in ((a, self.io in (None, "async")), (s, self.io in (None, "sync"))):
                for n in names:
                    c = getattr(mod, n, None)
                    here = isinstance(c, type) and c.__module__ == mod.__name__
                    self.check(here == on, "class-missing" if on else "class-not-wanted", {"name": n, "is": repr(c), "io": self.io, "code": src[:800]})
                    if on:
                        want.add(n)
        defined = {n for n, v in vars(mod).items() if isinstance(v, type) and v.__module__ == mod.__name__}
        self.check(defined == want, "other-classes", {"more": sorted(defined - want)})
        typed = self.typed_copy(mod)
        for sd in f.service:
            full = (f.package + "." if f.package else "") + sd.name
            ms = []
            for m in sd.method:
                ms.append((m.name, local(m.name), "bidi" if m.client_streaming and m.server_streaming else "client_stream" if m.client_streaming else "server_stream" if m.server_streaming else "unary",
                           m.input_type[1:], m.output_type[1:], {0: "UNKNOWN", 1: "NO_SIDE_EFFECTS", 2: "IDEMPOTENT"}[m.options.idempotency_level]))
            self.seen.append((sd.name, [x[2:] for x in ms], self.mode))
            for is_async in (True, False):
                if self.io in (None, "async" if is_async else "sync"):
                    self.shapes(mod, typed, escape(sd.name), ms, is_async)
                    self.talk(mod, escape(sd.name), full, ms, is_async)
            self.count("services")

    def typed_copy(self, mod):
        """The module again, with its type-only imports carried out."""
        spec = importlib.util.spec_from_file_location(mod.__name__ + "_typed", mod.__file__)
        m = importlib.util.module_from_spec(spec)
        m.__package__ = mod.__package__
        old = typing.TYPE_CHECKING
        typing.TYPE_CHECKING = True
        try:
            spec.loader.exec_module(m)
        except BaseException as e:  # noqa: BLE001
            raise Bad("type-imports", repr(e)) from None
        finally:
            typing.TYPE_CHECKING = old
        return m

    def shapes(self, mod, typed, base, ms, is_async) -> None:
        import collections.abc as cabc
        it = cabc.AsyncIterator if is_async else cabc.Iterator
        svc, cli, app = (getattr(typed, base + x) for x in (("", "Client", "ASGIApplication") if is_async else ("Sync", "ClientSync", "WSGIApplication")))
        self.check(getattr(svc, "_is_protocol", False), "not-a-protocol", svc.__name__)
        have = {n for n, v in vars(svc).items() if inspect.isfunction(v) and not n.startswith(("__", "_no_init", "_proto"))}
        # Protocol classes carry a few functions of typing's own
        have = {n for n in have if vars(svc)[n].__module__ == typed.__name__}
        self.check(have == {m[1] for m in ms}, "method-names", {"class": svc.__name__, "have": sorted(have), "want": sorted(m[1] for m in ms)})
        have = {n for n, v in vars(cli).items() if inspect.isfunction(v) and n != "__init__"}
        self.check(have == {m[1] for m in ms}, "method-names", {"class": cli.__name__, "have": sorted(have), "want": sorted(m[1] for m in ms)})
        for name, loc, kind, i, o, idem in ms:
            sf, cf = vars(svc)[loc], vars(cli)[loc]
            sp = inspect.signature(sf).parameters
            self.check(list(sp) == ["self", "request", "ctx"], "handler-signature", {"rpc": name, "have": list(sp)})
            cp = inspect.signature(cf).parameters
            get = kind == "unary" and idem == "NO_SIDE_EFFECTS"
            w = ["self", "request", "headers", "timeout_ms"] + (["use_get"] if get else [])
            self.check(list(cp) == w and all(cp[x].kind == inspect.Parameter.KEYWORD_ONLY for x in w[2:]) and cp["headers"].default is None
                       and cp["timeout_ms"].default is None and (not get or cp["use_get"].default is False), "client-signature", {"rpc": name, "have": str(cp), "want": w})
            co = is_async and kind in ("unary", "client_stream")
            self.check(inspect.iscoroutinefunction(sf) == co and inspect.iscoroutinefunction(cf) == co, "async-ness", {"rpc": name, "kind": kind})
            ic, oc = self.classes[i], self.classes[o]
            try:
                sh, ch = typing.get_type_hints(sf), typing.get_type_hints(cf)
            except Exception as e:  # noqa: BLE001
                raise Bad("annotations-do-not-resolve", {"rpc": name, "error": repr(e)}) from None
            wi = ic if kind in ("unary", "server_stream") else it[ic]
            wo = oc if kind in ("unary", "client_stream") else it[oc]
            for h, who in ((sh, "handler"), (ch, "client")):
                self.check(h.get("request") == wi and h.get("return") == wo, "annotations", {"rpc": name, "who": who, "have": repr(h), "want": [repr(wi), repr(wo)]})
            self.check(sh.get("ctx") == RequestContext[ic, oc], "annotations", {"rpc": name, "have": repr(sh.get("ctx"))})
            self.check(set(typing.get_args(ch.get("headers"))) == {Headers, cabc.Mapping[str, str], type(None)}, "annotations", {"rpc": name, "have": repr(ch.get("headers"))})
            self.count("methods_inspected")
        try:
            typing.get_type_hints(app.__init__)
            if "__init__" in vars(cli):
                typing.get_type_hints(cli.__init__)
        except Exception as e:  # noqa: BLE001
            raise Bad("annotations-do-not-resolve", {"class": base, "error": repr(e)}) from None

    def talk(self, mod, base, full, ms, is_async) -> None:
        """The generated client and application talk to each other."""
        svc, cli, app = (getattr(mod, base + x) for x in (("", "Client", "ASGIApplication") if is_async else ("Sync", "ClientSync", "WSGIApplication")))
        calls: list = []
        ns: dict = {}
        for name, loc, kind, i, o, idem in ms:
            ns[loc] = self.handler(calls, name, kind, o, is_async)
        H = type("H", (svc,), ns)
        E = type("Empty", (svc,), {})
        google = self.mode == "google"

        def check_app(a):
            self.check(a.path == "/" + full, "path", {"have": a.path, "want": "/" + full})
        a = app(H())
        check_app(a)
        e = app(E())
        per = [(m, self.rng.choice(list(ProtocolType)), m[2] == "unary" and m[5] == "NO_SIDE_EFFECTS" and self.rng.random() < 0.7) for m in ms]

        if is_async:
            async def main():
                for m, proto, get in per:
                    tr = bridge.AsgiBridge(a, bridge.Plan())
                    try:
                        async with cli("http://x.test", protocol=proto, http_client=bridge_client(tr, True)) as c:
                            await self.one_async(c, calls, full, m, tr, get and proto == ProtocolType.CONNECT)
                    except (TypeError, AttributeError) as x:
                        raise Bad("client-does-not-close", repr(x)) from x
                    tr = bridge.AsgiBridge(e, bridge.Plan())
                    await self.empty_async(cli("http://x.test", protocol=proto, http_client=bridge_client(tr, True)), m)
            rep = vloop.run(main)
            if rep.exc is not None:
                raise rep.exc if isinstance(rep.exc, Bad) else Bad("call-fails", {"service": full, "error": repr(rep.exc)})
            self.check(not rep.deadlock, "call-hangs", full)
        else:
            with vtime.activate(vtime.Clock()):
                for m, proto, get in per:
                    tr = bridge.WsgiBridge(a, bridge.Plan())
                    try:
                        with cli("http://x.test", protocol=proto, http_client=bridge_client(tr, False)) as c:
                            self.one_sync(c, calls, full, m, tr, get and proto == ProtocolType.CONNECT)
                    except (TypeError, AttributeError) as x:
                        raise Bad("client-does-not-close", repr(x)) from x
                    tr = bridge.WsgiBridge(e, bridge.Plan())
                    self.empty_sync(cli("http://x.test", protocol=proto, http_client=bridge_client(tr, False)), m)
        if ms:
            self.options(app, cli, H, calls, ms, is_async, google)

    def handler(self, calls, name, kind, o, is_async):
        me = self

        def note(ctx, reqs):
            calls.append((name, ctx.method, ctx.http_method, reqs))
        if is_async:
            if kind == "unary":
                async def fn(self, request, ctx):
                    note(ctx, [request])
                    return me.reply(name, o)
            elif kind == "client_stream":
                async def fn(self, request, ctx):
                    note(ctx, [x async for x in request])
                    return me.reply(name, o)
            elif kind == "server_stream":
                async def fn(self, request, ctx):
                    note(ctx, [request])
                    for _ in range(2):
                        yield me.reply(name, o)
            else:
                async def fn(self, request, ctx):
                    note(ctx, [x async for x in request])
                    for _ in range(2):
                        yield me.reply(name, o)
        elif kind == "unary":
            def fn(self, request, ctx):
                note(ctx, [request])
                return me.reply(name, o)
        elif kind == "client_stream":
            def fn(self, request, ctx):
                note(ctx, list(request))
                return me.reply(name, o)
        elif kind == "server_stream":
            def fn(self, request, ctx):
                note(ctx, [request])
                for _ in range(2):
                    yield me.reply(name, o)
        else:
            def fn(self, request, ctx):
                note(ctx, list(request))
                for _ in range(2):
                    yield me.reply(name, o)
        return fn

    def reply(self, name, o):
        key = ("reply", o)
        if not hasattr(self, "_replies"):
            self._replies = {}
        if key not in self._replies:
            self._replies[key] = self.make(o)
        return self._replies[key]

    def judge(self, calls, full, m, sent, got, tr, get) -> None:
        name, loc, kind, i, o, idem = m
        self.count("calls")
        self.check(len(calls) == 1, "handler-runs", {"rpc": name, "runs": [c[0] for c in calls]})
        who, info, http, reqs = calls.pop()
        self.check(who == name, "wrong-method", {"called": name, "ran": who})
        self.check([self.data(x) for x in reqs] == [self.data(x) for x in sent] and all(type(x) is self.classes[i] for x in reqs), "request", {"rpc": name, "have": repr(reqs)[:200]})
        want = [self.reply(name, o)] * (2 if kind in ("server_stream", "bidi") else 1)
        self.check([self.data(x) for x in got] == [self.data(x) for x in want] and all(type(x) is self.classes[o] for x in got), "response", {"rpc": name, "have": repr(got)[:200]})
        self.check((info.name, info.service_name, info.input, info.output, info.idempotency_level) ==
                   (name, full, self.classes[i], self.classes[o], IdempotencyLevel[idem]), "method-info", {"rpc": name, "have": repr(info), "want": [name, full, i, o, idem]})
        ex = tr.exchanges[-1]
        self.check(ex.url.split("?")[0] == f"http://x.test/{full}/{name}", "url", {"have": ex.url})
        self.check(ex.method == ("GET" if get else "POST") == http, "http-method", {"rpc": name, "have": [ex.method, http], "get": get})

    def kw(self, get) -> dict:
        kw: dict = {}
        if get:
            kw["use_get"] = True
        if self.rng.random() < 0.3:
            kw["headers"] = {"x-a": "1"}
        if self.rng.random() < 0.3:
            kw["timeout_ms"] = 100000
        return kw

    def sends(self, m) -> list:
        return [self.make(m[3]) for _ in range(self.rng.choice([0, 1, 3]) if m[2] in ("client_stream", "bidi") else 1)]

    async def one_async(self, c, calls, full, m, tr, get) -> None:
        sent = self.sends(m)
        kw = self.kw(get)

        async def gen():
            for x in sent:
                yield x
        try:
            r = getattr(c, m[1])(gen() if m[2] in ("client_stream", "bidi") else sent[0], **kw)
            got = [await r] if m[2] in ("unary", "client_stream") else [x async for x in r]
        except Exception as e:  # noqa: BLE001
            raise Bad("call-fails", {"rpc": m, "error": repr(e)}) from e
        self.wire_kw(tr, kw)
        self.judge(calls, full, m, sent, got, tr, get)

    def one_sync(self, c, calls, full, m, tr, get) -> None:
        sent = self.sends(m)
        kw = self.kw(get)
        try:
            r = getattr(c, m[1])(iter(sent) if m[2] in ("client_stream", "bidi") else sent[0], **kw)
            got = [r] if m[2] in ("unary", "client_stream") else list(r)
        except Exception as e:  # noqa: BLE001
            raise Bad("call-fails", {"rpc": m, "error": repr(e)}) from e
        self.wire_kw(tr, kw)
        self.judge(calls, full, m, sent, got, tr, get)

    def wire_kw(self, tr, kw) -> None:
        h = {k.lower(): v for k, v in tr.exchanges[-1].req_headers}
        self.check(("x-a" in h) == ("headers" in kw) and ("connect-timeout-ms" in h or "grpc-timeout" in h) == ("timeout_ms" in kw), "call-arguments", {"have": h, "given": list(kw)})

    async def empty_async(self, c, m) -> None:
        async def gen():
            yield self.make(m[3])
        try:
            r = getattr(c, m[1])(gen() if m[2] in ("client_stream", "bidi") else self.make(m[3]))
            got = [await r] if m[2] in ("unary", "client_stream") else [x async for x in r]
        except ConnectError as e:
            self.check(e.code == Code.UNIMPLEMENTED, "default-implementation", {"rpc": m, "have": repr(e)})
            return
        raise Bad("default-implementation", {"rpc": m, "have": repr(got)})

    def empty_sync(self, c, m) -> None:
        try:
            r = getattr(c, m[1])(iter([self.make(m[3])]) if m[2] in ("client_stream", "bidi") else self.make(m[3]))
            got = [r] if m[2] in ("unary", "client_stream") else list(r)
        except ConnectError as e:
            self.check(e.code == Code.UNIMPLEMENTED, "default-implementation", {"rpc": m, "have": repr(e)})
            return
        raise Bad("default-implementation", {"rpc": m, "have": repr(got)})

    # ---- arguments of the generated constructors
    def options(self, app, cli, H, calls, ms, is_async, google) -> None:
        """Every argument of the generated constructors takes effect."""
        m = self.rng.choice(ms)
        seen: list = []
        if google:
            from connectrpc.compat import google_protobuf_binary_codec, google_protobuf_codecs, google_protobuf_json_codec
            jc, bc = google_protobuf_json_codec(), google_protobuf_binary_codec()
            full_codecs = list(google_protobuf_codecs())
            self.check(len(full_codecs) >= 2, "codecs", len(full_codecs))
        else:
            jc, bc = proto_json_codec(), proto_binary_codec()

        class I:  # noqa: E742
            def __init__(self, tag):
                self.tag = tag

            async def on_start(self, ctx):
                seen.append(self.tag)

            async def on_end(self, token, ctx, error):
                pass

            def on_start_sync(self, ctx):
                seen.append(self.tag)

            def on_end_sync(self, token, ctx, error):
                pass

        def trans(a):
            return bridge.AsgiBridge(a, bridge.Plan()) if is_async else bridge.WsgiBridge(a, bridge.Plan())

        def call(a, **kw):
            calls.clear()
            seen.clear()
            tr = trans(a)
            c = cli("http://x.test", http_client=bridge_client(tr, is_async), **kw)
            err = None
            n = 1

            async def amain():
                async def gen():
                    for _ in range(n):
                        yield self.make(m[3])
                r = getattr(c, m[1])(gen() if m[2] in ("client_stream", "bidi") else self.make(m[3]))
                return [await r] if m[2] in ("unary", "client_stream") else [x async for x in r]
            try:
                if is_async:
                    rep = vloop.run(amain)
                    if rep.exc is not None:
                        raise rep.exc
                else:
                    with vtime.activate(vtime.Clock()):
                        r = getattr(c, m[1])(iter([self.make(m[3])] * n) if m[2] in ("client_stream", "bidi") else self.make(m[3]))
                        if m[2] not in ("unary", "client_stream"):
                            list(r)
            except ConnectError as e:
                err = e
            except Exception as e:  # noqa: BLE001
                raise Bad("constructor-argument", {"given": list(kw), "error": repr(e)}) from e
            self.count("constructor_calls")
            ex = tr.exchanges[-1] if tr.exchanges else None
            return err, ({k.lower(): v for k, v in ex.req_headers} if ex else {}), (dict((k.lower(), v) for k, v in ex.resp()[1]) if ex and ex.monitor else {})

        def ok(err, what):
            self.check(err is None, "constructor-argument", {"what": what, "rpc": m, "error": repr(err)})
        try:
            plain = app(H())
            err, q, r = call(plain)
            ok(err, "none")
            self.check("proto" in q["content-type"] and (q.get("content-encoding") or q.get("connect-content-encoding")) == "gzip", "defaults", q)
            err, q, r = call(plain, codec=jc)
            ok(err, "codec")
            self.check("json" in q["content-type"], "argument-codec", q)
            if not google:
                err, q, r = call(plain, codec=None)
                ok(err, "codec=None")
            err, q, r = call(plain, send_compression=None)
            ok(err, "send_compression")
            self.check({q.get("content-encoding"), q.get("connect-content-encoding")} <= {None, "identity"}, "argument-send_compression", q)
            err, q, r = call(plain, send_compression=GzipCompression())
            ok(err, "send_compression")
            err, q, r = call(plain, accept_compression=[GzipCompression()])
            ok(err, "accept_compression")
            acc = (q.get("accept-encoding") if m[2] == "unary" else q.get("connect-accept-encoding")) or ""
            self.check({x.strip() for x in acc.split(",")} - {"identity"} == {"gzip"}, "argument-accept_compression", q)
            err, q, r = call(plain, timeout_ms=54321)
            ok(err, "timeout_ms")
            self.check(q.get("connect-timeout-ms", "").startswith("54"), "argument-timeout_ms", q)
            err, q, r = call(plain, protocol=ProtocolType.GRPC)
            ok(err, "protocol")
            self.check(q["content-type"].startswith("application/grpc"), "argument-protocol", q)
            err, q, r = call(plain, interceptors=[I("c")])
            ok(err, "interceptors")
            self.check(seen == ["c"], "argument-interceptors", seen)
            err, q, r = call(app(H(), interceptors=[I("s")]))
            ok(err, "app interceptors")
            self.check(seen == ["s"], "argument-interceptors", seen)
            err, q, r = call(app(H(), codecs=[jc]))
            self.check(err is not None, "argument-codecs", "binary accepted")
            err, q, r = call(app(H(), codecs=[jc]), codec=jc)
            ok(err, "codecs")
            err, q, r = call(app(H(), codecs=None if not google else [bc, jc]))
            ok(err, "codecs=None")
            err, q, r = call(app(H(), compressions=[]), send_compression=GzipCompression())
            self.check(err is not None or m[3] in ("google.protobuf.Empty",) , "argument-compressions", "gzip accepted")
            err, q, r = call(app(H(), compressions=[ZstdCompression()]), send_compression=ZstdCompression(), accept_compression=[ZstdCompression()])
            ok(err, "compressions")
            big = next((t for t in (m[3], m[4]) if t not in WKTS or t == "google.protobuf.StringValue"), None)
            if big is not None:
                keep, keep_r = self.make, dict(self._replies) if hasattr(self, "_replies") else {}
                c = self.classes[big]
                b = b"\x0a\xac\x02" + b"z" * 300
                large = c.FromString(b) if google else c.from_binary(b)
                self.make = lambda t: large if t == big else keep(t)
                self._replies = {}
                try:
                    if m[3] == big:
                        err, q, r = call(app(H(), read_max_bytes=100))
                        self.check(err is not None and err.code == Code.RESOURCE_EXHAUSTED and not (calls and calls[-1][3]), "argument-read_max_bytes", repr(err))
                    err, q, r = call(app(H(), read_max_bytes=310), read_max_bytes=310)
                    ok(err, "read_max_bytes")
                    if m[4] == big:
                        err, q, r = call(plain, read_max_bytes=100)
                        self.check(err is not None and err.code == Code.RESOURCE_EXHAUSTED, "argument-read_max_bytes", repr(err))
                finally:
                    self.make, self._replies = keep, keep_r
        finally:
            calls.clear()


class _Lazy:
    def __init__(self, f) -> None:
        self.f = f

    def __getitem__(self, k):
        return self.f(k)


def bridge_client(tr, is_async):
    from pyqwest import Client, SyncClient
    return Client(transport=tr) if is_async else SyncClient(transport=tr)


def forked(text: dict, mode: str, io_opt, seed, deep: bool, limit: float = 120.0) -> dict:
    """Runs a Child in a forked process; what it saw comes back through a pipe."""
    tmp = tempfile.mkdtemp(prefix="vf-cgen-")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            c = Child(tmp, text, mode, io_opt, seed, deep)
            try:
                res = c.run()
            except Bad as e:
                res = {"bad": (e.sig, json.loads(json.dumps(e.detail, default=repr)))}
            except BaseException as e:  # noqa: BLE001
                import traceback
                res = {"error": "".join(traceback.format_exception(e))[-3000:]}
            res["ev"], res["seen"] = c.ev, c.seen
            with os.fdopen(w, "w") as fh:
                json.dump(res, fh, default=repr)
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    end = time.time() + limit
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                return {"error": "child timed out", "ev": {}, "seen": []}
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    finally:
        os.close(r)
        os.waitpid(pid, 0)
        shutil.rmtree(tmp, ignore_errors=True)
    return json.loads(buf) if buf else {"error": "child died", "ev": {}, "seen": []}
