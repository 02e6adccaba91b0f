"""An independent, strict implementation of the Connect, gRPC and gRPC-Web wire formats.

Written from the published protocols, not from the library; shares no code with it.  Used to
play the other side (write requests and responses) and to judge the bytes the library emits."""
from __future__ import annotations

from . import vtime  # isort: skip

import asyncio
import base64
import contextlib
import gzip
import json
import lzma
import re
import struct
import zlib
from dataclasses import dataclass, field
from urllib.parse import parse_qsl, unquote_to_bytes, urlencode, urlsplit

import brotli
import zstandard
from google.protobuf import json_format
from pyqwest import Headers as HH, ReadError, Response, SyncResponse, SyncTransport, Transport
from pyqwest._pyqwest import get_sync_timeout

from . import bridge
from .gen import verif_pb2 as g

PKG = "/verif.v1.Probe/"
UNARY = {"unary", "get", "idem", "nothing"}
PATHS = {"unary": "Unary", "get": "Get", "idem": "Idem", "client_stream": "ClientStream",
         "server_stream": "ServerStream", "bidi": "Bidi", "watch": "Watch", "nothing": "Nothing"}
CODES = ["canceled", "unknown", "invalid_argument", "deadline_exceeded", "not_found", "already_exists",
         "permission_denied", "resource_exhausted", "failed_precondition", "aborted", "out_of_range",
         "unimplemented", "internal", "unavailable", "data_loss", "unauthenticated"]
GRPC = {c: i + 1 for i, c in enumerate(CODES)}
GRPC_REV = {v: k for k, v in GRPC.items()}
HTTP = {"canceled": 499, "unknown": 500, "invalid_argument": 400, "deadline_exceeded": 504, "not_found": 404,
        "already_exists": 409, "permission_denied": 403, "resource_exhausted": 429, "failed_precondition": 400,
        "aborted": 409, "out_of_range": 400, "unimplemented": 501, "internal": 500, "unavailable": 503,
        "data_loss": 500, "unauthenticated": 401}
# "HTTP to error code" of the Connect specification
FROM_HTTP = {400: "internal", 401: "unauthenticated", 403: "permission_denied", 404: "unimplemented",
             429: "unavailable", 502: "unavailable", 503: "unavailable", 504: "unavailable"}


def enveloped(proto: str, kind: str) -> bool:
    return proto != "connect" or kind not in UNARY


# --------------------------------------------------------------------------- compression
def _xor(data: bytes) -> bytes:
    return b"XR" + zlib.crc32(data).to_bytes(4, "big") + bytes(b ^ 0x5A for b in data)


def _unxor(data: bytes) -> bytes:
    out = bytes(b ^ 0x5A for b in data[6:])
    if len(data) < 6 or data[:2] != b"XR" or int.from_bytes(data[2:6], "big") != zlib.crc32(out):
        raise ValueError("x-xor: damaged")
    return out


def _unxz(data: bytes) -> bytes:
    d = lzma.LZMADecompressor(lzma.FORMAT_XZ)
    try:
        out = d.decompress(data)
    except (lzma.LZMAError, EOFError) as e:
        raise ValueError(f"xz: {e}") from e
    if not d.eof or d.unused_data:
        raise ValueError("xz: incomplete or trailing data")
    return out


def _undeflate(data: bytes) -> bytes:
    d = zlib.decompressobj()
    try:
        out = d.decompress(data) + d.flush()
    except zlib.error as e:
        raise ValueError(f"deflate: {e}") from e
    if not d.eof or d.unused_data:
        raise ValueError("deflate: incomplete or trailing data")
    return out


# Algorithms a user might supply; all of them notice any damage.
CUSTOM = {"x-xor": (_xor, _unxor), "xz": (lambda b: lzma.compress(b, lzma.FORMAT_XZ, preset=0), _unxz), "deflate": (lambda b: zlib.compress(b, 1), _undeflate)}


# Bytes of extra fields put into each gzip header: a compressed form longer than what it stands for.
FAT = [0]


@contextlib.contextmanager
def fat(n: int):
    FAT[0] = n
    try:
        yield
    finally:
        FAT[0] = 0


def compress(name: str | None, data: bytes) -> bytes:
    match name:
        case "gzip":
            z = gzip.compress(data, mtime=0)
            if FAT[0]:
                z = z[:3] + b"\x04" + z[4:10] + struct.pack("<H", FAT[0]) + b"\0" * FAT[0] + z[10:]
            return z
        case "br":
            return brotli.compress(data, quality=4)
        case "zstd":
            return zstandard.ZstdCompressor().compress(data)
        case None | "identity":
            return data
    if name in CUSTOM:
        return CUSTOM[name][0](bytes(data))
    raise ValueError(name)


def decompress(name: str | None, data: bytes) -> bytes:
    """Strict: a complete stream and nothing after it, else ValueError."""
    data = bytes(data)
    try:
        match name:
            case "gzip":
                d = zlib.decompressobj(wbits=31)
                out = d.decompress(data) + d.flush()
                if not d.eof or d.unused_data:
                    raise ValueError("gzip: incomplete or trailing data")
                return out
            case "br":
                d = brotli.Decompressor()
                out = d.process(data)
                if not d.is_finished():
                    raise ValueError("brotli: incomplete")
                return out
            case "zstd":
                d = zstandard.ZstdDecompressor().decompressobj()
                out = d.decompress(data)
                if not d.eof or d.unused_data:
                    raise ValueError("zstd: incomplete or trailing data")
                return out
            case None | "identity":
                return data
    except (zlib.error, brotli.error, zstandard.ZstdError) as e:
        raise ValueError(f"{name}: {e}") from e
    if name in CUSTOM:
        return CUSTOM[name][1](data)
    raise ValueError(f"unknown compression {name}")


# --------------------------------------------------------------------------- messages
def to_google(m):
    return m if hasattr(m, "SerializeToString") else getattr(g, type(m).__name__).FromString(m.to_binary())


def encode(codec: str, m) -> bytes:
    """Bytes of a message, written by google.protobuf."""
    if isinstance(m, (bytes, bytearray)):
        return bytes(m)
    gm = to_google(m)
    if codec == "proto":
        return gm.SerializeToString(deterministic=True)
    d = json_format.MessageToDict(gm)
    # fields in the order of their numbers; map entries, which come in any order, sorted
    return json.dumps({k: json.loads(json.dumps(v, sort_keys=True)) if isinstance(v, dict) else v for k, v in d.items()}).encode()


def decode(codec: str, cls: str, data: bytes):
    t = getattr(g, cls)
    if codec == "proto":
        return t.FromString(bytes(data))
    return json_format.Parse(bytes(data).decode("utf-8"), t())


def read_msg(s: "Seen", codec: str, cls: str, data: bytes):
    """Decodes a message the library wrote; JSON must be the canonical mapping."""
    gm = decode(codec, cls, data)
    if codec == "json":
        a, b = json.loads(data), json.loads(json_format.MessageToJson(gm))
        if json.dumps(a, sort_keys=True) != json.dumps(b, sort_keys=True):
            s.bad(f"JSON that is not the canonical mapping: {a!r} instead of {b!r}"[:600])
    return gm


def canon_g(gm) -> bytes:
    return type(gm).__name__.encode() + b":" + gm.SerializeToString(deterministic=True)


def env(data: bytes, flags: int = 0) -> bytes:
    return bytes([flags]) + len(data).to_bytes(4, "big") + data


def envs(body: bytes) -> tuple[list[tuple[int, bytes]], bytes]:
    """Complete envelopes and what is left."""
    out, p = [], 0
    while len(body) - p >= 5:
        n = int.from_bytes(body[p + 1:p + 5], "big")
        if len(body) - p - 5 < n:
            break
        out.append((body[p], bytes(body[p + 5:p + 5 + n])))
        p += 5 + n
    return out, bytes(body[p:])


def b64(data: bytes, pad: bool = False) -> str:
    s = base64.b64encode(data).decode()
    return s if pad else s.rstrip("=")


def unb64(s: str) -> bytes:
    """Standard alphabet, padded or not; strict."""
    s = s.rstrip("=")
    return base64.b64decode(s + "=" * (-len(s) % 4), validate=True)


# --------------------------------------------------------------------------- errors
def _varint(n: int) -> bytes:
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def _ld(num: int, data: bytes) -> bytes:
    return _varint(num << 3 | 2) + _varint(len(data)) + data


def status_bin(code: int, message: str, details) -> bytes:
    out = b""
    if code:
        out += b"\x08" + _varint(code)
    if message:
        out += _ld(2, message.encode("utf-8"))
    for t, v in details:
        url = t if "/" in t else "type.googleapis.com/" + t
        out += _ld(3, _ld(1, url.encode()) + (_ld(2, v) if v else b""))
    return out


def _fields(data: bytes):
    p = 0

    def var():
        nonlocal p
        n = s = 0
        while True:
            b = data[p]
            p += 1
            n |= (b & 0x7F) << s
            s += 7
            if not b & 0x80:
                return n

    while p < len(data):
        k = var()
        if k & 7 == 0:
            yield k >> 3, var()
        elif k & 7 == 2:
            n = var()
            if p + n > len(data):
                raise ValueError("truncated field")
            yield k >> 3, data[p:p + n]
            p += n
        else:
            raise ValueError(f"unexpected wire type {k & 7}")


def parse_status_bin(data: bytes) -> tuple[int, str, list[tuple[str, bytes]]]:
    code, message, details = 0, "", []
    for num, v in _fields(data):
        if num == 1:
            code = v
        elif num == 2:
            message = v.decode("utf-8")
        elif num == 3:
            url, val = "", b""
            for n2, v2 in _fields(v):
                if n2 == 1:
                    url = v2.decode()
                elif n2 == 2:
                    val = v2
            details.append((url.rpartition("/")[2], val))
    return code, message, details


def pct(message: str) -> str:
    """grpc-message: only what must be encoded is (and outer spaces, which HTTP does not carry)."""
    s = "".join(chr(b) if 0x20 <= b <= 0x7E and b != 0x25 else f"%{b:02X}" for b in message.encode("utf-8"))
    n = len(s) - len(s.lstrip(" "))
    s = "%20" * n + s[n:]
    n = len(s) - len(s.rstrip(" "))
    return s[:len(s) - n] + "%20" * n if n else s


def unpct(s: str) -> str:
    if re.search(r"%(?![0-9A-Fa-f]{2})", s):
        raise ValueError("bad percent-encoding")
    if any(not 0x20 <= ord(c) <= 0x7E for c in s):
        raise ValueError("character that must be percent-encoded")
    return unquote_to_bytes(s).decode("utf-8")


def error_json(code, message: str | None, details=(), **extra) -> dict:
    d: dict = {"code": code}
    if message is not None:
        d["message"] = message
    if details:
        d["details"] = [{"type": t, "value": b64(v)} for t, v in details]
    d.update(extra)
    return d


# --------------------------------------------------------------------------- writing
@dataclass
class WireReq:
    method: str
    path: str
    headers: list
    body: bytes

    def url(self, base: str = "http://svc.test") -> str:
        return base + self.path

    def without(self, *names: str) -> "WireReq":
        return WireReq(self.method, self.path, [h for h in self.headers if h[0] not in names], self.body)

    def with_(self, *hs) -> "WireReq":
        r = self.without(*[h[0] for h in hs])
        r.headers.extend(hs)
        return r


@dataclass
class WireResp:
    status: int
    headers: list
    body: bytes
    trailers: list | None = None


def content_type(proto: str, kind: str, codec: str) -> str:
    if proto == "connect":
        return f"application/{codec}" if kind in UNARY else f"application/connect+{codec}"
    return f"application/{'grpc' if proto == 'grpc' else 'grpc-web'}+{codec}"


def frames(codec: str, msgs, comp: str | None, per_msg=None) -> bytes:
    out = b""
    for i, m in enumerate(msgs):
        data = encode(codec, m)
        c = comp if comp not in (None, "identity") and (per_msg is None or per_msg[i]) else None
        out += env(compress(c, data), 1 if c else 0)
    return out


def request(proto: str, kind: str, codec: str, msgs, *, comp: str | None = None, accept: str | None = None, headers=(),
            timeout_ms: int | None = None, get: bool = False, per_msg=None, get_plain: bool = False, version: bool = True) -> WireReq:
    path = PKG + PATHS[kind]
    hs = list(headers)
    if proto == "connect":
        if version and not get:
            hs.append(("connect-protocol-version", "1"))
        if timeout_ms is not None:
            hs.append(("connect-timeout-ms", str(timeout_ms)))
    else:
        hs.append(("te", "trailers"))
        if timeout_ms is not None:
            hs.append(("grpc-timeout", f"{timeout_ms}m"))
    if get:
        data = compress(comp, encode(codec, msgs[0]))
        q = {"connect": "v1", "encoding": codec}
        if comp:
            q["compression"] = comp
        if get_plain and not comp:
            path += "?" + urlencode({**q, "message": data.decode("utf-8")})
        else:
            path += "?" + urlencode({**q, "base64": "1", "message": base64.urlsafe_b64encode(data).decode().rstrip("=")})
        if accept is not None:
            hs.append(("accept-encoding", accept))
        return WireReq("GET", path, hs, b"")
    hs.append(("content-type", content_type(proto, kind, codec)))
    if not enveloped(proto, kind):
        if comp:
            hs.append(("content-encoding", comp))
        if accept is not None:
            hs.append(("accept-encoding", accept))
        return WireReq("POST", path, hs, compress(comp, encode(codec, msgs[0])))
    p = "connect-" if proto == "connect" else "grpc-"
    enc = "content-encoding" if proto == "connect" else "encoding"
    acc = "accept-encoding"
    if comp:
        hs.append((p + enc, comp))
    if accept is not None:
        hs.append((p + acc, accept))
    return WireReq("POST", path, hs, frames(codec, msgs, comp, per_msg))


def trailer_block(trailers) -> bytes:
    return "".join(f"{k}: {v}\r\n" for k, v in trailers).encode("utf-8")


def grpc_trailers(error, trailers=()) -> list[tuple[str, str]]:
    out = []
    if error is None:
        out.append(("grpc-status", "0"))
    else:
        code, message, details = error
        n = GRPC[code] if isinstance(code, str) else code
        out.append(("grpc-status", str(n)))
        if message:
            out.append(("grpc-message", pct(message)))
        if details:
            out.append(("grpc-status-details-bin", b64(status_bin(n, message, details))))
    return out + list(trailers)


def response(proto: str, kind: str, codec: str, msgs=(), *, comp: str | None = None, headers=(), trailers=(), error=None,
             per_msg=None, trailers_only: bool = False, compress_end: bool = False) -> WireResp:
    hs: list = []
    if not enveloped(proto, kind):
        tr = [("trailer-" + k, v) for k, v in trailers]
        if error is not None:
            code, message, details = error
            body = json.dumps(error_json(code, message, details)).encode()
            enc = [("content-encoding", comp)] if comp else []
            return WireResp(HTTP.get(code, 500), [("content-type", "application/json"), *enc, *headers, *tr], compress(comp, body))
        hs = [("content-type", content_type(proto, kind, codec)), *headers, *tr]
        if comp:
            hs.append(("content-encoding", comp))
        return WireResp(200, hs, compress(comp, encode(codec, msgs[0])))
    hs = [("content-type", content_type(proto, kind, codec)), *headers]
    if comp:
        hs.append(("connect-content-encoding" if proto == "connect" else "grpc-encoding", comp))
    body = frames(codec, msgs, comp, per_msg)
    cend = comp if compress_end and comp != "identity" else None
    if proto == "connect":
        eos: dict = {}
        if error is not None:
            eos["error"] = error_json(*error)
        if trailers:
            md: dict = {}
            for k, v in trailers:
                md.setdefault(k, []).append(v)
            eos["metadata"] = md
        body += env(compress(cend, json.dumps(eos).encode()), 2 | (1 if cend else 0))
        return WireResp(200, hs, body)
    tr = grpc_trailers(error, trailers)
    if trailers_only and not msgs:
        return WireResp(200, hs + tr, b"", None)
    if proto == "grpc":
        return WireResp(200, hs, body, tr)
    body += env(compress(cend, trailer_block(tr)), 0x80 | (1 if cend else 0))
    return WireResp(200, hs, body)


# --------------------------------------------------------------------------- reading
@dataclass
class Seen:
    """What a strict peer understands of a request or response."""
    msgs: list = field(default_factory=list)      # canonical bytes
    sizes: list = field(default_factory=list)     # uncompressed sizes
    error: tuple | None = None                    # (code, message, details)
    ok: bool = False                              # an explicit success
    headers: dict = field(default_factory=dict)   # user metadata
    trailers: dict = field(default_factory=dict)
    problems: list = field(default_factory=list)
    comp: str | None = None
    timeout_ms: float | None = None
    compressed: list = field(default_factory=list)

    def bad(self, what: str) -> None:
        self.problems.append(what)


def _multi(items) -> dict:
    d: dict = {}
    for k, v in items:
        d.setdefault(k.lower(), []).append(v)
    return d


def _one(s: Seen, items, name: str) -> str | None:
    vs = [v for k, v in items if k.lower() == name]
    if len(vs) > 1:
        s.bad(f"{name} given {len(vs)} times")
    return vs[0] if vs else None


RESERVED_RESP = {"content-type", "content-encoding", "vary", "date", "server", "content-length", "connect-content-encoding",
                 "connect-accept-encoding", "grpc-encoding", "grpc-accept-encoding", "trailer", "grpc-status", "grpc-message",
                 "grpc-status-details-bin", "allow", "accept-post", "accept-encoding"}
RESERVED_REQ = {"content-type", "content-encoding", "accept-encoding", "te", "user-agent", "host", "content-length",
                "connect-protocol-version", "connect-timeout-ms", "connect-content-encoding", "connect-accept-encoding",
                "grpc-encoding", "grpc-accept-encoding", "grpc-timeout", "grpc-message-type", "accept"}


def read_connect_error(s: Seen, d) -> tuple | None:
    if not isinstance(d, dict):
        s.bad("error is not an object")
        return None
    for k in d:
        if k not in ("code", "message", "details"):
            s.bad(f"unknown field {k!r} in error")
    code = d.get("code")
    if code not in CODES:
        s.bad(f"error code {code!r}")
    msg = d.get("message", "")
    if not isinstance(msg, str):
        s.bad("error message is not a string")
    out = []
    ds = d.get("details", [])
    if not isinstance(ds, list):
        s.bad("error details are not a list")
        ds = []
    for x in ds:
        if not isinstance(x, dict) or not isinstance(x.get("type"), str) or not isinstance(x.get("value"), str):
            s.bad(f"error detail {x!r}")
            continue
        for k in x:
            if k not in ("type", "value", "debug"):
                s.bad(f"unknown field {k!r} in detail")
        if "/" in x["type"]:
            s.bad(f"detail type {x['type']!r} has a prefix")
        if "=" in x["value"]:
            s.bad("detail value is padded")
        try:
            out.append((x["type"], unb64(x["value"])))
        except Exception:
            s.bad(f"detail value {x['value']!r}")
    return (code, msg, tuple(out))


def _grpc_status(s: Seen, items) -> None:
    st = _one(s, items, "grpc-status")
    if st is None:
        s.bad("no grpc-status")
        return
    if not re.fullmatch(r"0|[1-9]\d*", st) or int(st) > 16:
        s.bad(f"grpc-status {st!r}")
        return
    n = int(st)
    raw = _one(s, items, "grpc-message")
    det = _one(s, items, "grpc-status-details-bin")
    msg = ""
    if raw is not None:
        try:
            msg = unpct(raw)
        except Exception as e:
            s.bad(f"grpc-message {raw!r}: {e}")
    details: tuple = ()
    if det is not None:
        try:
            c2, m2, d2 = parse_status_bin(unb64(det))
            details = tuple(d2)
            if c2 != n:
                s.bad(f"status details say code {c2}, grpc-status says {n}")
            if m2 != msg:
                s.bad(f"status details say message {m2!r}, grpc-message says {msg!r}")
        except Exception as e:
            s.bad(f"grpc-status-details-bin: {e!r}")
    if n == 0:
        s.ok = True
        if raw or det:
            s.bad("success with message or details")
    else:
        s.error = (GRPC_REV[n], msg, details)
    s.trailers = {k: v for k, v in _multi(items).items() if k not in ("grpc-status", "grpc-message", "grpc-status-details-bin")}


def _read_frames(s: Seen, codec: str, cls: str, body: bytes, comp: str | None, end_flag: int) -> list[bytes] | None:
    """Reads message frames; returns the payloads of end frames."""
    fs, rest = envs(body)
    if rest:
        s.bad(f"{len(rest)} bytes that are no complete message")
    ends: list[bytes] = []
    for flags, data in fs:
        if ends:
            s.bad("data after the end of the stream")
            break
        if flags & ~(1 | end_flag):
            s.bad(f"unknown flags {flags:#x}")
        if flags & 1:
            if comp in (None, "identity"):
                s.bad("compressed message without a compression in the headers")
                continue
            try:
                data = decompress(comp, data)
            except ValueError as e:
                s.bad(str(e))
                continue
        if end_flag and flags & end_flag:
            ends.append(data)
            continue
        s.compressed.append(bool(flags & 1))
        s.sizes.append(len(data))
        try:
            s.msgs.append(canon_g(read_msg(s, codec, cls, data)))
        except Exception as e:
            s.bad(f"message does not decode: {e!r}")
    return ends


def read_response(proto: str, kind: str, codec: str, w: WireResp, cls: str = "Out") -> Seen:
    """Judges a response as a strict client of the protocol would."""
    s = Seen()
    hs = w.headers
    for k, v in hs:
        if k != k.lower():
            s.bad(f"header name {k!r} not lowercase")
        if v != v.strip():
            s.bad(f"value of {k!r} has surrounding whitespace: {v!r}")
    ct = _one(s, hs, "content-type")
    if not enveloped(proto, kind):
        user = [(k, v) for k, v in hs if k.lower() not in RESERVED_RESP]
        s.headers = _multi([(k, v) for k, v in user if not k.lower().startswith("trailer-")])
        s.trailers = _multi([(k[8:], v) for k, v in user if k.lower().startswith("trailer-")])
        if w.trailers:
            s.bad("HTTP trailers on a Connect response")
        enc = _one(s, hs, "content-encoding")
        s.comp = enc
        if w.status == 200:
            if ct != f"application/{codec}":
                s.bad(f"content-type {ct!r}")
            try:
                data = decompress(enc, w.body)
                s.sizes.append(len(data))
                s.compressed.append(enc not in (None, "identity"))
                s.msgs.append(canon_g(read_msg(s, codec, cls, data)))
                s.ok = True
            except Exception as e:
                s.bad(f"body: {e!r}")
            return s
        if ct != "application/json":
            s.bad(f"content-type of an error is {ct!r}")
        try:
            d = json.loads(decompress(enc, w.body))
        except Exception as e:
            s.bad(f"error body: {e!r}")
            return s
        s.error = read_connect_error(s, d)
        if s.error and s.error[0] in CODES and HTTP[s.error[0]] != w.status:
            s.bad(f"status {w.status} for {s.error[0]}")
        return s
    if w.status != 200:
        s.bad(f"status {w.status} of a stream")
        return s
    if ct != content_type(proto, kind, codec):
        s.bad(f"content-type {ct!r}")
    s.headers = _multi([(k, v) for k, v in hs if k.lower() not in RESERVED_RESP])
    s.comp = _one(s, hs, "connect-content-encoding" if proto == "connect" else "grpc-encoding")
    if _one(s, hs, "content-encoding") not in (None, "identity"):
        s.bad("content-encoding on a stream")
    if proto == "connect":
        if w.trailers:
            s.bad("HTTP trailers on a Connect response")
        ends = _read_frames(s, codec, cls, w.body, s.comp, 2)
        if not ends:
            s.bad("no end-of-stream message")
            return s
        try:
            d = json.loads(ends[0].decode("utf-8"))
        except Exception as e:
            s.bad(f"end-of-stream message: {e!r}")
            return s
        if not isinstance(d, dict):
            s.bad("end-of-stream message is not an object")
            return s
        for k in d:
            if k not in ("error", "metadata"):
                s.bad(f"unknown field {k!r} in end-of-stream message")
        md = d.get("metadata", {})
        if not isinstance(md, dict) or not all(isinstance(v, list) and all(isinstance(x, str) for x in v) for v in md.values()):
            s.bad("metadata is not an object of lists of strings")
        else:
            for k, v in md.items():
                s.trailers.setdefault(k.lower(), []).extend(v)
        if "error" in d:
            s.error = read_connect_error(s, d["error"])
        else:
            s.ok = True
        return s
    if proto == "grpc":
        _read_frames(s, codec, cls, w.body, s.comp, 0)
        if w.trailers is None or not _one(Seen(), w.trailers, "grpc-status"):
            if w.body or w.trailers:
                s.bad("status not in the trailers")
            _grpc_status(s, [(k, v) for k, v in hs if k.lower() not in (RESERVED_RESP - {"grpc-status", "grpc-message", "grpc-status-details-bin"})])
        else:
            if _one(Seen(), hs, "grpc-status") is not None:
                s.bad("grpc-status in headers and trailers")
            _grpc_status(s, w.trailers)
        return s
    if w.trailers:
        s.bad("HTTP trailers on a gRPC-Web response")
    ends = _read_frames(s, codec, cls, w.body, s.comp, 0x80)
    if not ends:
        s.bad("no trailers frame")
        return s
    items = []
    try:
        block = ends[0].decode("ascii")
    except UnicodeDecodeError:
        s.bad("trailers frame not ASCII")
        block = ends[0].decode("utf-8", "replace")
    if block and not block.endswith("\r\n"):
        s.bad("trailers frame does not end with CRLF")
    for line in block.split("\r\n"):
        if not line:
            continue
        k, sep, v = line.partition(":")
        if not sep or not re.fullmatch(r"[!#$%&'*+\-.^_`|~0-9a-z]+", k):
            s.bad(f"trailer line {line!r}")
            continue
        if "\r" in v or "\n" in v:
            s.bad(f"trailer line {line!r}")
        items.append((k, v.strip(" \t")))
    _grpc_status(s, items)
    return s


def read_request(proto: str, kind: str, codec: str, w: WireReq, cls: str = "Msg") -> Seen:
    """Judges a request as a strict server of the protocol would."""
    s = Seen()
    hs = w.headers
    u = urlsplit(w.path)
    if u.path != PKG + PATHS[kind]:
        s.bad(f"path {u.path!r}")
    for k, v in hs:
        if k != k.lower():
            s.bad(f"header name {k!r} not lowercase")
        if v != v.strip():
            s.bad(f"value of {k!r} has surrounding whitespace: {v!r}")
    s.headers = _multi([(k, v) for k, v in hs if k.lower() not in RESERVED_REQ])
    if not _one(s, hs, "user-agent"):
        s.bad("no user-agent")
    ct = _one(s, hs, "content-type")
    if proto == "connect":
        if _one(s, hs, "te") not in (None, "trailers"):
            s.bad("te")
        t = _one(s, hs, "connect-timeout-ms")
        if t is not None:
            if not re.fullmatch(r"\d{1,10}", t):
                s.bad(f"connect-timeout-ms {t!r}")
            else:
                s.timeout_ms = int(t)
    else:
        if _one(s, hs, "te") != "trailers":
            s.bad("te: trailers missing")
        t = _one(s, hs, "grpc-timeout")
        if t is not None:
            if not (m := re.fullmatch(r"(\d{1,8})([HMSmun])", t)):
                s.bad(f"grpc-timeout {t!r}")
            else:
                s.timeout_ms = int(m[1]) * {"H": 3600000, "M": 60000, "S": 1000, "m": 1, "u": 1e-3, "n": 1e-6}[m[2]]
    if w.method == "GET":
        if proto != "connect" or kind != "get":
            s.bad("GET not allowed here")
        q = parse_qsl(u.query, keep_blank_values=True, strict_parsing=True)
        d = dict(q)
        if len(d) != len(q):
            s.bad("repeated query parameter")
        if set(d) - {"connect", "base64", "compression", "encoding", "message"}:
            s.bad(f"query parameters {sorted(d)}")
        if ct is not None:
            s.bad("content-type on GET")
        if w.body:
            s.bad("body on GET")
        if _one(s, hs, "content-encoding") is not None:
            s.bad("content-encoding on GET")
        if d.get("connect") != "v1":
            s.bad("connect=v1 missing")
        if d.get("encoding") != codec:
            s.bad(f"encoding {d.get('encoding')!r}")
        s.comp = d.get("compression")
        m = d.get("message")
        if m is None:
            s.bad("no message")
            return s
        try:
            if d.get("base64") == "1":
                m = m.rstrip("=")
                data = base64.urlsafe_b64decode(m + "=" * (-len(m) % 4))
                if base64.urlsafe_b64encode(data).decode().rstrip("=") != m:
                    s.bad("base64 not URL-safe")
            else:
                data = m.encode()
            data = decompress(s.comp, data)
            s.sizes.append(len(data))
            s.msgs.append(canon_g(read_msg(s, codec, cls, data)))
        except Exception as e:
            s.bad(f"message: {e!r}")
        return s
    if w.method != "POST":
        s.bad(f"method {w.method}")
    if u.query:
        s.bad("query on POST")
    if ct != content_type(proto, kind, codec):
        s.bad(f"content-type {ct!r}")
    if proto == "connect" and _one(s, hs, "connect-protocol-version") != "1":
        s.bad("connect-protocol-version")
    if not enveloped(proto, kind):
        s.comp = _one(s, hs, "content-encoding")
        try:
            data = decompress(s.comp, w.body)
            s.sizes.append(len(data))
            s.compressed.append(s.comp not in (None, "identity"))
            s.msgs.append(canon_g(read_msg(s, codec, cls, data)))
        except Exception as e:
            s.bad(f"body: {e!r}")
        return s
    if _one(s, hs, "content-encoding") not in (None, "identity"):
        s.bad("content-encoding on a stream")
    s.comp = _one(s, hs, "connect-content-encoding" if proto == "connect" else "grpc-encoding")
    _read_frames(s, codec, cls, w.body, s.comp, 0)
    return s


# --------------------------------------------------------------------------- adversarial servers
@dataclass
class Fake:
    """What a server does with a request.

    steps: bytes | Exception | ('sleep', seconds) | ('hang',) | ('call', fn)."""
    status: int = 200
    headers: list = field(default_factory=list)
    steps: list = field(default_factory=list)
    trailers: list | None = None
    exc: BaseException | None = None     # raised instead of a response
    before: float = 0.0                  # virtual seconds before the response headers
    read: str = "all"                    # all | none: what is read of the request before answering
    decode: bool = True                  # undo content-encoding, as HTTP clients do
    raw_content: object = None           # full bytes content instead of a stream

    @classmethod
    def of(cls, w: WireResp, steps=None, **kw) -> "Fake":
        return cls(w.status, w.headers, [w.body] if steps is None else steps, w.trailers, **kw)


@dataclass
class Got:
    """A request as the adversarial server saw it."""
    method: str
    url: str
    headers: list
    body: bytearray = field(default_factory=bytearray)
    complete: bool = False
    t: float = 0.0
    pulled: list = field(default_factory=list)   # times at which response chunks were asked for
    closed: int = 0
    timeout: float | None = None
    slack: float = 0.0

    def wire(self) -> WireReq:
        u = urlsplit(self.url)
        return WireReq(self.method, u.path + ("?" + u.query if u.query else ""), self.headers, bytes(self.body))


class FakeServer(Transport):
    def __init__(self, fn) -> None:
        self.fn = fn if callable(fn) else (lambda got: fn)
        self.got: list[Got] = []
        self.exchanges: list = []

    async def execute(self, request) -> Response:
        got = Got(request.method, request.url, list(request.headers.items()), t=vtime.monotonic())
        self.got.append(got)
        f: Fake = self.fn(got)
        content = request.content
        if isinstance(content, bytes):
            got.body += content
            got.complete = True
        elif f.read == "all":
            async for c in content:
                got.body += c
            got.complete = True
        if f.before:
            await asyncio.sleep(f.before)
        if f.exc is not None:
            raise f.exc
        trailers = HH()
        hs = HH(f.headers)
        dec = bridge._decomp(hs.get("content-encoding")) if f.decode else bridge._Ident()

        async def gen():
            try:
                for st in f.steps:
                    got.pulled.append(vtime.monotonic())
                    if isinstance(st, BaseException):
                        for k, v in f.trailers or ():
                            trailers.add(k, v)
                        raise st
                    if isinstance(st, tuple):
                        if st[0] == "sleep":
                            await asyncio.sleep(st[1])
                        elif st[0] == "hang":
                            await asyncio.Event().wait()
                        elif st[0] == "call":
                            st[1]()
                        continue
                    try:
                        d = dec.feed(st, end=False)
                    except Exception as e:
                        raise ReadError(f"Error reading response body: {e}") from e
                    if d or not st:
                        yield d
                for k, v in f.trailers or ():
                    trailers.add(k, v)
                try:
                    d = dec.feed(b"", end=True)
                except Exception as e:
                    raise ReadError(f"Error reading response body: {e}") from e
                if d:
                    yield d
            finally:
                got.closed += 1
                aclose = getattr(content, "aclose", None)
                if aclose is not None:
                    await aclose()

        return Response(status=f.status, headers=hs, content=gen(), trailers=trailers)


class FakeServerSync(SyncTransport):
    def __init__(self, fn) -> None:
        self.fn = fn if callable(fn) else (lambda got: fn)
        self.got: list[Got] = []
        self.exchanges: list = []

    def execute_sync(self, request) -> SyncResponse:
        t, slack = vtime.sync_timeout(get_sync_timeout())
        got = Got(request.method, request.url, list(request.headers.items()), t=vtime.monotonic(), timeout=t, slack=slack)
        self.got.append(got)
        deadline = None if t is None else got.t + got.timeout
        f: Fake = self.fn(got)

        def wait(s: float) -> None:
            c = vtime.active
            if deadline is not None and vtime.monotonic() + s >= deadline:
                if c is not None and c.now < deadline:
                    c.now = deadline
                raise TimeoutError("request timed out")
            if c is not None:
                c.now += s

        content = request.content
        if isinstance(content, bytes):
            got.body += content
            got.complete = True
        elif f.read == "all":
            for c in content:
                got.body += c
            got.complete = True
        if f.before:
            wait(f.before)
        if f.exc is not None:
            raise f.exc
        trailers = HH()
        hs = HH(f.headers)
        dec = bridge._decomp(hs.get("content-encoding")) if f.decode else bridge._Ident()

        def gen():
            try:
                for st in f.steps:
                    got.pulled.append(vtime.monotonic())
                    if isinstance(st, BaseException):
                        for k, v in f.trailers or ():
                            trailers.add(k, v)
                        raise st
                    if isinstance(st, tuple):
                        if st[0] == "sleep":
                            wait(st[1])
                        elif st[0] == "hang":
                            wait(float("inf"))
                            raise ReadError("nothing more will come")
                        elif st[0] == "call":
                            st[1]()
                        continue
                    try:
                        d = dec.feed(st, end=False)
                    except Exception as e:
                        raise ReadError(f"Error reading response body: {e}") from e
                    if d or not st:
                        yield d
                for k, v in f.trailers or ():
                    trailers.add(k, v)
                try:
                    d = dec.feed(b"", end=True)
                except Exception as e:
                    raise ReadError(f"Error reading response body: {e}") from e
                if d:
                    yield d
            finally:
                got.closed += 1
                close = getattr(content, "close", None)
                if close is not None:
                    with contextlib.suppress(ValueError):
                        close()

        return SyncResponse(status=f.status, headers=hs, content=gen(), trailers=trailers)
