"""Message generation and comparison, independent of the library under test.

Comparison goes through google.protobuf: the bytes of a message are parsed by google's
implementation and re-serialised deterministically, so two messages are equal iff they carry
the same fields with the same presence (NaN equal to itself, map order irrelevant)."""
from __future__ import annotations

from google.protobuf.message import DecodeError
from protobuf import Oneof
from protobuf.wkt import Duration, FieldMask, ListValue, NullValue, Struct, Timestamp, UInt64Value, Value

from .gen import verif_pb2 as g
from .gen.verif_pb import Kind, Leaf, Msg, Out


def canon(m) -> bytes:
    """Canonical bytes of a Msg or Out of either implementation."""
    if hasattr(m, "SerializeToString"):
        return type(m).__name__.encode() + b":" + m.SerializeToString(deterministic=True)
    name = type(m).__name__
    try:
        gm = getattr(g, name).FromString(m.to_binary()) if hasattr(g, name) else None
    except DecodeError:
        # damaged bytes that only the more lenient of the two implementations accepts
        gm = None
    if gm is None:
        return name.encode() + b":" + m.to_binary()
    return name.encode() + b":" + gm.SerializeToString(deterministic=True)


def canons(ms) -> list[bytes]:
    return [canon(m) for m in ms]


WORDS = ["", "a", "hello", "x" * 40, "héllo wörld", "日本語テキスト", "emoji 😀 done", "tab\tnl\nquote\"\\", "\u0000nul", "%20%", "\u2028sep", "𝔘𝔫𝔦", "null", "-0", "{}", "é" * 10]


def word(rng) -> str:
    if rng.random() < 0.6:
        return rng.choice(WORDS)
    return "".join(chr(rng.choice([rng.randint(32, 126), rng.randint(0xA0, 0x24F), rng.randint(0x4E00, 0x4EFF), rng.randint(0x1F300, 0x1F5FF)])) for _ in range(rng.randint(0, 20)))


def blob(rng, n: int | None = None) -> bytes:
    if n is None:
        n = rng.choice([0, 1, 2, 5, 16, 64, 200, 1000])
    if rng.random() < 0.5:
        return rng.randbytes(n)
    return (rng.randbytes(3) * (n // 3 + 1))[:n]


I64 = [0, 1, -1, 2**31, -2**31, 2**53, -(2**53) - 1, 2**63 - 1, -(2**63)]
FLT = [0.0, 1.5, -2.25, 1e300, 5e-324, float("inf"), float("-inf"), float("nan"), 0.1]


def leaf(rng) -> Leaf:
    return Leaf(text=word(rng), blob=blob(rng, rng.choice([0, 3, 20])))


def msg(rng, mid: str | None = None, size: int | None = None, depth: int = 2) -> Msg:
    """A random Msg.  About one in eight is completely empty unless an id is given."""
    kw: dict = {}
    if mid is not None:
        kw["id"] = mid
    elif rng.random() < 0.125 and size is None:
        return Msg()
    else:
        kw["id"] = word(rng)
    r = rng.random
    if r() < 0.5:
        kw["seq"] = rng.choice(I64)
    if size is not None:
        kw["data"] = blob(rng, size)
    elif r() < 0.4:
        kw["data"] = blob(rng)
    if r() < 0.3:
        kw["ratio"] = rng.choice(FLT)
    if r() < 0.3:
        kw["flag"] = r() < 0.5
    if r() < 0.3:
        kw["kind"] = rng.choice([Kind.UNSPECIFIED, Kind.A, Kind.B])
    if r() < 0.3:
        kw["nums"] = [rng.randint(-2**31, 2**31 - 1) for _ in range(rng.randint(0, 6))]
    if r() < 0.3:
        kw["attrs"] = {word(rng): word(rng) for _ in range(rng.randint(0, 4))}
    if r() < 0.3:
        kw["note"] = rng.choice(["", "n", word(rng)])
    if r() < 0.3:
        kw["leaf"] = Leaf() if r() < 0.4 else leaf(rng)
    if r() < 0.3:
        kw["leaves"] = [leaf(rng) for _ in range(rng.randint(0, 3))]
    if r() < 0.4:
        k = rng.randint(0, 2)
        if k == 0:
            kw["pick"] = Oneof("big", rng.choice([0, 1, 2**64 - 1]))
        elif k == 1:
            kw["pick"] = Oneof("word", word(rng))
        elif depth:
            kw["pick"] = Oneof("child", msg(rng, depth=depth - 1))
    if r() < 0.3:
        kw["zig"] = rng.randint(-2**31, 2**31 - 1)
    if r() < 0.3:
        kw["fix"] = rng.choice([0, 7, 2**64 - 1])
    if r() < 0.2:
        kw["small"] = rng.choice([0.5, -1.25, float("inf"), 3.0])
    if r() < 0.2:
        kw["at"] = Timestamp(seconds=rng.randint(-62135596800, 253402300799), nanos=rng.choice([0, 1, 1000, 999999999]))
    if r() < 0.3:
        kw["multi_word_field"] = rng.choice([0, 1, -1, 2**31 - 1, -2**31])
    if r() < 0.1:
        kw["by_number"] = {rng.choice(I64): leaf(rng) for _ in range(rng.randint(0, 3))}
    if r() < 0.1:
        s = rng.choice([-1, 1])
        kw["time_left"] = Duration(seconds=s * rng.randint(0, 315576000000), nanos=s * rng.choice([0, 1, 1000, 999999999]))
    if r() < 0.15:
        kw["odd"] = word(rng)
    if r() < 0.1:
        kw["free_form"] = Struct(fields={word(rng): value(rng) for _ in range(rng.randint(0, 3))})
    if r() < 0.1:
        kw["maybe_long"] = UInt64Value(value=rng.choice([0, 1, 2**64 - 1]))
    if r() < 0.1:
        kw["field_mask"] = FieldMask(paths=rng.choice([[], ["a"], ["multi_word_field", "leaf.text"]]))
    return Msg(**kw)


def value(rng, depth: int = 2):
    """A random google.protobuf.Value (one of the kinds must be set)."""
    k = rng.choice(["null_value", "number_value", "string_value", "bool_value", "struct_value", "list_value"][:6 if depth else 4])
    return Value(kind=Oneof(k, {
        "null_value": lambda: NullValue.NULL_VALUE, "number_value": lambda: rng.choice([0.0, 1.0, -2.5, 1e300, 2.0**53]), "string_value": lambda: word(rng),
        "bool_value": lambda: rng.random() < 0.5, "struct_value": lambda: Struct(fields={word(rng): value(rng, depth - 1) for _ in range(rng.randint(0, 2))}),
        "list_value": lambda: ListValue(values=[value(rng, depth - 1) for _ in range(rng.randint(0, 2))])}[k]()))


def deep(depth: int, rng):
    """A message nested that deep."""
    m = Msg(id="bottom")
    for _ in range(depth - 1):
        m = Msg(id=word(rng), pick=Oneof("child", m)) if rng.random() < 0.9 else Msg(pick=Oneof("child", m))
    return m


def out(rng, oid: str | None = None, size: int | None = None) -> Out:
    if oid is None and size is None and rng.random() < 0.125:
        return Out()
    kw: dict = {"id": word(rng) if oid is None else oid}
    if rng.random() < 0.5:
        kw["seq"] = rng.choice(I64)
    if size is not None:
        kw["data"] = blob(rng, size)
    elif rng.random() < 0.3:
        kw["data"] = blob(rng)
    if rng.random() < 0.5:
        kw["echo"] = msg(rng)
    return Out(**kw)
