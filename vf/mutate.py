"""Bodies near valid ones."""
from __future__ import annotations

from . import msgs as M
from . import ref as R


def flip(rng, b: bytes) -> bytes:
    if not b:
        return b"\x00"
    i = rng.randrange(len(b))
    return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]


def cut(rng, b: bytes) -> bytes:
    return b[:rng.randrange(len(b) + 1)]


def drop(rng, b: bytes) -> bytes:
    if not b:
        return b
    i = rng.randrange(len(b))
    return b[:i] + b[i + rng.randint(1, 8):]


def dup(rng, b: bytes) -> bytes:
    if not b:
        return b
    i, j = sorted((rng.randrange(len(b) + 1), rng.randrange(len(b) + 1)))
    return b[:j] + b[i:j] + b[j:]


def junk(rng, b: bytes) -> bytes:
    return b + rng.randbytes(rng.choice([1, 4, 5, 6, 20]))


def length(rng, b: bytes) -> bytes:
    fs, rest = R.envs(b)
    if not fs:
        return junk(rng, b)
    k = rng.randrange(len(fs))
    out = b""
    for i, (fl, d) in enumerate(fs):
        n = len(d) if i != k else rng.choice([max(0, len(d) - 1), len(d) + 1, 0, len(d) + 1000, 2**31, 2**32 - 1])
        out += bytes([fl]) + n.to_bytes(4, "big") + d
    return out + rest


def flags(rng, b: bytes) -> bytes:
    fs, rest = R.envs(b)
    if not fs:
        return junk(rng, b)
    k = rng.randrange(len(fs))
    return b"".join(R.env(d, rng.choice([1, 2, 3, 0x80, 0x81, 4, 0xFF, 0x40]) if i == k else fl) for i, (fl, d) in enumerate(fs)) + rest


def payload(rng, b: bytes) -> bytes:
    fs, rest = R.envs(b)
    if not fs:
        return flip(rng, b)
    k = rng.randrange(len(fs))
    return b"".join(R.env(rng.choice([flip, cut, drop])(rng, d) if i == k else d, fl) for i, (fl, d) in enumerate(fs)) + rest


def reorder(rng, b: bytes) -> bytes:
    fs, rest = R.envs(b)
    fs = list(fs)
    rng.shuffle(fs)
    return b"".join(R.env(d, fl) for fl, d in fs) + rest


def insert(rng, b: bytes) -> bytes:
    fs, rest = R.envs(b)
    fs = list(fs)
    fs.insert(rng.randint(0, len(fs)), (rng.choice([0, 0, 0, 1, 2, 0x80]), rng.choice([b"", b"{}", rng.randbytes(7), M.out(rng).to_binary()])))
    return b"".join(R.env(d, fl) for fl, d in fs) + rest


BODY = [flip, cut, drop, dup, junk, length, flags, payload, reorder, insert]


def mutate(rng, b: bytes) -> tuple[str, bytes]:
    names = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        f = rng.choice(BODY)
        names.append(f.__name__)
        b = f(rng, b)
    return "+".join(names), b


def partition(rng, b: bytes, how: str) -> list[bytes]:
    n = len(b)
    if how == "whole":
        return [b] if b else []
    if how == "bytes":
        return [b[i:i + 1] for i in range(n)]
    if how == "frames":
        fs, rest = R.envs(b)
        return [x for x in [*[R.env(d, fl) for fl, d in fs], rest] if x]
    if how == "prefixes":   # cut inside every prefix
        fs, rest = R.envs(b)
        cuts, p = [], 0
        for _, d in fs:
            cuts.append(p + rng.randint(1, 4))
            if rng.random() < 0.5:
                cuts.append(p + 5)
            p += 5 + len(d)
        cuts = sorted(set(cuts))
    elif how == "halves":   # cut inside payloads
        fs, rest = R.envs(b)
        cuts, p = [], 0
        for _, d in fs:
            cuts.append(p + 5 + len(d) // 2)
            p += 5 + len(d)
    elif how == "last":     # last byte of each message alone
        fs, rest = R.envs(b)
        cuts, p = [], 0
        for _, d in fs:
            p += 5 + len(d)
            cuts += [p - 1, p]
    else:
        cuts = sorted(rng.randrange(n + 1) for _ in range(rng.randint(1, 10)))
    out, p = [], 0
    for c in [*cuts, n]:
        if c > p:
            out.append(b[p:c])
            p = c
    return out


HOWS = ["bytes", "frames", "prefixes", "halves", "last", "random", "random"]


def with_empty(rng, chunks: list[bytes]) -> list[bytes]:
    out = []
    for c in chunks:
        while rng.random() < 0.25 and len(out) < 5000:
            out.append(b"")
        out.append(c)
    if rng.random() < 0.5:
        out.append(b"")
    return out
