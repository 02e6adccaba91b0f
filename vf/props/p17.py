"""P17: the headers container behaves as a case-insensitive multimap."""
from __future__ import annotations

import copy

from connectrpc.request import Headers

from ..core import Workload

ID = "P17"
RULE = ("A case is a random history of operations on several headers containers, each accompanied by a model (an insertion-ordered map from "
        "lower-case name to list of values); after every operation results, exceptions and every observer of every container must agree with "
        "the models. Non-trivial: the history held repeated names and deletions or replacements; distinct by history.")
ASSUME = ["names and values are strings; the views keys(), items() and allitems() list names in lower case; a view is looked at when taken"]

NAMES = ["a", "A", "x-a", "X-A", "X-a", "content-type", "Content-Type", "b", "B", "x-bin", "", "é", "É", "ß", "trailer-x", "a b"]


class Model:
    def __init__(self) -> None:
        self.d: dict[str, list[str]] = {}

    def add(self, k, v):
        self.d.setdefault(k.lower(), []).append(v)

    def set(self, k, v):
        if k.lower() in self.d:
            self.d[k.lower()] = [v]
        else:
            self.d[k.lower()] = [v]

    def items(self):
        return [(k, v[0]) for k, v in self.d.items()]

    def allitems(self):
        return [(k, x) for k, v in self.d.items() for x in v]


def observe(rec, rng, h: Headers, m: Model, hist) -> bool:
    def bad(what, got, want):
        rec.fail(f"model:{what}", {"history": hist[-12:], "got": repr(got)[:300], "expected": repr(want)[:300], "model": m.d})
        return False
    rec.ev("observations")
    d = m.d
    for what, got, want in (
        ("len", len(h), len(d)), ("bool", bool(h), bool(d)), ("iter", list(h), list(d)), ("keys", list(h.keys()), list(d)),
        ("items", list(h.items()), m.items()), ("values", list(h.values()), [v[0] for v in d.values()]),
        ("allitems", list(h.allitems()), m.allitems()), ("len-allitems", len(h.allitems()), len(m.allitems())),
        ("len-keys", len(h.keys()), len(d)), ("len-items", len(h.items()), len(d)), ("len-values", len(h.values()), len(d)),
        ("eq-dict", h == dict(m.items()), True), ("repr", repr(h), repr(m.allitems())),
    ):
        if got != want or type(got) is not type(want):
            return bad(what, got, want)
    for k in [*rng.sample(NAMES, 4), *list(d)[:3]]:
        vs = d.get(k.lower())
        for kk in {k, k.upper(), k.lower(), k.title()}:
            if kk.lower() != k.lower():
                continue
            if (kk in h) != (vs is not None):
                return bad("contains", kk in h, vs)
            if list(h.getall(kk)) != (vs or []):
                return bad("getall", h.getall(kk), vs)
            if h.get(kk) != (vs[0] if vs else None) or h.get(kk, "dflt") != (vs[0] if vs else "dflt"):
                return bad("get", h.get(kk), vs)
            try:
                got = ("v", h[kk])
            except KeyError:
                got = ("KeyError",)
            if got != (("v", vs[0]) if vs else ("KeyError",)):
                return bad("getitem", got, vs)
    for k, v in [*m.allitems()[:4], ("a", "none-such"), ("nope", "1")]:
        if ((k, v) in h.allitems()) != ((k, v) in m.allitems()):
            return bad("in-allitems", (k, v) in h.allitems(), (k, v))
        if ((k, v) in h.items()) != ((k, v) in m.items()):
            return bad("in-items", (k, v) in h.items(), (k, v))
        if (k in h.keys()) != (k in d) or (v in h.values()) != (v in [x[0] for x in d.values()]):
            return bad("in-views", k, v)
    if 5 in h or None in h:
        return bad("contains-nonstr", True, False)
    return True


def history(rec, rng, idx):
    hs: list[tuple[Headers, Model]] = []
    hist: list = []

    def val():
        return rng.choice(["", "1", "2", "v", "long value, with; stuff", "ü"]) + (str(rng.randint(0, 99)) if rng.random() < 0.5 else "")

    def build():
        items = [(rng.choice(NAMES), val()) for _ in range(rng.choice([0, 0, 1, 3, 6]))]
        m = Model()
        how = rng.choice(["none", "list", "tuple", "dict", "headers", "allitems", "allitems-view", "itself", "itself", "items-view"])
        if how == "none":
            h = Headers()
        elif how == "list":
            h = Headers(items)
            for k, v in items:
                m.add(k, v)
            items.append(("later", "x"))  # what was given is not kept
        elif how == "tuple":
            h = Headers(tuple(items))
            for k, v in items:
                m.add(k, v)
        elif how == "dict":
            d = dict(items)
            h = Headers(d)
            for k, v in d.items():
                m.set(k, v)
            d["later"] = "x"
        elif how == "headers" and hs:
            src, sm = rng.choice(hs)
            # as a mapping it presents its first values
            h = Headers(src.items() and dict(src.items()))
            for k, v in sm.items():
                m.set(k, v)
        elif how == "itself" and hs:
            # A headers object is a mapping; whether the further values come along is not said, but nothing is shared.
            src, sm = rng.choice(hs)
            h = Headers(src)
            for k, v in (sm.items() if list(h.allitems()) == list(sm.items()) else sm.allitems()):
                m.add(k, v)
        elif how == "items-view" and hs:
            src, sm = rng.choice(hs)
            h = Headers(src.items())
            for k, v in sm.items():
                m.add(k, v)
        elif hs:
            src, sm = rng.choice(hs)
            h = Headers(src.allitems() if how == "allitems-view" else tuple(src.allitems()))
            for k, v in sm.allitems():
                m.add(k, v)
        else:
            how = "none"
            h = Headers()
        hist.append((f"h{len(hs)} = {how}", list(items)))
        hs.append((h, m))

    build()
    dup = gone = False
    for _ in range(rng.choice([3, 10, 30])):
        if rng.random() < 0.08 and len(hs) < 4:
            build()
        i = rng.randrange(len(hs))
        h, m = hs[i]
        op = rng.choice(["add", "add", "add", "set", "set", "del", "pop", "popd", "popitem", "setdefault", "update", "updatekw", "clear", "getall-mutate", "copy", "copy"])
        k, v = rng.choice(NAMES), val()
        if rng.random() < 0.5 and m.d:
            k = rng.choice(list(m.d))
            k = rng.choice([k, k.upper() if k.upper().lower() == k else k, k.title() if k.title().lower() == k else k])
        hist.append((f"h{i}", op, k, v))
        lk = k.lower()
        gone |= op in ("set", "del", "pop", "popd", "popitem") and lk in m.d and len(m.d[lk]) > 1
        got: object = None
        want: object = None
        match op:
            case "add":
                # now and then very many, under one name or several
                for j in range(rng.choice([8, 20, 70]) if rng.random() < 0.01 else 1):
                    a, b = (k, v) if j % 3 < 2 else (rng.choice([k, k + str(j)]), v + str(j))
                    got, want = h.add(a, b), None
                    m.add(a, b)
            case "set":
                h[k] = v
                m.set(k, v)
            case "del":
                try:
                    del h[k]
                except KeyError:
                    got = "KeyError"
                want = None if lk in m.d else "KeyError"
                m.d.pop(lk, None)
            case "pop":
                try:
                    got = h.pop(k)
                except KeyError:
                    got = KeyError
                want = m.d[lk][0] if lk in m.d else KeyError
                m.d.pop(lk, None)
            case "popd":
                got = h.pop(k, "dflt")
                want = m.d[lk][0] if lk in m.d else "dflt"
                m.d.pop(lk, None)
            case "popitem":
                try:
                    got = h.popitem()
                    want = (got[0], m.d.pop(got[0])[0]) if got[0] in m.d else "something else"
                except KeyError:
                    got, want = "KeyError", "KeyError" if not m.d else "an item"
            case "setdefault":
                got = h.setdefault(k, v)
                want = m.d[lk][0] if lk in m.d else v
                if lk not in m.d:
                    m.set(k, v)
            case "update":
                items = [(rng.choice(NAMES), val()) for _ in range(rng.randint(0, 3))]
                hist.append(items)
                h.update(rng.choice([dict, list])(items)) if len({a.lower() for a, _ in items}) == len(items) else h.update(items)
                for a, b in items:
                    m.set(a, b)
            case "updatekw":
                h.update(zz=v)
                m.set("zz", v)
            case "clear":
                if rng.random() < 0.6:
                    continue
                h.clear()
                m.d.clear()
            case "getall-mutate":
                r = h.getall(k)
                if isinstance(r, list):
                    r.append("foreign")
                    r[:1] = ["foreign"]
            case "copy":
                if len(hs) < 5:
                    # copy.copy makes no promise about sharing
                    h2 = copy.deepcopy(h)
                    m2 = Model()
                    m2.d = copy.deepcopy(m.d)
                    hs.append((h2, m2))
        rec.ev("operations")
        if got != want:
            rec.fail(f"model:{op}", {"history": hist[-12:], "got": repr(got), "expected": repr(want)})
            return
        dup |= any(len(x) > 1 for x in m.d.values())
        for hh, mm in hs:
            if not observe(rec, rng, hh, mm, hist):
                return
    if dup:
        rec.nontrivial(tuple(map(repr, hist)))
        rec.seen("histories_with_repeats_removed" if gone else "histories_with_repeats", repr(hist))
    rec.sample([repr(x) for x in hist[:10]])


WORKLOADS = {"history": Workload(history, 12000, 300000)}
