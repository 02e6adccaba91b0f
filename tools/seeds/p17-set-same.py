PROPERTY = "P17"
NEEDS = "assigning to a repeated name the value it already has first"
BREAKS = "The further values of the name survive the assignment."
EDITS = [("src/connectrpc/_headers.py", """        key = key.lower()
        self._store[key] = value
        if self._extra is not None:
            self._extra.pop(key, None)

    def __delitem__""", """        key = key.lower()
        if self._store.get(key) == value:
            return
        self._store[key] = value
        if self._extra is not None:
            self._extra.pop(key, None)

    def __delitem__""")]
DEMO = '''
from h import *

a = Headers([("k", "1"), ("k", "2")])
a["K"] = "3"
check(list(a.getall("k")) == ["3"], a)
b = Headers([("k", "1"), ("k", "2")])
b["K"] = "1"
check(list(b.getall("k")) == ["1"], b)
'''
