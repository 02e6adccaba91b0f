PROPERTY = "P17"
NEEDS = "deleting a name that has several values and setting it again"
BREAKS = "The additional values of the deleted header come back."
EDITS = [("src/connectrpc/_headers.py", "        del self._store[key]\n        # If value wasn't in store, it's not in extra\n        # so no need to worry about exception.\n        if self._extra is not None:\n            self._extra.pop(key, None)",
          "        del self._store[key]\n        # If nothing is left there are no extra values either.\n        if not self._store:\n            self._extra = None")]
DEMO = '''
from h import *

h = Headers([("a", "1"), ("A", "2"), ("b", "3")])
del h["A"]
check("a" not in h and list(h.allitems()) == [("b", "3")], list(h.allitems()))
h.add("a", "4")
check(h.getall("a") == ["4"], h.getall("a"))
check(list(h.allitems()) == [("b", "3"), ("a", "4")], list(h.allitems()))
'''
