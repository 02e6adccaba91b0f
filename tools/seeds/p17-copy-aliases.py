PROPERTY = "P17"
NEEDS = "headers made from another headers object which holds a repeated name, after which one of the two gets another value of that name"
BREAKS = "Copying a headers object copies the table of repeated values but not the lists in it, so the two share them."
EDITS = [("src/connectrpc/_headers.py", """        self._extra = None
        if isinstance(items, Mapping):
            # ty""", """        self._extra = None
        if isinstance(items, _AllItemsView):
            # Copying another Headers, no need to normalize again.
            self._store = items._store.copy()
            self._extra = dict(items._extra) if items._extra else None
        elif isinstance(items, Mapping):
            # ty""")]
DEMO = '''
from h import *

a = Headers([("k", "1"), ("k", "2")])
b = Headers(a.allitems())
b.add("k", "3")
check(a.getall("k") == ["1", "2"], a)
check(b.getall("k") == ["1", "2", "3"], b)
'''
