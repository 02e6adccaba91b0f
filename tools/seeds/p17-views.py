PROPERTY = "P17"
NEEDS = "a headers object emptied with clear() that held a repeated name, and is filled again with the same name"
BREAKS = "clear() keeps the repeated values, which come back with the next header of that name."
EDITS = [("src/connectrpc/_headers.py", """        self._store.clear()
        self._extra = None
""", """        self._store.clear()
""")]
DEMO = '''
from h import *

a = Headers([("k", "1"), ("k", "2")])
a.clear()
check(len(a) == 0 and list(a.allitems()) == [], a)
a["other"] = "x"
a.add("k", "3")
check(a.getall("k") == ["3"], a.getall("k"))
'''
