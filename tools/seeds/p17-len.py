PROPERTY = 'P17'
NEEDS = 'the size of the items view of headers with a name that has three or more values'
BREAKS = 'The length of the items disagrees with what iterating them gives.'
EDITS=[('src/connectrpc/_headers.py', '            size += sum(len(v) for v in self._extra.values())', '            size += len(self._extra)')]
DEMO = '''
from h import *

h = Headers()
for i in range(4):
    h.add("a", str(i))
h.add("b", "x")
v = h.allitems()
check(len(v) == len(list(v)) == 5, (len(v), list(v)))
h.add("B", "y")
check(len(h.allitems()) == 6, len(h.allitems()))
'''
