"""writes checks/c09_table.json from the current tree, restricted to what is meant (reviewed by hand)"""
import sys, json; sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from vlib.core import *
from checks import C09
prog = Program().load("libawkward")
FAM = {"ListArrayOf": "list", "ListOffsetArrayOf": "list", "RegularArray": "list", "IndexedArrayOf": "opt", "ByteMaskedArray": "opt", "BitMaskedArray": "opt", "UnmaskedArray": "opt",
       "RecordArray": "rec", "UnionArrayOf": "uni", "NumpyArray": "num", "EmptyArray": "emp", "VirtualArray": "vir", "Record": "one"}
tab = {}
for cls, f, ns in C09.survey(prog):
    if ns is None:
        print("skip", cls, f["q"].split("::")[-1]); continue
    for ident, w, st in ns:
        a = C09.short(cls).split("<")[0]; b = C09.short(w[1]).split("<")[0]
        if FAM[a] != FAM[b] and not (a == "EmptyArray" and b == "NumpyArray" ) and not (a == "NumpyArray" and b == "RegularArray"):
            continue
        d = tab.setdefault(C09.key(cls, f, w), {})
        for n, x in w[2]:
            if n.startswith("#"): continue
            d[n] = min(d.get(n, 9), C09.level(n, x, ident))
tab = {k: {n: l for n, l in sorted(d.items()) if l} for k, d in sorted(tab.items())}
tab = {k: d for k, d in tab.items() if d}
json.dump(tab, open('/verif/checks/c09_table.json', 'w'), indent=0, sort_keys=True)
print(len(tab))
