"""C09: views, copies and selections keep an array's parameters, identities and other attributes.

Every method of every array class that builds array nodes is interpreted over value provenance (vlib/mini.py) with
symbolic attributes, once for arrays with identities and once without.  For the node that is returned, each attribute is
classified: the same attribute of the original, derived from it, or unrelated.  checks/c09_table.json states, per class
and operation, which attributes the operation has to hand on unchanged (2) or derived (1), reviewed against what the
operation means; every returning path has to respect it.  In addition, range selections slice identities and index
buffers with exactly the requested range, rearrangements apply the requested permutation, the Python constructors and
properties of every array class map arguments and attributes of the same name, and the recursive rewriting used by the
high-level operations rebuilds each node from its own attributes.
"""
import json, os
from vlib.core import *
from vlib.mini import *
from vlib.mini import short
from checks import C08

THIS = C08.THIS
TABLE = os.path.join(os.path.dirname(__file__), "c09_table.json")
SKIP = {"awkward::Content", "awkward::None"}


class Node(C08.Base):
    def __init__(self, prog, cls, ident, top):
        super().__init__(prog, cls)
        self.ident = ident
        self.top = top

    def truth(self, v, st):
        if v[0] == "op" and v[1] in ("==", "!=") and NULL in v[2:]:
            x = v[2] if v[3] == NULL else v[3]
            if x == ("fld", THIS, "identities_"):
                return (not self.ident) == (v[1] == "==")
        if v == ("fld", THIS, "identities_"):
            return self.ident
        return None

    _sz = {}

    def call(self, m, node, fr, q, obj, args, st):
        if q == "operator!=" and len(args) == 2 and ("k", 0) in args or q == "operator!=" and FALSE in args:
            return None
        return None

    def inline(self, g, name, obj, args):
        s = short(name).split("<")[0]
        if s in ("getitem_next", "mergemany", "reverse_merge", "getitem_next_jagged") or s == short(self.top["q"]).split("<")[0]:
            return False
        if g["key"] not in Node._sz:
            Node._sz[g["key"]] = sum(1 for _ in walk(g["body"]))
        if obj == THIS:
            return Node._sz[g["key"]] < 260
        # helpers beside the method
        return obj is None and not g.get("cls") and g.get("path") == self.top.get("path") and Node._sz[g["key"]] < 400


def signature(f):
    return ",".join(short(deref_type(f["u"].types[p["t"]])) for p in f["ps"])


def plain(n, x):
    """truth-preserving wrappers of a boolean attribute"""
    if x == ("fld", THIS, n):
        return True
    if x[0] == "call" and len(x) == 3 and short(x[1]) == "shallow_copy":
        return plain(n, x[2])
    if x[0] == "op" and x[1] == "!=" and x[3] in (FALSE, ("k", 0)):
        return plain(n, x[2])
    if x[0] == "op" and x[1] == "==" and x[3] == TRUE:
        return plain(n, x[2])
    return False


def level(n, x, ident):
    if plain(n, x):
        return 2
    if n == "identities_" and not ident:
        return 2
    if deps(x, lambda t: t == ("fld", THIS, n)):
        if deps(x, lambda t: t[0] == "op" and t[1] == "!" and bool(deps(t, lambda u: u == ("fld", THIS, n)))):
            return 0
        return 1
    return 0


def outermost(v):
    while v[0] == "call" and len(v) > 2 and isinstance(v[2], tuple) and v[2] and v[2][0] in ("new", "call"):
        v = v[2]
    return v


# results that are not re-wrapped arrays of the same kind: what happens to parameters on the way is not observable
OTHER_RESULTS = {"num", "localindex", "combinations", "reduce_next", "argsort_next", "asslice", "is_unique", "unique", "offsets_and_flattened", "mergemany", "reverse_merge"}


def methods_of(prog, cls):
    out = []
    for f in prog.funcs.values():
        if f.get("cls") == cls and f.get("body") and not f.get("ctor") and "rt" in f and short(f["q"]).split("<")[0] not in OTHER_RESULTS:
            rt = f["u"].types[f["rt"]]
            if "shared_ptr" in rt or "awkward::" in rt:
                out.append(f)
    return sorted(out, key=lambda f: (f["path"], f["l"], f["key"]))


def nodes(prog, cls, f, arrays):
    """-> list of (ident, returned node, state)"""
    out = []
    for ident in (False, True):
        m = Mini(prog, Node(prog, cls, ident, f), maxpaths=600)
        for st, v in m.run(f, THIS, [("sym", "p", i) for i in range(len(f["ps"]))]):
            w = outermost(v)
            if w[0] == "new" and w[1] in arrays:
                out.append((ident, w, st))
    return out


def survey(prog):
    arrays = set(prog.derived("awkward::Content")) - SKIP
    for cls in sorted(arrays):
        for f in methods_of(prog, cls):
            try:
                ns = nodes(prog, cls, f, arrays)
            except TooManyPaths:
                yield cls, f, None
                continue
            yield cls, f, ns


def key(cls, f, w):
    return "%s::%s(%s)->%s" % (short(cls).split("<")[0], short(f["q"]).split("<")[0], signature(f).replace(short(cls), "Self"), short(w[1]).split("<")[0])


def run():
    chk = Check("C09", "abstract interpretation over value provenance of every node-building method, constructor and rewriting branch", __doc__.strip().replace("\n", " "))
    prog = Program().load("libawkward")
    table = json.load(open(TABLE))
    nm = nn = skipped = 0
    seen = set()
    for cls, f, ns in survey(prog):
        if ns is None:
            skipped += 1
            continue
        nm += 1
        for ident, w, st in ns:
            k = key(cls, f, w)
            want = table.get(k)
            if want is None:
                continue
            seen.add(k)
            nn += 1
            for n, x in w[2]:
                lv = want.get(n)
                if not lv:
                    continue
                got = level(n, x, ident)
                chk.ob(got >= lv, loc(f), "%s %s %s%s" % (k, "hands on" if lv == 2 else "derives from the original's", n, " (array with identities)" if ident else ""))
            selections(chk, cls, f, w, ident, k)
    chk.cov["methods_beyond_path_bound"] = skipped
    chk.floor("methods", nm, 500)
    chk.floor("returned_nodes", nn, 1500)
    chk.floor("operations_in_table", len(seen), 150)
    from checks import C09py
    ctors = C09py.bindings(chk, prog)
    from checks import C09rw
    C09rw.rewriting(chk, prog, ctors)
    return chk.finish()


# ------------------------------------------------------------------ ranges and permutations
ONE_TO_ONE = {"identities_", "mask_", "index_", "tags_", "starts_"}


def same_int(a, b):
    if a == b:
        return True
    if a[0] == "op" and b[0] == "op" and a[1] == b[1] and a[1] in ("+", "*"):
        return (same_int(a[2], b[2]) and same_int(a[3], b[3])) or (same_int(a[2], b[3]) and same_int(a[3], b[2]))
    return False


def selections(chk, cls, f, w, ident, k):
    name = short(f["q"]).split("<")[0]
    family = short(cls).split("<")[0]
    if name == "getitem_range_nowrap" and len(f["ps"]) == 2:
        start, stop = ("sym", "p", 0), ("sym", "p", 1)
        for n, x in w[2]:
            if x[0] != "call" or short(x[1]) != "getitem_range_nowrap" or len(x) != 5 or x[2] != ("fld", THIS, n):
                # identities have to be sliced like the array
                if n == "identities_" and ident and family != "VirtualArray" and x == ("fld", THIS, n) and outer_changes(w, start, stop):
                    chk.ob(False, loc(f), "%s slices the identities" % k)
                continue
            a, b = x[3], x[4]
            if n in ONE_TO_ONE or n == "stops_" or (n == "content_" and family in ("ByteMaskedArray", "UnmaskedArray")):
                chk.ob(a == start and b == stop, loc(f), "%s slices %s with exactly the requested range" % (k, n))
            elif n == "offsets_":
                chk.ob(a == start and same_int(b, ("op", "+", stop, ("k", 1))), loc(f), "%s slices %s with the requested range and one more" % (k, n))
            elif n == "content_" and family == "RegularArray":
                sz = ("fld", THIS, "size_")
                chk.ob(same_int(a, ("op", "*", start, sz)) and same_int(b, ("op", "*", stop, sz)), loc(f), "%s slices %s with the requested range of lists" % (k, n))
        if family in ("RegularArray", "RecordArray", "VirtualArray"):
            for n, x in w[2]:
                if n == "length_":
                    x = last_choice(x)
    if name == "carry" and ident:
        for n, x in w[2]:
            if n == "identities_" and x[0] == "call" and x[2:3] == (("fld", THIS, "identities_"),) and short(x[1]).startswith("getitem_carry"):
                chk.ob(x[3] == ("sym", "p", 0), loc(f), "%s rearranges the identities like the array" % k)


def last_choice(x):
    return x


def outer_changes(w, start, stop):
    """whether the returned node is really a selection (it depends on the requested range)"""
    return any(deps(x, lambda t: t in (start, stop)) for n, x in w[2])
