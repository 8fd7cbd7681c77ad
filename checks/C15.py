"""C15: the validity check examines every index and every child.

validityerror of every array class is interpreted path by path (vlib/mini.py).  On every path that does not report an
error, the facts established on that path have to include, for that class: the parameter check, each length relation
between its buffers, contents and declared length (exactly, after linear normalisation), the validity kernel applied to
the node's own index buffers with the true lengths, and the validation of every child (for collections: a loop that
covers all of them).  Children of strings are exempt when the parameter check itself has examined them.  The kernels are
decided by the rules of C04; the Python entry points (ak.validity_error, ak.is_valid, partitioned arrays) are interpreted
too: they hand on what the layout reports, for every partition.
"""
import os
from vlib.core import *
from vlib.mini import *
from vlib.mini import short
from checks import C08

THIS = C08.THIS
CONTENT = ("fld", THIS, "content_")
CONTENTS = ("fld", THIS, "contents_")


def fld(n):
    return ("fld", THIS, n)


class Hk(C08.Base):
    _sz = {}

    def __init__(self, prog, cls, top):
        super().__init__(prog, cls)
        self.top = top

    def inline(self, g, name, obj, args):
        s = short(name).split("<")[0]
        if s in ("validityerror", "validityerror_parameters", "parameter_equals", "classname", "array", "length") and not (s == "length" and obj == THIS):
            return False
        if g["key"] not in Hk._sz:
            Hk._sz[g["key"]] = sum(1 for _ in walk(g["body"]))
        if obj == THIS:
            return Hk._sz[g["key"]] < 260
        return obj is None and not g.get("cls") and g.get("path") == self.top.get("path") and Hk._sz[g["key"]] < 600


# ------------------------------------------------------------------ facts
def lin(t):
    """term -> {atom: coefficient}, constant under 1"""
    if t[0] == "k" and isinstance(t[1], int):
        return {1: t[1]}
    if t[0] == "op" and len(t) == 4 and t[1] in ("+", "-"):
        a, b = lin(t[2]), lin(t[3])
        out = dict(a)
        for k, c in b.items():
            out[k] = out.get(k, 0) + (c if t[1] == "+" else -c)
        return {k: c for k, c in out.items() if c}
    if t[0] == "op" and len(t) == 4 and t[1] == "*":
        a, b = lin(t[2]), lin(t[3])
        if set(a) <= {1}:
            return {k: c * a.get(1, 0) for k, c in b.items() if c * a.get(1, 0)}
        if set(b) <= {1}:
            return {k: c * b.get(1, 0) for k, c in a.items() if c * b.get(1, 0)}
    if t[0] == "call" and len(t) == 3 and short(t[1]).split("<")[0] in ("length", "size"):
        return {("len", canon(t[2])): 1}
    return {canon(t): 1}


def canon(t):
    """child number i of the contents, however it is written"""
    if not isinstance(t, tuple):
        return t
    if t[0] in ("at", "elem") and t[1] == CONTENTS:
        return ("child", CONTENTS)
    if t[0] == "call" and short(t[1]).split("<")[0] in ("field", "content", "get") and t[2:3] == (THIS,):
        return ("child", CONTENTS)
    return tuple(canon(x) for x in t)


def nonneg(facts):
    """set of linear forms known to be >= 0 (as frozensets)"""
    out = set()
    for t, b in facts.items():
        if t[0] == "op" and len(t) == 4 and t[1] in ("<", "<=", ">", ">="):
            op, x, y = t[1], t[2], t[3]
            if op in (">", ">="):
                op, x, y = {">": "<", ">=": "<="}[op], y, x
            # x < y / x <= y
            if not b:
                x, y = y, x
                op = "<=" if op == "<" else "<"
            d = lin(("op", "-", y, x))
            if op == "<":
                d = dict(d)
                d[1] = d.get(1, 0) - 1
                if not d[1]:
                    del d[1]
            out.add(frozenset(d.items()))
    return out


def empties(facts):
    """terms (strings, pointers, containers) known to be empty / null on the path"""
    out = set()
    for t, b in facts.items():
        while t[0] == "op" and t[1] == "!":
            t, b = t[2], not b
        if t[0] == "op" and len(t) == 4 and t[1] in ("==", "!="):
            x, y = t[2], t[3]
            if x in (("k", ""), NULL, ("k", 0)):
                x, y = y, x
            if y in (("k", ""), NULL, ("k", 0)) and b == (t[1] == "=="):
                if x[0] == "call" and short(x[1]).split("<")[0] in ("size", "length") and len(x) == 3 and y == ("k", 0):
                    x = x[2]
                out.add(canon(x))
        elif t[0] == "call" and short(t[1]).split("<")[0] == "empty" and len(t) == 3 and b:
            out.add(canon(t[2]))
        elif t[0] == "fld" and not b:
            out.add(canon(t))
    return out


def is_error(v, facts):
    """a string that is certainly not empty"""
    if v[0] == "k":
        return isinstance(v[1], str) and v[1] != ""
    if v[0] == "op" and v[1] == "+":
        return any(is_error(x, facts) for x in v[2:])
    if v[0] == "new" and "basic_string" in v[1]:
        return any(is_error(x[1] if len(x) == 2 else x, facts) for x in v[2:])
    for t, b in facts.items():
        while t[0] == "op" and t[1] == "!":
            t, b = t[2], not b
        if t[0] == "op" and len(t) == 4 and t[1] in ("==", "!=") and v in t[2:] and (("k", "") in t[2:]) and b == (t[1] == "!="):
            return True
        if t[0] == "call" and short(t[1]).split("<")[0] == "empty" and t[2:] == (v,) and not b:
            return True
        if t[0] == "op" and len(t) == 4 and t[1] in ("==", "!=", ">") and t[2][0] == "call" and t[2][2:] == (v,) and short(t[2][1]).split("<")[0] in ("size", "length") and t[3] == ("k", 0):
            if b == (t[1] in ("!=", ">")):
                return True
    return False


def call_of(t, name):
    return t[0] == "call" and short(t[1]).split("<")[0] == name


def ln(x):
    return ("call", "length", x)


def ge(a, b=("k", 0)):
    return frozenset(lin(("op", "-", a, b)).items())


def family(cls):
    return short(cls).split("<")[0]


CHILD = ("child", CONTENTS)
UINT8 = ("k", 6)   # util::dtype::uint8
LENGTHS = {
    "BitMaskedArray": [("the mask covers the length", ge(("op", "*", ln(fld("mask_")), ("k", 8)), fld("length_"))), ("the content covers the length", ge(ln(CONTENT), fld("length_")))],
    "ByteMaskedArray": [("the content is at least as long as the mask", ge(ln(CONTENT), ln(fld("mask_"))))],
    "ListArrayOf": [("stops is at least as long as starts", ge(ln(fld("stops_")), ln(fld("starts_"))))],
    "ListOffsetArrayOf": [("there is at least one offset", ge(ln(fld("offsets_")), ("k", 1)))],
    "RegularArray": [("the size is not negative", ge(fld("size_")))],
    "UnionArrayOf": [("the index is at least as long as the tags", ge(ln(fld("index_")), ln(fld("tags_"))))],
    "RecordArray": [("every field covers the length", frozenset(lin(("op", "-", ("call", "length", ("at", CONTENTS, ("k", 0))), fld("length_"))).items()))],
}


def data(x):
    return lambda t: t[0] == "call" and short(t[1]).split("<")[0] in ("data", "ptr", "get") and base(t[2]) == x or base(t) == x


def base(t):
    while t[0] == "call" and short(t[1]).split("<")[0] in ("get", "ptr", "data") and len(t) == 3:
        t = t[2]
    return t


def length(*xs):
    return lambda t: lin(t) in [{("len", canon(x)): 1} for x in xs]


def split(which):
    def p(t):
        t = base(t)
        return t[0] == "call" and short(t[1]).split("<")[0] == "make_" + which and t[2] == fld("offsets_") or which == "starts" and t == fld("offsets_")
    return p


def offsets_length(t):
    d = lin(t)
    if d == {("len", fld("offsets_")): 1, 1: -1}:
        return True
    if len(d) == 1:
        (k, c), = d.items()
        return c == 1 and isinstance(k, tuple) and k[0] == "len" and k[1][0] == "call" and short(k[1][1]).split("<")[0] in ("make_starts", "make_stops")
    return False


def children_lengths(t):
    t = base(t)
    return bool(deps(t, lambda u: u[0] == "call" and short(u[1]).split("<")[0] == "length" and canon(u[2]) == CHILD)) and t[0] == "coll" and len(t) == 2


def count_contents(t):
    return lin(t) == {("len", CONTENTS): 1}


KERNELS = {
    "IndexedArrayOf": ("IndexedArray_validity", [("the index", data(fld("index_"))), ("the length of the index", length(fld("index_"), THIS)), ("the length of the content", length(CONTENT)), ("whether it is an option", None)]),
    "ListArrayOf": ("ListArray_validity", [("the starts", data(fld("starts_"))), ("the stops", data(fld("stops_"))), ("the length of the starts", length(fld("starts_"), THIS)), ("the length of the content", length(CONTENT))]),
    "ListOffsetArrayOf": ("ListArray_validity", [("the starts", split("starts")), ("the stops", split("stops")), ("the number of lists", offsets_length), ("the length of the content", length(CONTENT))]),
    "UnionArrayOf": ("UnionArray_validity", [("the tags", data(fld("tags_"))), ("the index", data(fld("index_"))), ("the length of the tags", length(fld("tags_"), THIS)), ("the number of contents", count_contents), ("the lengths of the contents", children_lengths)]),
}
STRINGS = {"ListArrayOf", "ListOffsetArrayOf", "RegularArray"}
CHILDREN = {"BitMaskedArray": CONTENT, "ByteMaskedArray": CONTENT, "UnmaskedArray": CONTENT, "IndexedArrayOf": CONTENT, "ListArrayOf": CONTENT, "ListOffsetArrayOf": CONTENT,
            "RegularArray": CONTENT, "RecordArray": CHILD, "UnionArrayOf": CHILD, "Record": ("fld", THIS, "array_")}


def run():
    chk = Check("C15", "path-wise abstract interpretation with linear normalisation of every validityerror; kernel rules of C04", __doc__.strip().replace("\n", " "))
    prog = Program().load("libawkward")
    n = paths = 0
    for cls in sorted(set(prog.derived("awkward::Content")) - {"awkward::Content", "awkward::None"}):
        f = C08.method(prog, cls, "validityerror", 1)
        if not chk.ob(f is not None and f.get("cls") == cls, "include/awkward/array", "%s has a validity check of its own" % short(cls)):
            continue
        m = Mini(prog, Hk(prog, cls, f), maxpaths=1500)
        try:
            res = m.run(f, THIS, [("sym", "p", 0)])
        except TooManyPaths:
            chk.count("beyond_path_bound")
            continue
        n += 1
        good = 0
        for st, v in res:
            if not is_error(v, st.facts):
                good += 1
                paths += 1
                examine(chk, prog, m, cls, f, st, v)
        chk.ob(good > 0, loc(f), "a valid %s passes" % short(cls))
        for t in m.throws:
            pass
    chk.floor("classes", n, 20)
    chk.floor("accepting_paths", paths, 40)
    parameters(chk, prog)
    binding(chk, prog)
    from checks import C04
    C04.kernels(chk, C04.kernel_spec(), {"awkward_IndexedArray_validity", "awkward_ListArray_validity", "awkward_UnionArray_validity"})
    python(chk)
    return chk.finish()


def covered(m, facts, coll):
    """counters of loops over a whole collection: from 0 to the number of its elements"""
    for t, b in facts.items():
        if t[0] == "op" and len(t) == 4 and t[1] in ("<", "!=", ">") and not b:
            x, y = (t[2], t[3]) if t[1] != ">" else (t[3], t[2])
            if x[0] == "idx" and lin(y) == {("len", coll): 1} and m.loopinfo.get(x, {None}) <= {("k", 0)}:
                yield x


def whole(m, facts, sub, coll):
    """every counter inside the terms in sub runs over the whole collection"""
    full = set(covered(m, facts, coll))
    return all(i in full for t in sub for i in deps(t, lambda u: u[0] == "idx"))


def examine(chk, prog, m, cls, f, st, v):
    fam = family(cls)
    facts = st.facts
    empty = empties(facts)
    label = short(cls)
    if fam not in ("Record", "VirtualArray"):
        ok = any(call_of(t, "validityerror_parameters") and t[2] == THIS for t in empty) or call_of(v, "validityerror_parameters")
        chk.ob(ok, loc(f), "%s: the parameters are checked before the array is accepted" % label)
    nn = nonneg(facts)
    for what, form in LENGTHS.get(fam, []):
        if chk.ob(form in nn, loc(f), "%s: accepted only if %s" % (label, what)) and fam == "RecordArray":
            src = [t for t, b in facts.items() if nonneg({t: b}) == {form}]
            chk.ob(any(whole(m, facts, [t], CONTENTS) for t in src), loc(f), "%s: the length of every field is compared" % label)
    if fam in KERNELS:
        name, preds = KERNELS[fam]
        calls = [t[1] for t in empty if t[0] == "fld" and t[2] == "str" and call_of(t[1], name)]
        raw = [t for t in deps(tuple(facts), lambda t: call_of(t, name))]
        if chk.ob(bool(calls), loc(f), "%s: accepted only if %s reports no error" % (label, name)):
            for t in raw[:1]:
                args = t[len(t) - len(preds):]
                for (what, p), a in zip(preds, args):
                    if p is not None:
                        chk.ob(p(a), loc(f), "%s: %s is given %s" % (label, name, what))
                if fam == "IndexedArrayOf":
                    opt = "true" in cls
                    chk.ob(args[-1] in (("k", opt), ("k", int(opt))) or args[-1][0] not in ("k",), loc(f), "%s: %s is told whether missing values are allowed" % (label, name))
    if fam == "NumpyArray":
        shape = fld("shape_")
        chk.ob(shape not in empty and any(t for t in facts if deps(t, lambda u: u[0] == "call" and short(u[1]).split("<")[0] in ("empty", "size") and u[2:] == (shape,))), loc(f), "NumpyArray: accepted only if it has dimensions")
        chk.ob(any(len(d) == 1 and list(d)[0][1] == 1 and isinstance(list(d)[0][0], tuple) and list(d)[0][0][:2] in (("at", shape), ("elem", shape)) for d in nn), loc(f), "NumpyArray: accepted only if no dimension is negative")
        src = [t for t, b in facts.items() if t[0] == "op" and len(t) == 4 and t[1] in ("<", "<=", ">", ">=") and any(u[:2] in (("at", shape), ("elem", shape)) for u in t[2:])]
        chk.ob(any(whole(m, facts, [t], shape) for t in src), loc(f), "NumpyArray: every dimension is examined")
        strides, item = fld("strides_"), fld("itemsize_")
        src = [t for t, b in facts.items() if t[0] == "op" and len(t) == 4 and t[1] in ("==", "!=") and b == (t[1] == "==") and t[3] == ("k", 0) and t[2][:2] == ("op", "%") and t[2][2][:2] in (("at", strides), ("elem", strides)) and t[2][3] == item]
        chk.ob(any(whole(m, facts, [t], strides) for t in src), loc(f), "NumpyArray: accepted only if every stride is a multiple of the item size")
        return
    if fam == "VirtualArray":
        ok = call_of(v, "validityerror") and (call_of(v[2], "array") or bool(deps(v[2], lambda t: t[0] == "fld" and t[1] == THIS)))
        chk.ob(ok, loc(f), "VirtualArray: the materialised array is validated")
        return
    child = CHILDREN.get(fam)
    if child is None:
        return
    checked = {t[2] for t in empty if call_of(t, "validityerror")}
    if call_of(v, "validityerror") and child == CHILD and canon(v[2]) == CHILD:
        chk.ob(False, loc(f), "%s: what the first child reports is not the answer unless it is an error" % label)
        return
    if call_of(v, "validityerror"):
        checked.add(canon(v[2]))
    ok = child in checked
    if not ok and fam in STRINGS and string_exempt(facts):
        ok = True
    if not ok and child == CHILD and CONTENTS in empty:
        ok = True
    chk.ob(ok, loc(f), "%s: %s before the array is accepted" % (label, "every child is validated" if child == CHILD else "the content is validated"))
    if ok and child == CHILD and CONTENTS not in empty:
        by_index = [t for t in deps(tuple(facts), lambda t: call_of(t, "validityerror") and canon(t[2]) == CHILD)]
        for t in by_index:
            i = [u for u in deps(t[2], lambda u: u[0] == "idx")]
            if i:
                chk.ob(i[0] in set(covered(m, facts, CONTENTS)), loc(f), "%s: the loop over the children starts with the first and ends with the last" % label)


def string_exempt(facts):
    for t, b in facts.items():
        if b and call_of(t, "parameter_equals") and t[2] == THIS and t[3:] in ((("k", "__array__"), ("k", '"string"')), (("k", "__array__"), ("k", '"bytestring"'))):
            return True
    return False


# ------------------------------------------------------------------ parameters
def parameters(chk, prog):
    """strings are accepted only on lists of one-dimensional uint8 chars; chars only inside strings"""
    f = C08.method(prog, "awkward::Content", "validityerror_parameters", 1)
    if f is None:
        return
    pe = lambda obj, val: ("call", "awkward::Content::parameter_equals", obj, ("k", "__array__"), ("k", '"%s"' % val))
    n = 0
    for cls in sorted(set(prog.derived("awkward::Content")) - {"awkward::Content", "awkward::None", "awkward::Record"}):
        fam = family(cls)
        for value in ("string", "bytestring", "char", "byte", None):
            class H(Hk):
                def truth(self, v, st):
                    if call_of(v, "parameter_equals") and v[2] == THIS:
                        return v[4:5] == (("k", '"%s"' % value),)
                    return None

                def dyncast(self, v, target, st):
                    if v == THIS:
                        return THIS if target in (self.cls, "awkward::Content") else NULL
                    return None

                def inline(self, g, name, obj, args):
                    s = short(name).split("<")[0]
                    if s == "content" and obj == THIS:
                        return True
                    return super().inline(g, name, obj, args)
            m = Mini(prog, H(prog, cls, f), maxpaths=1500)
            try:
                res = m.run(f, THIS, [("sym", "p", 0)])
            except TooManyPaths:
                continue
            ok = [(st, v) for st, v in res if not is_error(v, st.facts)]
            n += 1
            if value in ("char", "byte"):
                chk.ob(not ok, loc(f), "a %s that is marked as %s outside of a string is an error" % (short(cls), value))
            elif value is not None and fam not in STRINGS:
                chk.ob(not ok, loc(f), "a %s that is marked as %s is an error" % (short(cls), value))
            elif value is not None:
                unit = {"string": "char", "bytestring": "byte"}[value]
                for st, v in ok:
                    good = [t for t, b in st.facts.items() if b and call_of(t, "parameter_equals") and t[2] == CONTENT and t[4:5] == (("k", '"%s"' % unit),)]
                    chk.ob(bool(good), loc(f), "a %s marked as %s is accepted only over a %s node" % (short(cls), value, unit))
                    num = [t for t, b in st.facts.items() if b and t[0] == "isa" and t[1] == CONTENT and "NumpyArray" in t[2]]
                    chk.ob(bool(num), loc(f), "a %s marked as %s is accepted only over a NumpyArray" % (short(cls), value))
                    dt = [t for t, b in st.facts.items() if t[0] == "op" and t[1] in ("==", "!=") and len(t) == 4 and any(call_of(u, "dtype") and u[2] == CONTENT or u == ("fld", CONTENT, "dtype_") for u in t[2:]) and UINT8 in t[2:] and b == (t[1] == "==")]
                    chk.ob(bool(dt), loc(f), "a %s marked as %s is accepted only over unsigned bytes" % (short(cls), value))
    chk.floor("parameter_cases", n, 60)


def binding(chk, prog):
    """Content.validityerror() in Python is None exactly for the empty message"""
    from checks import C08py
    prog.load("python", lambda s: s.endswith("content.cpp"))
    n = 0
    for f in list(prog.funcs.values()):
        if not f.get("body") or not f.get("path", "").endswith("python/content.cpp"):
            continue
        for x in walk(f["body"]):
            if x.get("k") != "call" or not x.get("f") or not x["f"].get("cls", "").startswith("pybind11::class_") or len(x.get("c", [])) < 2:
                continue
            a = strip(x["c"][0])
            if a["k"] != "str" or a["v"] != "validityerror":
                continue
            l = C08py.lambda_of(x["c"][1], f)
            if l is None:
                continue

            class H(C08.Base):
                def inline(self, g, name, obj, args):
                    return obj is None and g.get("path") == f.get("path")

                def call(self, m, node, fr, q, obj, args, st):
                    if q.startswith("ctor:pybind11::none"):
                        return ("none",)
                    if q.startswith("ctor:pybind11::") and len(args) == 1:
                        return args[0]
                    if q.startswith("pybind11::cast") and args:
                        return args[0]
                    return None
            try:
                res = Mini(prog, H(prog, "awkward::Content")).run(C08py.pseudo(f, l), None, [THIS])
            except TooManyPaths:
                continue
            n += 1
            for st, v in res:
                e = [t for t in empties(st.facts) if call_of(t, "validityerror")]
                if v == ("none",):
                    chk.ob(bool(e), loc(f, x), "validityerror() is None only if no error was reported")
                elif call_of(v, "validityerror") or deps(v, lambda t: call_of(t, "validityerror")):
                    chk.ob(True, loc(f, x), "validityerror() hands the message on")
    chk.cov["bindings"] = n


# ------------------------------------------------------------------ Python entry points
def python(chk):
    from vlib import pymini as P
    pkg = P.Package(REPO)
    ARR = ("sym", "array")
    mod = pkg.mods["ak.operations.describe"]

    def where(mod, fn):
        return "%s:%d" % (os.path.relpath(mod.path, REPO), fn.lineno)

    class H(P.Hooks):
        def __init__(self, kind):
            self.kind = kind

        def isa(self, v, classes, st):
            if v == ARR:
                return self.kind in classes or (self.kind == "ak.layout.NumpyArray" and "ak.layout.Content" in classes)
            return None

        def inline(self, q, fn, args):
            return q.startswith("local:") or (q.startswith("ak.operations.describe.") and not q.endswith(".validity_error"))

    fn = mod.funcs.get("validity_error")
    n = 0
    if fn is not None:
        for kind in ("ak.highlevel.Array", "ak.highlevel.Record", "ak.highlevel.ArrayBuilder", "ak.layout.NumpyArray", "ak.layout.Record", "ak.layout.ArrayBuilder", "ak.partition.PartitionedArray"):
            for exc in (P.TRUE, P.FALSE):
                res = P.PyMini(pkg, H(kind)).run(mod, fn, {"array": ARR, "exception": exc})
                for st, k, v in res:
                    n += 1
                    if k == "raise":
                        ok = exc == P.TRUE and bool(P.deps(v, lambda t: t[0] == "call" and t[1][0] == "attr" and t[1][2] == "validityerror"))
                        chk.ob(ok, where(mod, fn), "validity_error of a %s does not raise something else" % kind)
                        continue
                    src = P.deps(v, lambda t: t[0] == "call" and (t[1][0] == "attr" and t[1][2] == "validityerror" or t[1][0] == "glob" and t[1][1].endswith("validity_error")))
                    known_none = [t for t, b in st.facts.items() if b and t[0] == "op" and t[1] == "is" and t[3] == P.NONE and P.deps(t[2], lambda u: u[0] == "attr" and u[2] == "validityerror")]
                    chk.ob(bool(src) or (v == P.NONE and bool(known_none)), where(mod, fn), "validity_error of a %s hands on what its layout reports" % kind)
    fn = mod.funcs.get("is_valid")
    if fn is not None:
        for st, k, v in P.PyMini(pkg, H("?")).run(mod, fn, {"array": ARR, "exception": ("sym", "exception")}):
            if k != "return":
                continue
            n += 1
            if v[0] == "k":
                # decided by a branch on the result
                fs = [(t, b) for t, b in st.facts.items() if t[0] == "op" and t[1] == "is" and t[3] == P.NONE]
                ok = len(fs) == 1 and fs[0][1] == bool(v[1])
            else:
                neg, w = P.norm(v)
                ok = not neg and w[0] == "op" and w[1] == "is" and w[3] == P.NONE and bool(P.deps(w[2], lambda t: t[0] == "glob" and t[1].endswith("validity_error")))
            chk.ob(ok, where(mod, fn), "is_valid is True exactly if there is no validity error")
    pm = pkg.mods["ak.partition"]
    for cn, c in pm.classes.items():
        for f in c.body:
            import ast
            if isinstance(f, ast.FunctionDef) and f.name == "validityerror":
                class HP(P.Hooks):
                    iterations = True
                handed = False
                for st, k, v in P.PyMini(pkg, HP()).run(pm, f, {"self": ("sym", "self")}):
                    if k != "return":
                        continue
                    verr = lambda t: t[0] == "call" and t[1][0] == "attr" and t[1][2] == "validityerror"
                    handed = handed or bool(P.deps(v, verr))
                    if v != P.NONE:
                        if verr(v) and P.deps(v, lambda t: t[0] == "elem"):
                            chk.ob(st.facts.get(("op", "is", v, P.NONE)) is False, where(pm, f), "%s: what one partition reports is not the answer unless it is an error" % cn)
                        continue
                    n += 1
                    for tr in st.trace:
                        if tr[0] != "iter" or not P.deps(tr[1], lambda t: t[0] == "attr" and t[2] == "partitions"):
                            continue
                        part = P.deps(tr[1], lambda t: t[0] == "item" and P.deps(t[1], lambda u: u[0] == "attr" and u[2] == "partitions"))
                        ok = tr[2] != "break" and not part and any(b and t[0] == "op" and t[1] == "is" and t[3] == P.NONE and P.deps(t[2], verr) for t, b in tr[3])
                        chk.ob(ok, where(pm, f), "%s: every partition is validated" % cn)
                chk.ob(handed, where(pm, f), "%s: the error of a partition is reported" % cn)
    chk.floor("python_paths", n, 10)

