"""C16: element positions given by users are bounds-checked exactly, and lead to the element they name.

The element and range accessors of every array class, of indexes, identities, partitioned arrays and iterators are
interpreted path by path (vlib/mini.py).  For getitem_at: on every path that reaches the unchecked accessor its argument
is the requested position (known to be nonnegative) or position + length (known to be negative), the path has established
0 <= x < length for the class's own length, and every path that raises has established the opposite.  For getitem_range:
start and stop go through regularize_rangeslice (decided as in C04) with the true length, a flag for each that says
whether it was given, and on to the unchecked accessor in order.  For the unchecked accessors: what they return is the
element or range at that position (offsets, indexes and tags are compared with the child's length before the child is
entered; mask polarity and bit order are evaluated for every combination; every buffer is cut at the same place).  Loops
over elements stay below the length.  The Python bindings and partitioned arrays are interpreted with the same rules.
"""
from vlib.core import *
from vlib.mini import *
from vlib.mini import short
from checks import C08

THIS = C08.THIS
AT, START, STOP, STEP = ("sym", "at"), ("sym", "start"), ("sym", "stop"), ("sym", "step")


def fld(n):
    return ("fld", THIS, n)


CONTENT, CONTENTS = fld("content_"), fld("contents_")


# ------------------------------------------------------------------ polynomials over terms
def poly(t):
    """term -> {monomial: coefficient}; a monomial is a sorted tuple of atoms"""
    if t[0] == "k" and isinstance(t[1], int):
        return {(): int(t[1])} if t[1] else {}
    if t[0] == "op" and len(t) == 4 and t[1] in ("+", "-"):
        return add(poly(t[2]), poly(t[3]), 1 if t[1] == "+" else -1)
    if t[0] == "op" and t[1] == "neg":
        return add({}, poly(t[2]), -1)
    if t[0] == "op" and len(t) == 4 and t[1] == "*":
        out = {}
        for m, c in poly(t[2]).items():
            for n, d in poly(t[3]).items():
                k = tuple(sorted(m + n, key=repr))
                out[k] = out.get(k, 0) + c * d
        return {k: c for k, c in out.items() if c}
    if t[0] == "call" and len(t) == 3 and nm(t) in ("length", "size"):
        return {(("len", t[2]),): 1}
    return {(t,): 1}


def add(a, b, s=1):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + s * c
    return {k: c for k, c in out.items() if c}


def form(d):
    return frozenset(d.items())


def ge(a, b=("k", 0)):
    """a >= b"""
    return form(add(poly(a), poly(b), -1))


def gt(a, b):
    return form(add(add(poly(a), poly(b), -1), {(): -1}))


def known(facts):
    out = set()
    for t, b in facts.items():
        while t[0] == "op" and t[1] == "!":
            t, b = t[2], not b
        if t[0] == "op" and len(t) == 4 and t[1] in ("<", "<=", ">", ">="):
            op, x, y = t[1], t[2], t[3]
            if op in (">", ">="):
                op, x, y = {">": "<", ">=": "<="}[op], y, x
            if not b:
                x, y = y, x
                op = "<=" if op == "<" else "<"
            out.add(gt(y, x) if op == "<" else ge(y, x))
    return out


def equal(facts, a, b):
    d = form(add(poly(a), poly(b), -1))
    e = form(add(poly(b), poly(a), -1))
    for t, v in facts.items():
        if t[0] == "op" and len(t) == 4 and t[1] in ("==", "!=") and v == (t[1] == "=="):
            f = form(add(poly(t[2]), poly(t[3]), -1))
            if f in (d, e):
                return True
    return False


def nm(t):
    return short(t[1]).split("<")[0] if t[0] == "call" and isinstance(t[1], str) else None


def same(a, b):
    return poly(a) == poly(b)


def ln(x):
    return ("call", "length", x)


def has(k, f):
    """f is known, possibly from a stronger fact about the same difference"""
    if f in k:
        return True
    d = dict(f)
    c = d.pop((), 0)
    if not d:
        return c >= 0
    for g in k:
        e = dict(g)
        x = e.pop((), 0)
        if e == d and x <= c:
            return True
    return False


def infeasible(k):
    """two facts contradict each other"""
    for g in k:
        d = dict(g)
        c = d.pop((), 0)
        if not d and c < 0:
            return True
        neg = {m: -x for m, x in d.items()}
        for h in k:
            e = dict(h)
            x = e.pop((), 0)
            if e == neg and c + x < 0:
                return True
    return False


# ------------------------------------------------------------------ interpretation
STOPAT = {"getitem_at_nowrap", "getitem_range_nowrap", "getitem_at", "getitem_range", "shallow_copy", "array", "peek_array", "classname", "failure", "success",
          "handle_error", "toByteMaskedArray", "toIndexedOptionArray64", "getitem_nothing", "partitionid_index_at", "set_cache_depths_from", "caches", "quote"}


class Hk(C08.Base):
    _sz = {}

    def __init__(self, prog, cls):
        super().__init__(prog, cls)
        self.raised = []
        self.seen = []

    def call(self, m, node, fr, q, obj, args, st):
        name = short(q).split("<")[0]
        if name == "handle_error" and args and nm(args[0]) == "failure":
            self.raised.append((st.copy(), node))
            return []
        if name == "regularize_rangeslice" and obj is None and len(args) >= 6:
            start, stop = args[0], args[1]
            rest = tuple(args[2:6])
            for i, w in ((0, "start"), (1, "stop")):
                a = strip(node["c"][i])
                while a["k"] == "un" and a["op"] == "&":
                    a = strip(a["c"][0])
                m.assign(fr, a, ("reg", w, start, stop) + rest, st)
            return ("void",)
        if name == "append" and obj is not None and (node.get("f", {}).get("cls") or "").endswith("::Slice") and args:
            m.mutate(fr, node["obj"], list(args), st)
            return ("void",)
        if name == "none" and obj is None and not args:
            return ("slicenone",)
        if name in ("getitem_at_nowrap", "getitem_range_nowrap"):
            self.seen.append((name, obj, args, dict(st.facts), list(m.loops), node, fr.fn))
        return None

    def inline(self, g, name, obj, args):
        s = short(name).split("<")[0]
        if s in STOPAT:
            return False
        if g["key"] not in Hk._sz:
            Hk._sz[g["key"]] = sum(1 for _ in walk(g["body"]))
        if obj == THIS:
            return Hk._sz[g["key"]] < 260
        return obj is None and g["q"].startswith("awkward::") and not g.get("cls") and Hk._sz[g["key"]] < 260


# the length of each class, in terms of its own buffers
LENGTH = {
    "BitMaskedArray": fld("length_"), "ByteMaskedArray": ln(fld("mask_")), "EmptyArray": ("k", 0), "IndexedArrayOf": ln(fld("index_")),
    "ListArrayOf": ln(fld("starts_")), "ListOffsetArrayOf": ("op", "-", ln(fld("offsets_")), ("k", 1)), "NumpyArray": ("at", fld("shape_"), ("k", 0)),
    "RecordArray": fld("length_"), "RegularArray": fld("length_"), "UnionArrayOf": ln(fld("tags_")), "UnmaskedArray": ln(CONTENT),
    "IndexOf": fld("length_"), "IdentitiesOf": fld("length_"),
}
NOTSLICED = {"None", "Record"}


def fam(cls):
    return short(cls).split("<")[0]


def lengths(chk, prog, cls):
    """what length() can return, checked against the class's own buffers"""
    f = C08.method(prog, cls, "length", 0)
    if f is None:
        return [LENGTH[fam(cls)]] if fam(cls) in LENGTH else []
    h = Hk(prog, cls)
    res = Mini(prog, h, maxpaths=200).run(f, THIS, [])
    want = LENGTH.get(fam(cls))
    out = []
    for st, v in res:
        if want is not None and not (v == ("k", -1) and fam(cls) == "NumpyArray"):
            chk.ob(same(v, want) or v[0] == "k" and equal(st.facts, want, v), loc(f), "%s: length() is the number of its elements" % short(cls))
        out.append(v)
    if fam(cls) == "VirtualArray":
        for st, v in res:
            gen = ln(fld("generator_"))
            k = known(st.facts)
            ok = same(v, gen) and has(k, ge(gen)) or nm(v) == "length" and bool(deps(v, lambda t: nm(t) in ("array", "generate_and_check", "generate"))) and has(k, gt(("k", 0), gen))
            chk.ob(ok or not deps(v, lambda t: t[0] == "k" and t[1] != 0), loc(f), "VirtualArray: length() is the declared length, or that of the generated array if none was declared")
    if want is not None and not any(same(v, want) for v in out):
        out.append(want)
    return out


def run():
    chk = Check("C16", "path-wise abstract interpretation of every element and range accessor with polynomial normalisation of positions", __doc__.strip().replace("\n", " "))
    prog = Program().load("libawkward")
    n = 0
    classes = sorted(set(prog.derived("awkward::Content")) - {"awkward::Content"})
    others = sorted({f["cls"] for f in prog.funcs.values() if f.get("cls") and fam(f["cls"]) in ("IndexOf", "IdentitiesOf")}) + ["awkward::IrregularlyPartitionedArray"]
    for cls in classes + others:
        if fam(cls) == "RawArrayOf":
            continue
        try:
            if fam(cls) in NOTSLICED:
                refuses(chk, prog, cls)
                continue
            ls = lengths(chk, prog, cls)
            n += at(chk, prog, cls, ls)
            n += rng(chk, prog, cls, ls)
            n += at_nowrap(chk, prog, cls)
            n += range_nowrap(chk, prog, cls)
        except TooManyPaths:
            chk.count("beyond_path_bound")
    chk.floor("accessors", n, 60)
    from checks import C16x, C04
    C16x.run(chk, prog)
    fns = C04.kernels(chk, C04.kernel_spec(), set())[0]
    if "awkward_regularize_rangeslice" in fns:
        C04.rangeslice(chk, fns["awkward_regularize_rangeslice"])
    return chk.finish()


def refuses(chk, prog, cls):
    for name, args in (("getitem_at", [AT]), ("getitem_range", [START, STOP])):
        f = C08.method(prog, cls, name, len(args))
        if f is not None:
            res = Mini(prog, Hk(prog, cls), maxpaths=100).run(f, THIS, args)
            chk.ob(not res, loc(f), "%s: %s raises, there are no elements" % (short(cls), name))


def interpret(prog, cls, name, args):
    f = C08.method(prog, cls, name, len(args))
    if f is None:
        return None, None, None, None
    h = Hk(prog, cls)
    m = Mini(prog, h, maxpaths=400)
    return f, h, m, m.run(f, THIS, args)


def at(chk, prog, cls, ls):
    f, h, m, res = interpret(prog, cls, "getitem_at", [AT])
    if f is None:
        return 0
    label = short(cls)
    if fam(cls) == "EmptyArray":
        chk.ob(not res, loc(f), "EmptyArray: every position is out of range")
        return 1
    good = 0
    for st, v in res:
        if nm(v) != "getitem_at_nowrap" or v[2] != THIS:
            if nm(v) == "getitem_at" and len(v) == 4:
                chk.ob(same(v[3], AT), loc(f), "%s: the requested position is handed on unchanged" % label)
                good += 1
                continue
            chk.count("returns_not_understood")
            continue
        good += 1
        x = v[3]
        k = known(st.facts)
        if infeasible(k):
            continue
        pos, neg = has(k, ge(AT)), has(k, gt(("k", 0), AT))
        l = [l for l in ls if same(x, ("op", "+", AT, l))]
        chk.ob(same(x, AT) and pos or bool(l) and neg, loc(f), "%s: the element at a position is that position, or position + length if negative" % label)
        chk.ob(has(k, ge(x)) or same(x, AT) and pos, loc(f), "%s: positions below -length are refused" % label)
        chk.ob(any(has(k, gt(l, x)) for l in ls) or bool(l) and neg and any(same(y, l[0]) for y in ls), loc(f), "%s: positions not below the length are refused" % label)
    chk.ob(good > 0 or not res, loc(f), "%s: positions in range are accepted" % label)
    raised = [(s, nd) for s, nd in h.raised] + list(m.throws)
    for st, nd in raised:
        k = known(st.facts)
        if infeasible(k):
            continue
        why = any(has(k, ge(AT, l)) for l in ls) or any(has(k, gt(("k", 0), ("op", "+", AT, l))) for l in ls) or inconsistent(k)
        chk.ob(why, loc(f, nd), "%s: a position is refused only if it is out of range" % label)
    chk.ob(bool(raised), loc(f), "%s: positions out of range are refused" % label)
    return 1


def inconsistent(k):
    """the array itself is not consistent: a second buffer is shorter than the first"""
    for g in k:
        atoms = {a for m in dict(g) for a in m}
        if any(a[0] == "len" and a[1] in (fld("stops_"), fld("identities_"), fld("index_")) for a in atoms if isinstance(a, tuple)):
            return True
    return False


def given(t, which):
    """the flag says whether a bound was given"""
    while t[0] == "op" and t[1] == "!" and t[2][0] == "op" and t[2][1] in ("==", "!="):
        t = ("op", "!=" if t[2][1] == "==" else "==", t[2][2], t[2][3])
    return t in (("op", "!=", which, ("slicenone",)), ("op", "!=", ("slicenone",), which))


def rng(chk, prog, cls, ls):
    three = fam(cls) == "IrregularlyPartitionedArray"
    f, h, m, res = interpret(prog, cls, "getitem_range", [START, STOP, STEP] if three else [START, STOP])
    if f is None:
        return 0
    label = short(cls)
    if fam(cls) == "EmptyArray":
        for st, v in res:
            chk.ob(nm(v) in ("shallow_copy", "getitem_nothing", "getitem_range_nowrap") or v[0] == "new" and v[1] == cls, loc(f), "EmptyArray: a range is empty")
        return 1
    for st, v in res:
        if nm(v) == "getitem_range" and len(v) == 5 and v[2] != THIS:
            chk.ob((v[3], v[4]) == (START, STOP), loc(f), "%s: start and stop are handed on unchanged and in order" % label)
            continue
        if nm(v) != "getitem_range_nowrap" or v[2] != THIS:
            chk.count("returns_not_understood")
            continue
        s, e = v[3], v[4]
        ok = s[0] == "reg" and s[1] == "start" and e[0] == "reg" and e[1] == "stop" and s[2:] == e[2:]
        if not chk.ob(ok, loc(f), "%s: start and stop are regularized before elements are taken, and used in order" % label):
            continue
        a, b, posstep, hs, he, l = s[2:]
        chk.ob(a == START and b == STOP, loc(f), "%s: it is the requested start and stop that are regularized" % label)
        chk.ob(given(hs, START) or st.facts.get(("op", "!=", START, ("slicenone",))) is not None and hs[0] == "k", loc(f), "%s: the start counts as given exactly if it was" % label)
        chk.ob(given(he, STOP) or st.facts.get(("op", "!=", STOP, ("slicenone",))) is not None and he[0] == "k", loc(f), "%s: the stop counts as given exactly if it was" % label)
        chk.ob(any(same(l, y) for y in ls), loc(f), "%s: the range is clipped to the true length" % label)
        if not three:
            chk.ob(posstep in (("k", True), ("k", 1)), loc(f), "%s: the range runs forward" % label)
        else:
            step = v[5]
            none = st.facts.get(("op", "==", STEP, ("slicenone",)))
            chk.ob(step == STEP and none is False or step == ("k", 1) and none is True, loc(f), "%s: the step is the requested one, or 1 if none was given" % label)
            ok = posstep in (("op", ">", STEP, ("k", 0)), ("op", "<", ("k", 0), STEP)) or posstep[0] == "op" and posstep[1] in (">", "<") and step in posstep[2:] and ("k", 0) in posstep[2:] and (posstep[2] == step) == (posstep[1] == ">") or none is True and posstep in (("k", True), ("k", 1))
            chk.ob(ok, loc(f), "%s: the direction is that of the step" % label)
    for st, nd in list(h.raised) + list(m.throws):
        k = known(st.facts)
        chk.ob(any(a[0] == "len" or a[0] == "fld" for g in k for mm in dict(g) for a in mm if isinstance(a, tuple) and isinstance(a[0], str) and a[1] in (fld("identities_"), fld("stops_")) or isinstance(a, tuple) and a[0] == "reg") and inconsistent(k) or three, loc(f, nd), "%s: a range is never refused (unless the buffers are inconsistent)" % label)
    return 1


def is_call(v, name, *args):
    return nm(v) == name and len(v) == 2 + len(args) and v[2] == args[0] and all(same(a, b) for a, b in zip(v[3:], args[1:]))


def none_value(v):
    return v[0] in ("glob", "global", "var", "fn", "call", "new") and "none" in repr(v).lower()


def at_nowrap(chk, prog, cls):
    fm = fam(cls)
    label = short(cls)
    if fm in ("BitMaskedArray", "ByteMaskedArray"):
        return masks(chk, prog, cls)
    f, h, m, res = interpret(prog, cls, "getitem_at_nowrap", [AT])
    if f is None:
        return 0
    elem = lambda b, x=AT: ("call", "x", fld(b), x)
    for st, v in res:
        k = known(st.facts)
        if infeasible(k):
            continue
        if fm in ("ListArrayOf", "ListOffsetArrayOf"):
            if nm(v) == "getitem_nothing":
                v = ("call", "getitem_range_nowrap", v[2], ("k", 0), ("k", 0))
            if nm(v) != "getitem_range_nowrap" or v[2] != CONTENT:
                chk.count("returns_not_understood")
                continue
            s, e = v[3], v[4]
            b = {"ListArrayOf": (("starts_", AT), ("stops_", AT)), "ListOffsetArrayOf": (("offsets_", AT), ("offsets_", ("op", "+", AT, ("k", 1))))}[fm]
            S = find(h, b[0])
            E = find(h, b[1])
            if S is None or E is None:
                chk.ob(False, loc(f), "%s: a list is bounded by %s of its own position" % (label, "starts and stops" if fm == "ListArrayOf" else "consecutive offsets"))
                continue
            if s[0] == "k" and e[0] == "k":
                chk.ob(s == e and equal(st.facts, S, E), loc(f), "%s: a list is replaced by an empty range only if its start equals its stop" % label)
                continue
            chk.ob(same(s, S) and same(e, E), loc(f), "%s: a list runs from its start to its stop" % label)
            chk.ob(has(k, ge(s)), loc(f), "%s: negative starts are refused before the content is entered" % label)
            chk.ob(has(k, ge(e, s)), loc(f), "%s: stops below the start are refused before the content is entered" % label)
            chk.ob(has(k, ge(ln(CONTENT), e)), loc(f), "%s: stops beyond the content are refused before it is entered" % label)
        elif fm == "IndexedArrayOf":
            I = find(h, ("index_", AT))
            option = "true" in cls
            if I is None:
                chk.ob(False, loc(f), "%s: the index is read at the requested position" % label)
                continue
            if nm(v) == "getitem_at_nowrap" and v[2] == CONTENT:
                chk.ob(same(v[3], I), loc(f), "%s: the element is the one that the index names" % label)
                chk.ob(has(k, ge(I)), loc(f), "%s: a negative index does not enter the content" % label)
                chk.ob(has(k, gt(ln(CONTENT), I)), loc(f), "%s: indexes not below the content's length are refused" % label)
            else:
                chk.ob(option and has(k, gt(("k", 0), I)), loc(f), "%s: a missing value stands for a negative index of an option array only" % label)
        elif fm == "UnionArrayOf":
            T, I = find(h, ("tags_", AT)), find(h, ("index_", AT))
            if T is None or I is None:
                chk.ob(False, loc(f), "%s: tag and index are read at the requested position" % label)
                continue
            if nm(v) != "getitem_at_nowrap":
                chk.count("returns_not_understood")
                continue
            c = v[2]
            if c[0] == "at" and c[1] == CONTENTS or nm(c) == "content" and c[2] == THIS:
                t = c[2] if c[0] == "at" else c[3]
                chk.ob(same(t, T), loc(f), "%s: the content is the one that the tag names" % label)
                chk.ob(has(k, gt(("call", "size", CONTENTS), T)) or nm(c) == "content", loc(f), "%s: tags not below the number of contents are refused" % label)
                chk.ob(has(k, ge(T)) or unsigned(f, T) or nm(c) == "content", loc(f), "%s: negative tags are refused" % label)
            chk.ob(same(v[3], I), loc(f), "%s: the element is the one that the index names" % label)
            chk.ob(has(k, ge(I)), loc(f), "%s: negative indexes are refused" % label)
            chk.ob(has(k, gt(ln(c), I)), loc(f), "%s: indexes not below the length of the content that the tag names are refused" % label)
        elif fm == "RegularArray":
            sz = fld("size_")
            if nm(v) == "getitem_range_nowrap":
                chk.ob(v[2] == CONTENT and same(v[3], ("op", "*", AT, sz)) and same(v[4], ("op", "*", ("op", "+", AT, ("k", 1)), sz)), loc(f), "RegularArray: list i runs from i*size to (i + 1)*size")
        elif fm == "UnmaskedArray":
            if nm(v) == "getitem_at_nowrap":
                chk.ob(v[2] == CONTENT and same(v[3], AT), loc(f), "UnmaskedArray: the element is that of the content")
        elif fm == "VirtualArray":
            if nm(v) == "getitem_at_nowrap":
                chk.ob(same(v[3], AT) and v[2] != THIS, loc(f), "VirtualArray: the element is that of the generated array")
        elif fm == "RecordArray":
            if v[0] == "new" and fam(v[1]) == "Record":
                chk.ob(same(dict(v[2]).get("at_", ("void",)), AT), loc(f), "RecordArray: the record is the one at the requested position")
        elif fm == "NumpyArray":
            if v[0] == "new" and fam(v[1]) == "NumpyArray":
                d = dict(v[2])
                want = ("op", "+", fld("byteoffset_"), ("op", "*", ("at", fld("strides_"), ("k", 0)), AT))
                chk.ob(same(d.get("byteoffset_", ("void",)), want), loc(f), "NumpyArray: the element starts at byteoffset + position*stride")
                chk.ob(d.get("ptr_") == fld("ptr_"), loc(f), "NumpyArray: the element is in the same buffer")
        elif fm == "EmptyArray":
            chk.ob(False, loc(f), "EmptyArray: there is no element at any position")
        elif fm == "IrregularlyPartitionedArray":
            chk.count("partition_element")
        elif fm == "IndexOf":
            if nm(v) == "index_getitem_at_nowrap":
                chk.ob(same(v[-1], AT), loc(f), "%s: the value is read at the requested position" % label)
                d = v[-2]
                chk.ob(same(d, ("op", "+", fld("ptr_"), fld("offset_"))) or nm(d) == "data", loc(f), "%s: positions count from the offset" % label)
    if fm == "IdentitiesOf":
        rows(chk, f, m, res, label)
    justify(chk, fm, label, f, h, m)
    return 1


def rows(chk, f, m, res, label):
    w, o = fld("width_"), fld("offset_")
    first = ("op", "+", o, ("op", "*", AT, w))
    last = ("op", "+", o, ("op", "*", ("op", "+", AT, ("k", 1)), w))
    inits = {x for i in m.loopinfo.values() for x in i if x is not None}
    for x in inits:
        if x[0] == "k":
            continue
        chk.ob(same(x, first), loc(f), "%s: row i starts at offset + i*width" % label)
    for st, v in res:
        for t, b in st.facts.items():
            if t[0] == "op" and t[1] in ("<", "!=") and t[2][0] == "idx" and not b:
                if not inits <= {("k", 0)}:
                    chk.ob(same(t[3], last), loc(f), "%s: row i ends at offset + (i + 1)*width" % label)
                else:
                    chk.ob(same(t[3], w), loc(f), "%s: a row has width values" % label)
        for t in deps(v, lambda t: t[0] == "at" and bool(deps(t[1], lambda u: u == fld("ptr_")))):
            i = [u for u in deps(t[2], lambda u: u[0] == "idx")]
            if i and inits <= {("k", 0)}:
                chk.ob(same(t[2], ("op", "+", first, i[0])), loc(f), "%s: value j of row i is at offset + i*width + j" % label)


def find(h, want):
    """the term of a buffer element, as the accessor read it"""
    b, x = want
    for name, obj, args, facts, loops, node, fn in h.seen:
        if name == "getitem_at_nowrap" and obj == fld(b) and len(args) == 1 and same(args[0], x):
            return ("call", node["f"]["q"], obj, args[0])
    return None


def unsigned(f, t):
    """the tag is held in an unsigned variable, in which negative values are large"""
    for n in walk(f["body"]):
        if n.get("k") == "decl":
            for v in n["v"]:
                ty = f["u"].types[v["t"]] if v.get("t", -1) >= 0 else ""
                if ("unsigned" in ty or "size_t" in ty or "uint" in ty) and v.get("init") and any(x.get("k") == "mem" and x["n"] == "tags_" for x in walk(v["init"])):
                    return True
    return False


def justify(chk, fm, label, f, h, m):
    """an error is raised only for an array that is not valid"""
    if fm not in ("ListArrayOf", "ListOffsetArrayOf", "IndexedArrayOf", "UnionArrayOf"):
        return
    for st, nd in h.raised:
        k = known(st.facts)
        if infeasible(k):
            continue
        ok = False
        if fm in ("ListArrayOf", "ListOffsetArrayOf"):
            b = {"ListArrayOf": (("starts_", AT), ("stops_", AT)), "ListOffsetArrayOf": (("offsets_", AT), ("offsets_", ("op", "+", AT, ("k", 1))))}[fm]
            S, E = find(h, b[0]), find(h, b[1])
            if S and E:
                if equal(st.facts, S, E):
                    # the empty range: nothing can be wrong with it
                    ok = any(len(dict(g)) == 1 and () in dict(g) for g in k) or has(k, gt(("k", 0), ln(CONTENT)))
                else:
                    ok = has(k, gt(("k", 0), S)) or has(k, gt(S, E)) or has(k, gt(E, ln(CONTENT)))
        elif fm == "IndexedArrayOf":
            I = find(h, ("index_", AT))
            ok = I is not None and (has(k, gt(("k", 0), I)) or has(k, ge(I, ln(CONTENT))))
        else:
            T, I = find(h, ("tags_", AT)), find(h, ("index_", AT))
            ok = T is not None and I is not None and (has(k, gt(("k", 0), T)) or has(k, ge(T, ("call", "size", CONTENTS))) or has(k, gt(("k", 0), I)) or has(k, ge(I, ln(("at", CONTENTS, T)))))
        chk.ob(ok, loc(f, nd), "%s: an element is refused only if its bounds are out of range" % label)


class Bits(Hk):
    def __init__(self, prog, cls, mask, lsb, valid, at):
        super().__init__(prog, cls)
        self.mask, self.lsb, self.valid, self.at = mask, lsb, valid, at
        self.read = []

    def field(self, base, name, st):
        if base == THIS and name == "valid_when_":
            return ("k", self.valid)
        if base == THIS and name == "lsb_order_":
            return ("k", self.lsb)
        return None

    def call(self, m, node, fr, q, obj, args, st):
        name = short(q).split("<")[0]
        if name == "getitem_at_nowrap" and obj == fld("mask_"):
            self.read.append(args[0])
            return ("k", self.mask)
        return super().call(m, node, fr, q, obj, args, st)


def masks(chk, prog, cls):
    f = C08.method(prog, cls, "getitem_at_nowrap", 1)
    if f is None:
        return 0
    bit = fam(cls) == "BitMaskedArray"
    label = short(cls)
    for lsb in ((True, False) if bit else (None,)):
        for valid in (True, False):
            for i in (range(16) if bit else (None,)):
                pos = ("k", i) if bit else AT
                values = []
                if bit:
                    b = i % 8 if lsb else 7 - i % 8
                    values = [((1 << b), True), (255 - (1 << b), False)]
                else:
                    values = [(0, False), (1, True)]
                for byte, isset in values:
                    h = Bits(prog, cls, byte, lsb, valid, i)
                    res = Mini(prog, h, maxpaths=50).run(f, THIS, [pos])
                    if bit:
                        chk.ob(set(h.read) <= {("k", i // 8)}, loc(f), "BitMaskedArray: the mask byte of element i is number i/8")
                    else:
                        chk.ob(all(same(r, AT) for r in h.read), loc(f), "ByteMaskedArray: the mask is read at the requested position")
                    for st, v in res:
                        if nm(v) == "getitem_at_nowrap" and v[2] == CONTENT:
                            chk.ob(isset == valid, loc(f), "%s: an element is present exactly if its mask %s equals valid_when%s" % (label, "bit" if bit else "value", " (%s first)" % ("least significant bit" if lsb else "most significant bit") if bit else ""))
                            chk.ob(same(v[3], pos), loc(f), "%s: the element is that of the content at the same position" % label)
                        elif none_value(v):
                            chk.ob(isset != valid, loc(f), "%s: an element is missing exactly if its mask %s differs from valid_when%s" % (label, "bit" if bit else "value", " (%s first)" % ("least significant bit" if lsb else "most significant bit") if bit else ""))
                        else:
                            chk.count("returns_not_understood")
    return 1


CUT = {
    "ByteMaskedArray": [("mask_", START, STOP), ("content_", START, STOP)],
    "IndexedArrayOf": [("index_", START, STOP)],
    "ListArrayOf": [("starts_", START, STOP), ("stops_", START, STOP)],
    "ListOffsetArrayOf": [("offsets_", START, ("op", "+", STOP, ("k", 1)))],
    "UnionArrayOf": [("tags_", START, STOP), ("index_", START, STOP)],
    "UnmaskedArray": [("content_", START, STOP)],
    "RegularArray": [("content_", ("op", "*", START, fld("size_")), ("op", "*", STOP, fld("size_")))],
}
KEPT = {"IndexedArrayOf": ["content_"], "ListArrayOf": ["content_"], "ListOffsetArrayOf": ["content_"], "UnionArrayOf": ["contents_"], "RegularArray": ["size_"], "ByteMaskedArray": ["valid_when_"], "NumpyArray": ["ptr_", "strides_", "itemsize_"]}
COUNT = ("op", "-", STOP, START)


def range_nowrap(chk, prog, cls):
    fm = fam(cls)
    if fm == "IrregularlyPartitionedArray":
        return 0
    f, h, m, res = interpret(prog, cls, "getitem_range_nowrap", [START, STOP])
    if f is None:
        return 0
    label = short(cls)
    for st, v in res:
        if nm(v) == "shallow_copy" and v[2] == THIS and fm != "EmptyArray":
            l = LENGTH.get(fm)
            ok = equal(st.facts, START, ("k", 0)) and (l is not None and equal(st.facts, STOP, l) or fm == "VirtualArray" and equal(st.facts, STOP, ln(fld("generator_"))))
            chk.ob(ok, loc(f), "%s: the whole array stands for a range only if that runs from 0 to the length" % label)
            continue
        if nm(v) == "getitem_range_nowrap":
            chk.ob(len(v) == 5 and (v[3], v[4]) == (START, STOP), loc(f), "%s: start and stop are handed on unchanged and in order" % label)
            continue
        if v[0] != "new" or fam(v[1]) != fm:
            chk.count("returns_not_understood")
            continue
        d = dict(v[2])
        for b, s, e in CUT.get(fm, []):
            x = d.get(b, ("void",))
            if nm(x) == "getitem_range_nowrap" and len(x) == 5:
                chk.ob(x[2] == fld(b) and same(x[3], s) and same(x[4], e), loc(f), "%s: a range takes %s from the same place" % (label, b.rstrip("_")))
            else:
                chk.ob(x != fld(b) or fm in ("UnionArrayOf",) and False, loc(f), "%s: a range cuts %s" % (label, b.rstrip("_")))
        for b in KEPT.get(fm, []):
            x = d.get(b)
            if x is not None and x[0] in ("fld", "k"):
                chk.ob(x == fld(b), loc(f), "%s: a range keeps %s" % (label, b.rstrip("_")))
        if fm in ("RegularArray", "RecordArray", "IndexOf", "IdentitiesOf") and "length_" in d:
            x = d["length_"]
            if fm != "RegularArray" or not deps(x, lambda t: nm(t) == "length"):
                chk.ob(same(x, COUNT) or "stop" not in repr(x) and "start" not in repr(x) and x[0] != "fld" and x[0] != "k" and fm == "RegularArray", loc(f), "%s: a range has stop - start elements" % label)
        if fm == "RegularArray":
            zero = d.get("length_")
        if fm == "RecordArray":
            cs = d.get("contents_")
            if cs == CONTENTS:
                chk.ob(any(t[0] == "call" and nm(t) == "empty" and t[2] == CONTENTS and b for t, b in st.facts.items()) or equal(st.facts, ("call", "size", CONTENTS), ("k", 0)), loc(f), "RecordArray: a range cuts every field")
            elif cs is not None and cs[0] == "coll":
                for c in cs[1:]:
                    if nm(c) == "getitem_range_nowrap":
                        chk.ob((c[3], c[4]) == (START, STOP), loc(f), "RecordArray: every field is cut at the same place")
        if fm == "NumpyArray":
            want = ("op", "+", fld("byteoffset_"), ("op", "*", ("at", fld("strides_"), ("k", 0)), START))
            chk.ob(same(d.get("byteoffset_", ("void",)), want), loc(f), "NumpyArray: a range starts at byteoffset + start*stride")
            sh = d.get("shape_", ("void",))
            if sh[0] == "coll" and len(sh) > 1 and sh[1][0] == "op":
                chk.ob(same(sh[1], COUNT), loc(f), "NumpyArray: a range has stop - start elements")
        if fm in ("IndexOf", "IdentitiesOf"):
            x = d.get("offset_", ("void",))
            unit = START if fm == "IndexOf" else ("op", "*", fld("width_"), START)
            nz = ("op", "!=", START, STOP)
            ok = any(same(x, ("op", "+", fld("offset_"), u)) for u in (unit, ("op", "*", unit, nz), ("op", "*", unit, ("op", "!=", STOP, START)))) or same(x, fld("offset_")) and equal(st.facts, START, STOP)
            chk.ob(ok, loc(f), "%s: a range starts at offset + start" % label)
            if d.get("ptr_") is not None:
                chk.ob(d["ptr_"] == fld("ptr_"), loc(f), "%s: a range is in the same buffer" % label)
        if fm == "VirtualArray":
            g = d.get("generator_", ("void",))
            if g[0] == "new":
                gd = dict(g[2])
                if "length_" in gd:
                    chk.ob(same(gd["length_"], COUNT), loc(f), "VirtualArray: a range declares stop - start elements")
                rs = [t for t in deps(tuple(e[1:] for e in st.events) + tuple(st.env.values()) + (v,), lambda t: t[0] == "new" and fam(t[1]) == "SliceRange")]
                for t in rs:
                    x = dict(t[2])
                    chk.ob((x.get("start_"), x.get("stop_")) == (START, STOP), loc(f), "VirtualArray: a range is generated by slicing start to stop")
    if fm in ("IndexOf", "IdentitiesOf"):
        for st, v in res:
            k = known(st.facts)
            diff = equal(st.facts, START, STOP)
            if not diff:
                chk.ob(has(k, ge(START)) and has(k, ge(fld("length_"), STOP)) or any(t[0] == "op" and t[1] == "!=" and set(t[2:4]) == {START, STOP} and not b for t, b in st.facts.items()), loc(f), "%s: a range outside of the buffer is refused" % label)
    return 1
