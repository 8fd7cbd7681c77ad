"""C04: integers taken from data or slices are range-checked exactly.

Each kernel that validates positions is compiled to LLVM IR, inlined and put in
SSA form; integer values become polynomials over arguments, input loads and
loop variables; branch conditions along dominating edges and joins give the
facts that hold at a program point.  For every specialisation:
  store/load  the position recorded or read is in range at that point
  each        at the end of every iteration the element it examined is valid
  cover       the loop visits every element before success is reported
  fail        an error is reported only for an element that is out of range"""
import yaml
from vlib.core import *
from vlib.ssa import *
from vlib.kspec import *
from vlib.cfg import single_defs
from checks.C03 import norm as c03norm

INCOUNT = "fromstops[i] - fromstarts[i]"
POSN = ("((%(at)s >= 0 and V == fromstarts[i] + %(at)s) or (%(at)s < 0 and V == fromstarts[i] + %(at)s + " + INCOUNT + ")) "
        "and fromstarts[i] <= V < fromstops[i]")
STOPOK = "(fromstarts[i] <= fromstops[i] and (fromstarts[i] == fromstops[i] or fromstops[i] <= %s))"
OUT = "(%(at)s >= " + INCOUNT + " or %(at)s + " + INCOUNT + " < 0)"

SPEC = {
 "awkward_ByteMaskedArray_getitem_carry": dict(
    store={"tomask": "V == frommask[fromcarry[S]] and fromcarry[S] < lenmask"},
    fail="fromcarry[i] >= lenmask", cover=("fromcarry", "lencarry")),
 "awkward_Identities_from_IndexedArray": dict(
    store={"toptr": "V == -1 or (0 <= fromindex[i] < tolength and 0 <= S - fromindex[i]*fromwidth < fromwidth)"},
    fail="fromindex[i] >= tolength"),
 "awkward_Identities_from_ListArray": dict(
    store={"toptr": "V == -1 or (fromstarts[i] <= j < fromstops[i] and j < tolength and 0 <= S - j*(fromwidth + 1) <= fromwidth)"},
    fail="fromstarts[i] != fromstops[i] and fromstops[i] > tolength", assume=["fromwidth"]),
 "awkward_Identities_from_ListOffsetArray": dict(
    store={"toptr": "V == -1 or (fromoffsets[i] <= j < fromoffsets[i + 1] and j < tolength and 0 <= S - j*(fromwidth + 1) <= fromwidth)"},
    fail="fromoffsets[i] != fromoffsets[i + 1] and fromoffsets[i + 1] > tolength", assume=["fromwidth"],
    cover=("fromoffsets", "fromlength")),
 "awkward_Identities_from_UnionArray": dict(
    store={"toptr": "V == -1 or (fromtags[i] == which and 0 <= fromindex[i] < tolength and 0 <= S - fromindex[i]*fromwidth < fromwidth)"},
    fail="fromtags[i] == which and (fromindex[i] >= tolength or fromindex[i] < 0)"),
 "awkward_Identities_getitem_carry": dict(
    store={"newidentitiesptr": "carryptr[i] < length and S - width*i >= 0 and S - width*i < width"},
    fail="carryptr[i] >= length", cover=("carryptr", "lencarry")),
 "awkward_index_carry": dict(
    store={"toindex": "V == fromindex[carry[S]] and carry[S] < lenfromindex"},
    fail="carry[i] >= lenfromindex", cover=("carry", "length")),
 "awkward_IndexedArray_flatten_nextcarry": dict(
    store={"tocarry": "0 <= V < lencontent and V == fromindex[i]"}, each=("fromindex", "fromindex[i] < lencontent"),
    fail="fromindex[i] >= lencontent", cover=("fromindex", "lenindex")),
 "awkward_IndexedArray_flatten_none2empty": dict(
    each=("outindex", "outindex[i] < 0 or outindex[i] + 1 < offsetslength"),
    load={"offsets": "L == 0 or 0 <= L < offsetslength"},
    fail="outindex[i] >= 0 and outindex[i] + 1 >= offsetslength", cover=("outindex", "outindexlength")),
 "awkward_IndexedArray_getitem_carry": dict(
    store={"toindex": "V == fromindex[fromcarry[S]] and fromcarry[S] < lenindex"},
    fail="fromcarry[i] >= lenindex", cover=("fromcarry", "lencarry")),
 "awkward_IndexedArray_getitem_nextcarry": dict(
    store={"tocarry": "0 <= V < lencontent and V == fromindex[i]"},
    each=("fromindex", "0 <= fromindex[i] < lencontent"),
    fail="fromindex[i] < 0 or fromindex[i] >= lencontent", cover=("fromindex", "lenindex")),
 "awkward_IndexedArray_getitem_nextcarry_outindex": dict(
    store={"tocarry": "0 <= V < lencontent and V == fromindex[i]",
           "toindex": "(fromindex[S] < 0 and V == -1) or (0 <= fromindex[S] < lencontent and V >= 0)"},
    each=("fromindex", "fromindex[i] < lencontent"),
    fail="fromindex[i] >= lencontent", cover=("fromindex", "lenindex")),
 "awkward_IndexedArray_getitem_nextcarry_outindex_mask": dict(
    store={"tocarry": "0 <= V < lencontent and V == fromindex[i]",
           "toindex": "(fromindex[S] < 0 and V == -1) or (0 <= fromindex[S] < lencontent and V >= 0)"},
    each=("fromindex", "fromindex[i] < lencontent"),
    fail="fromindex[i] >= lencontent", cover=("fromindex", "lenindex")),
 "awkward_IndexedArray_simplify": dict(
    store={"toindex": "(outerindex[S] < 0 and V == -1) or (0 <= outerindex[S] < innerlength and V == innerindex[outerindex[S]])"},
    fail="outerindex[i] >= innerlength", cover=("outerindex", "outerlength")),
 "awkward_IndexedArray_validity": dict(
    each=("index", "index[i] < lencontent and (isoption != 0 or index[i] >= 0)"),
    fail="index[i] >= lencontent or (isoption == 0 and index[i] < 0)", cover=("index", "length")),
 "awkward_ListArray_broadcast_tooffsets": dict(
    store={"tocarry": "fromstarts[i] <= V < fromstops[i] and V < lencontent"},
    each=("fromstarts", "(fromstarts[i] == fromstops[i] or fromstops[i] <= lencontent) and fromoffsets[i + 1] - fromoffsets[i] >= 0 "
                        "and fromstops[i] - fromstarts[i] == fromoffsets[i + 1] - fromoffsets[i]"),
    fail="(fromstarts[i] != fromstops[i] and fromstops[i] > lencontent) or fromoffsets[i + 1] < fromoffsets[i] "
         "or fromstops[i] - fromstarts[i] != fromoffsets[i + 1] - fromoffsets[i]", cover=("fromstarts", "offsetslength - 1")),
 "awkward_ListArray_compact_offsets": dict(
    each=("fromstarts", "fromstops[i] >= fromstarts[i]"), fail="fromstops[i] < fromstarts[i]", cover=("fromstarts", "length")),
 "awkward_ListArray_getitem_carry": dict(
    store={"tostarts": "V == fromstarts[fromcarry[S]] and fromcarry[S] < lenstarts",
           "tostops": "V == fromstops[fromcarry[S]] and fromcarry[S] < lenstarts"},
    fail="fromcarry[i] >= lenstarts", cover=("fromcarry", "lencarry")),
 "awkward_ListArray_getitem_jagged_apply": dict(
    store={"tocarry": POSN % {"at": "sliceindex[j]"} + " and fromstops[i] <= contentlen"},
    load={"sliceindex": "slicestarts[i] <= L < slicestops[i] and L < sliceinnerlen"},
    fail="slicestarts[i] != slicestops[i] and (slicestops[i] < slicestarts[i] or slicestops[i] > sliceinnerlen or "
         "fromstops[i] < fromstarts[i] or (fromstarts[i] != fromstops[i] and fromstops[i] > contentlen) or " + OUT % {"at": "sliceindex[j]"} + ")",
    cover=("slicestarts", "sliceouterlen")),
 "awkward_ListArray_getitem_jagged_descend": dict(
    each=("fromstarts", "slicestops[i] - slicestarts[i] == fromstops[i] - fromstarts[i]"),
    fail="slicestops[i] - slicestarts[i] != fromstops[i] - fromstarts[i]", cover=("fromstarts", "sliceouterlen")),
 "awkward_ListArray_getitem_jagged_expand": dict(
    store={"tocarry": "fromstops[i] - fromstarts[i] == jaggedsize and 0 <= V - fromstarts[i] < jaggedsize",
           "multistarts": "fromstops[i] - fromstarts[i] == jaggedsize", "multistops": "fromstops[i] - fromstarts[i] == jaggedsize"},
    each=("fromstarts", "fromstops[i] >= fromstarts[i] and fromstops[i] - fromstarts[i] == jaggedsize"),
    fail="fromstops[i] < fromstarts[i] or fromstops[i] - fromstarts[i] != jaggedsize", cover=("fromstarts", "length")),
 "awkward_ListArray_getitem_jagged_numvalid": dict(
    load={"missing": "slicestarts[i] <= L < slicestops[i] and L < missinglength"},
    fail="slicestarts[i] != slicestops[i] and (slicestops[i] < slicestarts[i] or slicestops[i] > missinglength)",
    each=("slicestarts", "slicestarts[i] == slicestops[i] or slicestarts[i] < slicestops[i] <= missinglength"),
    cover=("slicestarts", "length")),
 "awkward_ListArray_getitem_next_array": dict(
    store={"tocarry": POSN % {"at": "fromarray[j]"} + " and fromstops[i] <= lencontent"},
    each=("fromstarts", STOPOK % "lencontent"),
    fail="fromstops[i] < fromstarts[i] or (fromstarts[i] != fromstops[i] and fromstops[i] > lencontent) or " + OUT % {"at": "fromarray[j]"},
    cover=("fromstarts", "lenstarts")),
 "awkward_ListArray_getitem_next_array_advanced": dict(
    store={"tocarry": POSN.replace("[i]", "[S]") % {"at": "fromarray[fromadvanced[S]]"} + " and fromstops[S] <= lencontent"},
    each=("fromstarts", STOPOK % "lencontent"),
    fail="fromstops[i] < fromstarts[i] or (fromstarts[i] != fromstops[i] and fromstops[i] > lencontent) or " + OUT % {"at": "fromarray[fromadvanced[i]]"},
    cover=("fromstarts", "lenstarts")),
 "awkward_ListArray_getitem_next_at": dict(
    store={"tocarry": POSN.replace("[i]", "[S]") % {"at": "at"}},
    fail=OUT % {"at": "at"}, cover=("fromstarts", "lenstarts")),
 "awkward_ListArray_validity": dict(
    each=("starts", "starts[i] == stops[i] or (0 <= starts[i] < stops[i] <= lencontent)"),
    fail="starts[i] != stops[i] and (starts[i] > stops[i] or starts[i] < 0 or stops[i] > lencontent)", cover=("starts", "length")),
 "awkward_ListOffsetArray_toRegularArray": dict(
    each=("fromoffsets", "fromoffsets[i + 1] - fromoffsets[i] >= 0"),
    cell=("size", "0", "fromoffsets", "V == fromoffsets[i + 1] - fromoffsets[i]"),
    fail="fromoffsets[i + 1] < fromoffsets[i] or q != fromoffsets[i + 1] - fromoffsets[i]", cover=("fromoffsets", "offsetslength - 1")),
 "awkward_RegularArray_broadcast_tooffsets": dict(
    each=("fromoffsets", "size == fromoffsets[i + 1] - fromoffsets[i] and size >= 0"),
    fail="fromoffsets[i + 1] < fromoffsets[i] or size != fromoffsets[i + 1] - fromoffsets[i]", cover=("fromoffsets", "offsetslength - 1")),
 "awkward_RegularArray_broadcast_tooffsets_size1": dict(
    each=("fromoffsets", "fromoffsets[i + 1] - fromoffsets[i] >= 0"),
    fail="fromoffsets[i + 1] < fromoffsets[i]", cover=("fromoffsets", "offsetslength - 1")),
 "awkward_RegularArray_getitem_next_array_regularize": dict(
    cell=("toarray", "i", "fromarray", "0 <= V < size and ((fromarray[i] >= 0 and V == fromarray[i]) or (fromarray[i] < 0 and V == fromarray[i] + size))"),
    fail="fromarray[i] >= size or fromarray[i] + size < 0", cover=("fromarray", "lenarray")),
 "awkward_RegularArray_getitem_next_at": dict(
    store={"tocarry": "0 <= V - S*size < size and ((at >= 0 and V == S*size + at) or (at < 0 and V == S*size + at + size))"},
    fail="at >= size or at + size < 0"),
 "awkward_UnionArray_validity": dict(
    each=("tags", "0 <= tags[i] < numcontents and 0 <= index[i] < lencontents[tags[i]]"),
    load={"lencontents": "0 <= L < numcontents"},
    fail="tags[i] < 0 or index[i] < 0 or tags[i] >= numcontents or index[i] >= lencontents[tags[i]]", cover=("tags", "length")),
 "awkward_regularize_arrayslice": dict(
    cell=("flatheadptr", "i", "flatheadptr", "0 <= V < length and ((p >= 0 and V == p) or (p < 0 and V == p + length))"),
    fail="p >= length or p + length < 0", cover=("flatheadptr", "lenflathead")),
}


def argtypes(spec):
    t = {}
    for k in spec:
        for s in k["specializations"]:
            t[s["name"]] = (k["name"], {a["name"]: a["type"] for a in s["args"]})
    return t


def rename(fn, specargs):
    """the specification's argument names, by position (the C++ names may differ)"""
    real = [a for a in fn.args if not a["sret"]]
    if len(real) == len(specargs):
        for a, n in zip(real, specargs):
            a["n"] = n


class Kernel:
    def __init__(self, ck, fn, name, spec, unsigned):
        self.ck, self.fn, self.name, self.spec = ck, fn, name, spec
        self.bg = background(fn, unsigned, LENGTHS | set(spec.get("assume", [])))

    def ob(self, ok, i, what):
        self.ck.ob(ok, self.fn.loc(i), "%s: %s" % (self.fn.n, what), ident=None)

    def run(self):
        fn, s = self.fn, self.spec
        for arg, text in s.get("store", {}).items():
            sp = Spec(text)
            n = 0
            for i, o in stores_to(fn, arg):
                n += 1
                b = {"V": stripped(fn, i["c"][0]), "S": store_index(i, o)}
                f = ("and", [self.bg, fn.path_all(i["blk"])])
                self.ob(holds(fn, sp, f, b), i, "the position recorded in %s is in range: %s" % (arg, text))
        for arg, text in s.get("load", {}).items():
            sp = Spec(text)
            for i in list(fn.ins.values()):
                if i["op"] != "load":
                    continue
                f0 = fn.iform(i["id"])
                for a in f0.atoms():
                    if a[0] == "ld" and a[1] == ("arg", arg) and len(a) == 3 and f0 == A(a):
                        f = ("and", [self.bg, fn.path_all(i["blk"])])
                        self.ob(holds(fn, sp, f, {"L": a[2]}), i, "%s is read in range: %s" % (arg, text))
        fails, succ = result_points(fn)
        if s.get("fail"):
            sp = Spec(s["fail"])
            for i in fails:
                f = ("and", [self.bg, fn.path_all(i["blk"])])
                self.ob(holds(fn, sp, f, {}), i, "an error is reported only if %s" % s["fail"])
        if s.get("each"):
            base, text = s["each"]
            self.latches(base, Spec(text), text)
        if s.get("cell"):
            root, idx, base, text = s["cell"]
            self.cells(root, idx, base, Spec(text), text)
        if s.get("cover"):
            self.cover(s["cover"][0], s["cover"][1], succ)

    def loops_of(self, base):
        """headers of innermost loops whose counter indexes loads of base"""
        fn = self.fn
        hs = {}
        for i in fn.ins.values():
            if i["op"] == "load":
                r, o = fn.addr(i["c"][0])
                if r != ("arg", base):
                    continue
                sz = SZ.get(i["t"], 1)
                ix = Poly({m: c // sz for m, c in o.d.items()}) if all(c % sz == 0 for c in o.d.values()) else o
            elif i["op"] == "phi" and i["t"][0] == "i" and i["t"] != "i1":
                ix = None
                for x in fn.iform(i["id"]).atoms():
                    if x[0] == "ld" and x[1] == ("arg", base) and len(x) == 3:
                        ix = x[2]
                if ix is None:
                    continue
            else:
                continue
            for a in ix.atoms():
                if a[0] in ("v", "pphi") and fn.ins[a[1]]["op"] == "phi" and fn.ins[a[1]]["blk"] in fn.headers:
                    h = fn.ins[a[1]]["blk"]
                    old = hs.get(h)
                    if old is None or old[0] == a and ((ix - old[2]).const() or 0) < 0:
                        hs[h] = (a, i, ix)
        return hs

    def latches(self, base, sp, text):
        fn = self.fn
        hs = self.loops_of(base)
        if not hs:
            self.ck.ob(False, fn.src, "%s: no loop examines every element of %s" % (fn.n, base))
        for h, (a, i, ix) in hs.items():
            for b, k in fn.back:
                if fn.succ[b][k] == h:
                    f = ("and", [self.bg, fn.facts_edge(b, k)])
                    self.ob(holds(fn, sp, f, {}), i, "every element that is passed satisfies %s" % text)

    def cells(self, root, idx, base, sp, text):
        fn = self.fn
        hs = self.loops_of(base)
        if not hs:
            self.ck.ob(False, fn.src, "%s: no loop examines every element of %s" % (fn.n, base))
        for h, (a, i, ix) in hs.items():
            off = K(0)
            if idx == "i":
                st = [o for _, o in stores_to(fn, root)]
                off = st[0] if st else K(0)
            for b, k in fn.back:
                if fn.succ[b][k] == h:
                    vals = cell_values(fn, b, ("arg", root), off)
                    if vals is None:
                        self.ob(False, i, "cannot determine %s at the end of an iteration" % root)
                        continue
                    for v, extra in vals:
                        f = ("and", [self.bg, fn.facts_edge(b, k), extra])
                        self.ob(holds(fn, sp, f, {"V": v}), i, "%s is left in range: %s" % (root, text))

    def cover(self, base, bound, succ):
        fn = self.fn
        hs = self.loops_of(base)
        n = Spec(bound)
        end = n.e(n.tree, fn, {})
        if not hs:
            self.ck.ob(False, fn.src, "%s: no loop visits every element of %s" % (fn.n, base))
        for h, (a, i, ix) in hs.items():
            fn.blockfacts(h)
            ph = fn.ins[a[1]]
            up = down = False
            if a[0] == "v":
                st = ph.get("steps")
                ini = [fn.form(e["v"]) for e in ph["inc"] if e["b"] not in fn.loops[h]]
                off = ix - A(a)
                up = st == {1} and all(x + off == K(0) for x in ini)
                down = st == {-1}
            else:
                up = True
            me = ix
            ok = up or down
            if up:
                for sp in succ:
                    f = ("and", [self.bg, fn.path_all(sp["blk"])])
                    ok = ok and proves(f, ("ge", me - end))
            elif down:
                # counts down from the end to 0
                ok = all(proves(("and", [self.bg, fn.path_all(sp["blk"])]), ("ge", K(0) - me)) for sp in succ)
                ok = ok and all(x + off == end - K(1) or x + off == end for x in ini)
            self.ob(ok, i, "all %s elements of %s are visited before success is reported" % (bound, base))


LENGTHS = {"lencontent", "contentlen", "lenmask", "length", "lenstarts", "lenindex", "lencarry", "tolength", "fromlength", "lenarray",
           "lenfromindex", "innerlength", "outerlength", "offsetslength", "sliceouterlen", "sliceinnerlen", "missinglength",
           "size", "jaggedsize", "lenflathead", "numcontents", "outindexlength"}

WRAP = "((has%(n)s == 0 and %(v)s == %(d)s) or (has%(n)s != 0 and p >= 0 and %(v)s == p) or (has%(n)s != 0 and p < 0 and %(v)s == p + length))"


def clip(v, n, default, lo, hi):
    """v is the clipped regularisation of the original value p"""
    def alt(cond, x):
        return "(%s and ((%s < %s and %s == %s) or (%s > %s and %s == %s) or (%s <= %s <= %s and %s == %s)))" % (
            cond, x, lo, v, lo, x, hi, v, hi, lo, x, hi, v, x)
    return "(%s or %s or %s)" % (alt("has%s == 0" % n, default), alt("has%s != 0 and p >= 0" % n, "p"), alt("has%s != 0 and p < 0" % n, "(p + length)"))


def rangeslice(ck, fn):
    bg = background(fn, [], {"length"})
    rets = [i for i in fn.ins.values() if i["op"] == "ret"]
    pos = clip("V", "start", "0", "0", "length")
    neg = clip("V", "start", "(length - 1)", "-1", "(length - 1)")
    text = "(posstep != 0 and %s) or (posstep == 0 and %s)" % (pos, neg)
    for root, n in (("start", "start"), ("stop", "stop")):
        for r in rets:
            vals = cell_values(fn, r["blk"], ("arg", root), K(0))
            if vals is None:
                ck.ob(False, fn.loc(r), "%s: cannot determine *%s at return" % (fn.n, root))
                continue
            for v, extra in vals:
                f = ("and", [bg, fn.path_all(r["blk"]), extra])
                if root == "start":
                    ok = holds(fn, Spec(text), f, {"V": v})
                    ck.ob(ok, fn.loc(r), "%s: *start is the requested start, counted from the end if negative, clipped to the list" % fn.n)
                else:
                    xs = cell_values(fn, r["blk"], ("arg", "start"), K(0)) or []
                    cp = clip("V", "stop", "length", "0", "length")
                    cn = clip("V", "stop", "(-1)", "-1", "(length - 1)")
                    below = "((hasstop == 0 and length < X) or (hasstop != 0 and p >= 0 and (p < X or length < X)) or (hasstop != 0 and p < 0 and p + length < X and 0 < X))"
                    above = "((hasstop == 0 and -1 > X) or (hasstop != 0 and p >= 0 and p > X and length - 1 > X) or (hasstop != 0 and p < 0 and (p + length > X or -1 > X)))"
                    t2 = "(posstep != 0 and ((%s and V >= X) or (V == X and %s))) or (posstep == 0 and ((%s and V <= X) or (V == X and %s)))" % (cp, below, cn, above)
                    ok = bool(xs) and all(holds(fn, Spec(t2), ("and", [f, ex]), {"V": v, "X": x}) for x, ex in xs)
                    ck.ob(ok, fn.loc(r), "%s: *stop is the requested stop, counted from the end if negative, clipped to the list and to *start" % fn.n)


# which buffer (or the node's content) a bound belongs to, at the library's call sites
BOUND = {
 ("awkward_ByteMaskedArray_getitem_carry", "lenmask"): "frommask", ("awkward_ByteMaskedArray_getitem_carry", "lencarry"): "fromcarry",
 ("awkward_Identities_from_IndexedArray", "tolength"): "content", ("awkward_Identities_from_ListArray", "tolength"): "content",
 ("awkward_Identities_from_ListOffsetArray", "tolength"): "content", ("awkward_Identities_from_UnionArray", "tolength"): "content",
 ("awkward_Identities_getitem_carry", "lencarry"): "carryptr",
 ("awkward_IndexedArray_flatten_nextcarry", "lencontent"): "content", ("awkward_IndexedArray_flatten_nextcarry", "lenindex"): "fromindex",
 ("awkward_IndexedArray_flatten_none2empty", "offsetslength"): "offsets", ("awkward_IndexedArray_flatten_none2empty", "outindexlength"): "outindex",
 ("awkward_IndexedArray_getitem_carry", "lenindex"): "fromindex", ("awkward_IndexedArray_getitem_carry", "lencarry"): "fromcarry",
 ("awkward_IndexedArray_getitem_nextcarry", "lencontent"): "content", ("awkward_IndexedArray_getitem_nextcarry", "lenindex"): "fromindex",
 ("awkward_IndexedArray_getitem_nextcarry_outindex", "lencontent"): "content", ("awkward_IndexedArray_getitem_nextcarry_outindex", "lenindex"): "fromindex",
 ("awkward_IndexedArray_getitem_nextcarry_outindex_mask", "lencontent"): "content", ("awkward_IndexedArray_getitem_nextcarry_outindex_mask", "lenindex"): "fromindex",
 ("awkward_IndexedArray_simplify", "innerlength"): "innerindex", ("awkward_IndexedArray_simplify", "outerlength"): "outerindex",
 ("awkward_IndexedArray_validity", "lencontent"): "content", ("awkward_IndexedArray_validity", "length"): "index",
 ("awkward_ListArray_broadcast_tooffsets", "lencontent"): "content", ("awkward_ListArray_broadcast_tooffsets", "offsetslength"): "fromoffsets",
 ("awkward_ListArray_compact_offsets", "length"): "fromstarts",
 ("awkward_ListArray_getitem_carry", "lencarry"): "fromcarry", ("awkward_ListArray_getitem_carry", "lenstarts"): "fromstarts",
 ("awkward_ListArray_getitem_jagged_apply", "contentlen"): "content", ("awkward_ListArray_getitem_jagged_apply", "sliceinnerlen"): "sliceindex",
 ("awkward_ListArray_getitem_jagged_apply", "sliceouterlen"): "slicestarts", ("awkward_ListArray_getitem_jagged_descend", "sliceouterlen"): "slicestarts",
 ("awkward_ListArray_getitem_jagged_numvalid", "length"): "slicestarts", ("awkward_ListArray_getitem_jagged_numvalid", "missinglength"): "missing",
 ("awkward_ListArray_getitem_next_array", "lenarray"): "fromarray", ("awkward_ListArray_getitem_next_array", "lencontent"): "content",
 ("awkward_ListArray_getitem_next_array", "lenstarts"): "fromstarts",
 ("awkward_ListArray_getitem_next_array_advanced", "lenarray"): "fromarray", ("awkward_ListArray_getitem_next_array_advanced", "lencontent"): "content",
 ("awkward_ListArray_getitem_next_array_advanced", "lenstarts"): "fromstarts", ("awkward_ListArray_getitem_next_at", "lenstarts"): "fromstarts",
 ("awkward_ListArray_validity", "lencontent"): "content", ("awkward_ListArray_validity", "length"): "starts",
 ("awkward_ListOffsetArray_toRegularArray", "offsetslength"): "fromoffsets", ("awkward_RegularArray_broadcast_tooffsets", "offsetslength"): "fromoffsets",
 ("awkward_RegularArray_broadcast_tooffsets_size1", "offsetslength"): "fromoffsets",
 ("awkward_RegularArray_getitem_next_array_regularize", "lenarray"): "fromarray",
 ("awkward_UnionArray_validity", "length"): "tags", ("awkward_index_carry", "lenfromindex"): "fromindex", ("awkward_index_carry", "length"): "carry",
 ("awkward_regularize_arrayslice", "lenflathead"): "flatheadptr",
}


def obj(e, fn, depth=0):
    """canonical text of an object expression (through never-reassigned locals), or None"""
    e = strip(e)
    k = e["k"]
    if k == "this":
        return "this"
    if k == "ref":
        sd = single_defs(fn)
        if e["d"] in sd and depth < 6:
            i = strip(sd[e["d"]])
            if i["k"] in ("mem", "ref") or i["k"] == "ctor" and len(i.get("c", [])) == 1 and strip(i["c"][0])["k"] in ("mem", "ref"):
                r = obj(i if i["k"] != "ctor" else i["c"][0], fn, depth + 1)
                if r:
                    return r
        return "%s#%s" % (e["n"], e["d"])
    if k == "mem":
        c = e.get("c") or ([e["obj"]] if e.get("obj") else [])
        o = obj(c[0], fn, depth) if c else "this"
        return None if o is None else o + "." + e["n"]
    if k == "ctor" and len(e.get("c", [])) == 1:
        return obj(e["c"][0], fn, depth)
    if k == "un" and e["op"] == "*":
        return obj(e["c"][0], fn, depth)
    if k == "call" and e.get("f"):
        q = e["f"]["q"].split("::")[-1]
        if q in ("get", "operator->", "operator*"):
            o = e.get("obj") or (e["c"][0] if e.get("c") else None)
            return obj(o, fn, depth) if o else None
        if e.get("obj") and not e["c"]:
            o = obj(e["obj"], fn, depth)
            return None if o is None else o + "." + q + "()"
    return None


def length_of(e, fn, depth=0):
    """object whose length the expression is, or None"""
    e = strip(e)
    if e["k"] == "ref" and e["d"] in single_defs(fn) and depth < 6:
        return length_of(single_defs(fn)[e["d"]], fn, depth + 1)
    if e["k"] == "bin" and e["op"] in "+-" and strip(e["c"][1])["k"] == "int":
        return length_of(e["c"][0], fn, depth + 1)
    if e["k"] == "call" and e.get("obj") and e["f"]["q"].split("::")[-1] == "length" and not e["c"]:
        return obj(e["obj"], fn)
    return None


def offset_of(e, fn, depth=0):
    """the constant added to the length"""
    e = strip(e)
    if e["k"] == "ref" and e["d"] in single_defs(fn) and depth < 6:
        return offset_of(single_defs(fn)[e["d"]], fn, depth + 1)
    if e["k"] == "bin" and e["op"] in "+-" and strip(e["c"][1])["k"] == "int":
        v = int(strip(e["c"][1])["v"])
        return offset_of(e["c"][0], fn, depth + 1) + (v if e["op"] == "+" else -v)
    return 0


def constant(e, fn):
    """value of a literal or of a named constant"""
    e = strip(e)
    if e["k"] == "ref" and e["d"] in single_defs(fn):
        e = strip(single_defs(fn)[e["d"]])
    if e["k"] == "int":
        return int(e["v"])
    if e["k"] == "ref" and e["n"] in ("kMaxInt64", "kMaxInt32", "kMaxUInt32", "kMaxInt8", "kSliceNone"):
        return 1 << 62
    return None


def data_of(e, fn):
    e = strip(e)
    if e["k"] == "call" and e.get("obj") and e["f"]["q"].split("::")[-1] in ("data", "ptr", "get"):
        return obj(e["obj"], fn)
    return None


SAME = [{"this.starts_", "this.stops_", "this"}, {"this.tags_", "this.index_", "this"}]


def callers(ck, spec):
    """bounds passed by the library are the lengths of the buffers they bound"""
    p = Program()
    p.load("libawkward")
    names = {c03norm(k): k for k in SPEC}
    argn = {k["name"]: [a["name"] for a in k["specializations"][0]["args"]] for k in spec}
    n = 0
    for f in p.funcs.values():
        if "body" not in f or f["q"].startswith("awkward::kernel::"):
            continue
        for x in walk(f["body"]):
            if x.get("k") != "call" or not x.get("f") or not x["f"]["q"].startswith("awkward::kernel::"):
                continue
            g = names.get(c03norm(x["f"]["q"].split("::")[-1]))
            if g is None:
                continue
            an = argn[g]
            args = x["c"][len(x["c"]) - len(an):]
            if len(args) != len(an):
                continue
            by = dict(zip(an, args))
            for q, a in by.items():
                want = BOUND.get((g, q))
                if want is None:
                    continue
                lo = length_of(a, f)
                off = offset_of(a, f)
                if lo is None:
                    c = constant(a, f)
                    if c is not None and not (f.get("cls") or "").startswith("awkward::Slice"):     # slice items have no length; their contents check
                        n += 1
                        ck.ob(c <= 0, loc(f, x), "%s: %s of %s is a length, not the constant %d" % (f["q"], q, g, c))
                    continue
                if off and (want == "content" or off > 0):
                    n += 1
                    ck.ob(False, loc(f, x), "%s: %s of %s is exactly the length (not %+d)" % (f["q"], q, g, off))
                    continue
                n += 1
                if want == "content":
                    ok = "content" in lo.lower() or lo == "this.contents_"
                    ck.ob(ok, loc(f, x), "%s: %s of %s is the length of the content that is followed, not of %s" % (f["q"], q, g, lo.split("#")[0]))
                else:
                    do = data_of(by[want], f)
                    if do is None:
                        continue
                    ok = do == lo or any(do in s and lo in s for s in SAME) or \
                        (lo in ("this", "this.offsets_") and ("starts" in do or "offsets" in do)) or (lo == "this" and do.startswith("this."))
                    ck.ob(ok, loc(f, x), "%s: %s of %s is the length of %s, not of %s" % (f["q"], q, g, do.split("#")[0], lo.split("#")[0]))
    ck.floor("caller_bounds", n, 200)


def kernels(ck, spec, only=None):
    at = argtypes(spec)
    fns = load_ir("kernels")
    nk = 0
    seen = set()
    for n, fn in sorted(fns.items()):
        if n not in at:
            continue
        g, ty = at[n]
        if only is not None and g not in only:
            continue
        if g not in SPEC:
            fails, _ = result_points(fn)
            if fails and g not in UNSPECIFIED:
                ck.count("unspecified_validating")
            continue
        seen.add(g)
        nk += 1
        rename(fn, list(ty))
        uns = [a for a, t in ty.items() if "uint" in t]
        Kernel(ck, fn, n, SPEC[g], uns).run()
    return fns, nk, seen


def kernel_spec():
    return yaml.load(open(os.path.join(REPO, "kernel-specification.yml")), Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader))["kernels"]


def run():
    ck = Check("C04", "SSA facts + linear entailment over LLVM IR",
               "per validating kernel: recorded/read positions in range at the point of use, every visited element valid at the end of "
               "its iteration, all elements visited before success, errors only for invalid elements")
    spec = kernel_spec()
    fns, nk, seen = kernels(ck, spec)
    if "awkward_regularize_rangeslice" in fns:
        rangeslice(ck, fns["awkward_regularize_rangeslice"])
    callers(ck, spec)
    ck.floor("kernel_specialisations", nk, 60)
    for g in SPEC:
        if g not in seen:
            ck.count("missing_" + g)
    ck.cov["kernels"] = len(seen)
    ck.assumptions += ["input buffers are not written while a kernel runs (C02)", "element arithmetic does not overflow",
                       "length arguments are nonnegative"]
    return ck.finish()


UNSPECIFIED = {"awkward_combinations", "awkward_quick_sort", "awkward_quick_argsort"}
