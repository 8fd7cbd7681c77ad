"""C16, continued: partitioned arrays, positions in tuples, builders, iterators, element loops, bindings and the Python layer."""
import ast
import os
from vlib.core import *
from vlib.mini import *
from vlib.mini import short
from checks import C08
from checks.C16 import *
from checks.C16 import THIS, AT, START, STOP, STEP, fld, ln, nm, same, poly, known, has, ge, gt, equal, infeasible, Hk, fam

PARTS = fld("partitions_")


def run(chk, prog):
    partitioned(chk, prog)
    tuples(chk, prog)
    append(chk, prog)
    iterator(chk, prog)
    loops(chk, prog)
    bindings(chk)
    python(chk)


# ------------------------------------------------------------------ partitioned arrays
class Part(Hk):
    def call(self, m, node, fr, q, obj, args, st):
        name = short(q).split("<")[0]
        if name == "partitionid_index_at" and obj == THIS and len(node.get("c", [])) == 3:
            m.assign(fr, node["c"][1], ("pid", args[0]), st)
            m.assign(fr, node["c"][2], ("pidx", args[0]), st)
            return ("void",)
        return super().call(m, node, fr, q, obj, args, st)

    def inline(self, g, name, obj, args):
        return short(name) != "getitem" and super().inline(g, name, obj, args)


def partitioned(chk, prog):
    cls = "awkward::IrregularlyPartitionedArray"
    stops = fld("stops_")
    num = ("call", "size", PARTS)
    last = ("at", stops, ("op", "-", num, ("k", 1)))

    def go(name, args, hook=Part):
        f = C08.method(prog, cls, name, len(args))
        if f is None:
            return None, None, None, []
        h = hook(prog, cls)
        m = Mini(prog, h, maxpaths=600)
        return f, h, m, m.run(f, THIS, args)

    f, h, m, res = go("length", [])
    for st, v in res:
        chk.ob(same(v, last) or v[0] == "at" and v[1] == stops and poly(v[2]) in (poly(("op", "-", num, ("k", 1))), poly(("op", "-", ("call", "size", stops), ("k", 1)))), loc(f), "partitioned array: its length is the last stop")
    P = ("sym", "partitionid")
    f, h, m, res = go("start", [P])
    for st, v in res:
        z = equal(st.facts, P, ("k", 0))
        chk.ob(v == ("k", 0) and z or v[0] == "at" and v[1] == stops and same(v[2], ("op", "-", P, ("k", 1))) and not z, loc(f), "partitioned array: a partition starts where the one before stops, the first at 0")
    f, h, m, res = go("stop", [P])
    for st, v in res:
        chk.ob(v == ("at", stops, P), loc(f), "partitioned array: a partition stops at its own stop")
    f, h, m, res = go("getitem_at_nowrap", [AT])
    for st, v in res:
        if nm(v) == "getitem_at_nowrap" and v[2][0] == "at" and v[2][1] == PARTS:
            chk.ob(v[2][2] == ("pid", AT) and v[3] == ("pidx", AT), loc(f), "partitioned array: an element is taken from the partition that holds it, at the position there")
    # which partition
    f = C08.method(prog, cls, "partitionid_index_at", 3)
    if f is not None:
        h = Hk(prog, cls)
        m = Mini(prog, h, maxpaths=100)
        st0 = St()
        res = m.run(f, THIS, [AT, ("undef", "partitionid"), ("undef", "index")], st0)
        pd, xd = f["ps"][1]["d"], f["ps"][2]["d"]
        for st, v in res:
            pid, idx = st.env.get((1, pd)), st.env.get((1, xd))
            if pid is None or pid[0] != "idx":
                continue
            k = known(st.facts)
            chk.ob(has(k, gt(("at", stops, pid), AT)), loc(f), "partitioned array: a position is in the first partition whose stop exceeds it")
            chk.ob(m.loopinfo.get(pid, set()) <= {("k", 0)}, loc(f), "partitioned array: the partitions are searched from the first")
        carried = loop_carried(f, xd)
        if carried is not None:
            init, upd = carried
            chk.ob(init == 0, loc(f), "partitioned array: the first partition starts at 0")
            fall = [st for st, v in res if st.env.get((1, pd), ("k", 0))[0] != "idx" and any(t[0] == "op" and t[1] in ("<", ">", "<=", ">=") and deps(t, lambda u: u[:2] == ("at", stops)) for t in st.facts)]
            for st in fall:
                x = st.env.get((1, upd))
                chk.ob(x is not None and x[:2] == ("at", stops) and x[2][0] == "idx", loc(f), "partitioned array: the next partition starts where this one stops")
    # ranges
    f, h, m, res = go("getitem_range_nowrap", [START, STOP, STEP])
    if f is None:
        return
    is1, ie = ("pidx", START), ("pidx", STOP)
    n = 0
    for st, v in res:
        if v[0] != "new" or infeasible(known(st.facts)):
            continue
        d = dict(v[2])
        parts, stp = d.get("partitions_", ("void",)), d.get("stops_", ("void",))
        if parts[0] != "coll" or len(parts) != 2:
            continue
        p = parts[1]
        if nm(p) == "getitem_nothing":
            continue
        i = [u for u in deps(p, lambda u: u[0] == "idx")]
        if not i:
            continue
        i = i[0]
        n += 1
        piece = ("at", PARTS, i)
        plen = ln(piece)
        first = fact_eq(st.facts, i, ("pid", START))
        lst = fact_eq(st.facts, i, ("pid", STOP))
        if first is None or lst is None and not (first is True):
            continue
        k = known(st.facts)
        forward = has(k, gt(STEP, ("k", 0)))
        one = equal(st.facts, STEP, ("k", 1))
        if forward:
            lo = is1 if first else None if not one else ("k", 0)
            hi = ie if lst else plen
            what = "partitioned array: the range of %s partition runs from %s to %s" % ("the only" if first and lst else "the first" if first else "the last" if lst else "an inner", "its start" if first else "its beginning", "its stop" if lst else "its end")
            if nm(p) == "getitem_range_nowrap":
                if chk.ob(one, loc(f), "partitioned array: a range without steps is taken only if the step is 1"):
                    chk.ob(p[2] == piece and same(p[3], lo) and same(p[4], hi), loc(f), what)
            elif p == piece:
                chk.ob(one and not first and not lst, loc(f), "partitioned array: whole partitions are taken only from the inside of a range, with step 1")
            elif nm(p) == "getitem" and p[2] == piece:
                r = slice_range(st, p)
                if r is not None:
                    a, b, s = r
                    chk.ob(same(b, hi) and s in (STEP, ("k", 1)) and (lo is None or same(a, lo)), loc(f), what)
        m0 = m.loopinfo.get(i, set())
        chk.ob(m0 <= {("pid", START)}, loc(f), "partitioned array: a range starts with the partition that holds its start")
        if stp[0] == "coll" and len(stp) == 2:
            chk.ob(same(stp[1], ln(p)), loc(f), "partitioned array: the new stops are the accumulated lengths of the pieces")
    chk.floor("partition_ranges", n, 4)


def fact_eq(facts, a, b):
    for t, v in facts.items():
        if t[0] == "op" and len(t) == 4 and t[1] in ("==", "!=") and {t[2], t[3]} == {a, b}:
            return v == (t[1] == "==")
    return None


def slice_range(st, p):
    """start, stop and step of the slice that a piece is taken with"""
    rs = [t for t in deps(p[3:], lambda t: t[0] == "new" and fam(t[1]) == "SliceRange")]
    if len(rs) != 1:
        return None
    d = dict(rs[0][2])
    return (d["start_"], d["stop_"], d.get("step_", STEP)) if "start_" in d and "stop_" in d else None


def loop_carried(f, xd):
    """index = at - start, where start is a local: (its initial value, its declaration)"""
    at = f["ps"][0]["d"]
    for n in walk(f["body"]):
        if n.get("k") == "bin" and n["op"] == "=" and strip(n["c"][0]).get("d") == xd:
            r = strip(n["c"][1])
            if r["k"] == "bin" and r["op"] == "-" and strip(r["c"][0]).get("d") == at and strip(r["c"][1])["k"] == "ref" and strip(r["c"][1]).get("dk") == "var":
                d = strip(r["c"][1])["d"]
                for y in walk(f["body"]):
                    if y.get("k") == "decl":
                        for v in y["v"]:
                            if v["d"] == d and v.get("init") and strip(v["init"])["k"] == "int":
                                return strip(v["init"])["v"], d
    return None


# ------------------------------------------------------------------ positions inside of a tuple (NumpyArray)
def tuples(chk, prog):
    cls = "awkward::NumpyArray"
    shape1 = ("at", fld("shape_"), ("k", 1))
    base = fld("byteoffset_")
    n = 0
    for f in sorted(prog.funcs.values(), key=lambda f: (f["path"], f["l"])):
        if f.get("cls") != cls or not f.get("body") or short(f["q"]) not in ("getitem_bystrides", "getitem_next"):
            continue
        types = [deref_type(f["u"].types[p["t"]]) for p in f["ps"]]
        if not types or types[0] != "awkward::SliceAt":
            continue
        got = []
        POS = ("sym", "position")

        class H(Hk):
            def call(self, m, node, fr, q, obj, args, st):
                name = short(q).split("<")[0]
                if name == "at" and obj == ("sym", "p", 0) and not args:
                    return POS
                if name == "getitem_bystrides" and obj is not None and obj[0] == "new":
                    got.append((dict(obj[2]).get("byteoffset_"), dict(st.facts), "offset"))
                if name.startswith("NumpyArray_getitem_next_at"):
                    got.append((args[-1], dict(st.facts), "position"))
                    got.append((args[-2], dict(st.facts), "stride"))
                return super().call(m, node, fr, q, obj, args, st)

            def inline(self, g, name, obj, args):
                return False

        h = H(prog, cls)
        m = Mini(prog, h, maxpaths=300)
        m.run(f, THIS, [("sym", "p", i) for i in range(len(f["ps"]))])
        for x, facts, kind in got:
            k = known(facts)
            if x is None or infeasible(k):
                continue
            if kind == "stride":
                chk.ob(same(x, shape1), loc(f), "NumpyArray: an inner position counts in rows of the inner length")
                continue
            n += 1
            ok = False
            for y, sign in ((POS, ge(POS)), (("op", "+", POS, shape1), gt(("k", 0), POS))):
                want = y if kind == "position" else ("op", "+", base, ("op", "*", y, ("at", fld("strides_"), ("k", 1))))
                if same(x, want):
                    ok = True
                    chk.ob(has(k, sign), loc(f), "NumpyArray: an inner position counts from the end exactly if negative")
                    chk.ob(has(k, ge(y)) and (has(k, gt(shape1, y))), loc(f), "NumpyArray: an inner position outside of the dimension is refused")
            chk.ob(ok, loc(f), "NumpyArray: the inner element is the one at the requested position")
        for st, nd in h.raised:
            k = known(st.facts)
            if infeasible(k) or not any(POS == a or isinstance(a, tuple) and deps(a, lambda t: t == POS) for g in k for mm in dict(g) for a in mm):
                continue
            chk.ob(has(k, ge(POS, shape1)) or has(k, gt(("k", 0), ("op", "+", POS, shape1))), loc(f, nd), "NumpyArray: an inner position is refused only if it is out of range")
    chk.count("inner_positions", n)


def append(chk, prog):
    cls = "awkward::ArrayBuilder"
    A = ("sym", "array")
    f = C08.method(prog, cls, "append", 2)
    if f is None:
        return
    got = []

    class H(Hk):
        def call(self, m, node, fr, q, obj, args, st):
            if short(q).split("<")[0] == "append_nowrap" and obj == THIS:
                got.append((args, dict(st.facts)))
                return ("void",)
            return super().call(m, node, fr, q, obj, args, st)

    h = H(prog, cls)
    m = Mini(prog, h, maxpaths=100)
    m.run(f, THIS, [A, AT])
    L = ln(A)
    for args, facts in got:
        k = known(facts)
        if infeasible(k):
            continue
        x = args[1]
        chk.ob(args[0] == A and (same(x, AT) and has(k, ge(AT)) or same(x, ("op", "+", AT, L)) and has(k, gt(("k", 0), AT))), loc(f), "ArrayBuilder::append: the element is the one at the requested position")
        chk.ob(has(k, ge(x)) and has(k, gt(L, x)), loc(f), "ArrayBuilder::append: positions out of range are refused")
    for st, nd in list(m.throws) + h.raised:
        k = known(st.facts)
        if not infeasible(k):
            chk.ob(has(k, ge(AT, L)) or has(k, gt(("k", 0), ("op", "+", AT, L))), loc(f), "ArrayBuilder::append: positions are refused only if out of range")
    chk.count("append_paths", len(got))
    for c in (cls, "awkward::LayoutBuilder"):
        for name, args in (("getitem_at", [AT]), ("getitem_range", [START, STOP])):
            f = C08.method(prog, c, name, len(args))
            if f is None:
                continue
            for st, v in Mini(prog, Hk(prog, c), maxpaths=100).run(f, THIS, args):
                if nm(v) == name:
                    chk.ob(list(v[3:]) == args, loc(f), "%s: %s of the snapshot is asked for the same positions" % (short(c), name))


# ------------------------------------------------------------------ iteration
def iterator(chk, prog):
    cls = "awkward::Iterator"
    c = fld("content_")
    f = C08.method(prog, cls, "isdone", 0)
    if f is not None:
        for st, v in Mini(prog, Hk(prog, cls), maxpaths=50).run(f, THIS, []):
            if v[0] == "op":
                k = known({v: True})
                chk.ob(k == {ge(fld("at_"), ln(c))}, loc(f), "Iterator: it is done exactly when its position reaches the length")
            elif v[0] == "k":
                k = known(st.facts)
                chk.ob(has(k, ge(fld("at_"), ln(c))) if v[1] else has(k, gt(ln(c), fld("at_"))), loc(f), "Iterator: it is done exactly when its position reaches the length")
    f = C08.method(prog, cls, "next", 0)
    if f is not None:
        for st, v in Mini(prog, Hk(prog, cls), maxpaths=50).run(f, THIS, []):
            if nm(v) == "getitem_at_nowrap":
                chk.ob(v[2] == c and same(v[3], fld("at_")), loc(f), "Iterator: the next element is the one at its position")
            chk.ob(same(st.heap.get((THIS, "at_"), ("void",)), ("op", "+", fld("at_"), ("k", 1))), loc(f), "Iterator: its position advances by one")
    for f in prog.funcs.values():
        if f.get("ctor") and f.get("cls") == cls and f["ps"]:
            for i in f.get("inits", []):
                if short(i.get("field", "")) == "at_" and i.get("v"):
                    x = strip(i["v"])
                    if x.get("k") == "int":
                        chk.ob(x["v"] == 0, loc(f), "Iterator: it starts with the first element")


# ------------------------------------------------------------------ loops over elements
def loops(chk, prog):
    """a loop that reads elements by its counter stays below the length of what it reads"""
    n = 0
    seen = set()
    for f in sorted(prog.funcs.values(), key=lambda f: (f["path"], f["l"], f["q"])):
        if not f.get("body") or not f.get("cls") or f["key"] in seen:
            continue
        if fam(f["cls"]) == "RawArrayOf" or not f["cls"].startswith("awkward::"):
            continue
        calls = [x for x in walk(f["body"]) if x.get("k") == "call" and short(x.get("f", {}).get("q", "")).split("<")[0] == "getitem_at_nowrap"]
        if not calls or not any(x.get("k") in ("for", "while") for x in walk(f["body"])):
            continue
        seen.add(f["key"])
        h = Hk(prog, f["cls"])
        m = Mini(prog, h, maxpaths=600)
        try:
            m.run(f, THIS, [("sym", "p", i) for i in range(len(f["ps"]))])
        except TooManyPaths:
            chk.count("beyond_path_bound")
            continue
        from checks.C16 import LENGTH
        own = LENGTH.get(fam(f["cls"]))
        for name, obj, args, facts, stack, node, fn in h.seen:
            if name != "getitem_at_nowrap" or len(args) != 1 or args[0][0] != "idx":
                continue
            i = args[0]
            bounds = [cv for cv in stack if cv and (cv[1] == i or cv[2] == i)]
            if not bounds:
                continue
            op, a, b = bounds[-1]
            if b == i:
                op, a, b = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op), b, a
            if op not in ("<", "!=", "<="):
                continue
            if obj == THIS:
                lens = [own] if own is not None else []
            elif obj is not None and deps(obj, lambda t: t == ("fld", THIS, "contents_")) and fam(f["cls"]) in ("RecordArray",):
                lens = [own, ln(obj)]
            else:
                lens = [ln(obj)]
            lens = [l for l in lens if l is not None]
            if obj[0] == "new" or not lens:
                continue
            k = known(facts)
            x = b if op != "<=" else ("op", "+", b, ("k", 1))
            ok = any(same(x, l) or has(k, ge(l, x)) for l in lens)
            if not ok and not any(len(poly(y)) <= 2 for y in (x,)):
                continue
            n += 1
            chk.ob(ok, loc(fn, node), "%s: a loop over the elements of %s stays below its length" % (short(fn["q"]) if not fn.get("cls") else short(fn["cls"]) + "::" + short(fn["q"]), "the array" if obj == THIS else "a buffer"))
            for first in m.loopinfo.get(i, set()):
                if first is not None and first[0] == "k":
                    chk.ob(first[1] >= 0, loc(fn, node), "a loop over elements does not start before the first")
    chk.floor("element_loops", n, 8)


# ------------------------------------------------------------------ Python bindings
class Bind(Hk):
    def call(self, m, node, fr, q, obj, args, st):
        name = short(q).split("<")[0]
        f = node.get("f", {})
        if q.startswith("pybind11::"):
            if name == "isinstance" and args:
                return ("isinstance", (f.get("ta") or "").split(",")[0].strip(), args[0])
            if name == "cast":
                return obj if obj is not None else args[0] if args else None
            if name == "attr" and obj is not None and args:
                return ("attr", obj, args[0])
            if name == "is" and obj is not None and args and args[0] == ("none",):
                return ("isnone", obj)
            if name == "is_none" and obj is not None:
                return ("isnone", obj)
            if name.startswith("operator ") and obj is not None:
                return obj
        if q.startswith("ctor:pybind11::none"):
            return ("none",)
        if q.startswith("ctor:pybind11::") and len(args) == 1:
            return args[0]
        if name == "box" and args:
            return args[0]
        return super().call(m, node, fr, q, obj, args, st)

    def inline(self, g, name, obj, args):
        return obj is None and not name.startswith(("std::", "pybind11::", "awkward::", "rapidjson::")) and short(name) not in ("box", "toslice", "unbox_content") and sum(1 for _ in walk(g["body"])) < 300


SELF, OBJ = ("sym", "self"), ("sym", "obj")


def bound_value(v, facts, which):
    """start/stop/step: the attribute if it is not None, else Slice::none()"""
    a = ("attr", OBJ, ("k", which))
    n = facts.get(("isnone", a))
    if v == a:
        return n is False
    if v == ("slicenone",):
        return n is True
    return None


def bindings(chk):
    prog = Program()
    prog.load("python", lambda s: s.endswith(("content.cpp", "index.cpp", "partition.cpp")))
    from checks.C08py import callable_of
    fns = []
    for f in prog.funcs.values():
        if not f.get("body"):
            continue
        if short(f["q"]).split("<")[0] == "getitem" and len(f["ps"]) == 2 and not f.get("cls") and f["path"].endswith("content.cpp"):
            fns.append((f, f))
        for x in walk(f["body"]):
            if x.get("k") == "call" and short(x.get("f", {}).get("q", "")).split("<")[0] == "def" and len(x.get("c", [])) >= 2:
                s = strip(x["c"][0])
                if s["k"] == "str" and s["v"] in ("__getitem__", "getitem_at", "getitem_range", "__next__", "next"):
                    g, method = callable_of(prog, x["c"][1], f)
                    if g is None:
                        continue
                    if method:
                        q = short(g.get("q") or g.get("n") or "").split("<")[0]
                        if s["v"] == "getitem_at" or s["v"] == "__getitem__":
                            chk.ob(not q.endswith("nowrap"), loc(f, x), "%s is bound to an accessor that checks positions" % s["v"])
                        continue
                    fns.append((g, f, s["v"]))
    n = 0
    done = set()
    for item in fns:
        g, f = item[0], item[1]
        name = item[2] if len(item) > 2 else "__getitem__"
        key = (g["path"], g["l"], name)
        if key in done:
            continue
        done.add(key)
        h = Bind(prog, "")
        m = Mini(prog, h, maxpaths=3000)
        args = [SELF, OBJ] + [("sym", "p", i) for i in range(2, len(g["ps"]))]
        if name == "getitem_range" and len(g["ps"]) >= 3:
            args = [SELF] + [("attr", OBJ, ("k", w)) for w in ("start", "stop", "step")][:len(g["ps"]) - 1]
        try:
            res = m.run(g, None, args)
        except TooManyPaths:
            chk.count("beyond_path_bound")
            continue
        where = "%s:%s" % (os.path.relpath(g["path"], REPO) if os.path.isabs(g["path"]) else g["path"], g["l"])
        for st, v in res:
            if name in ("__next__", "next"):
                if nm(v) == "next":
                    done_ = [b for t, b in st.facts.items() if nm(t) == "isdone" and t[2] == v[2]]
                    chk.ob(done_ == [False], where, "the next element is taken only if the iterator is not done")
                    n += 1
                continue
            isint = [b for t, b in st.facts.items() if t[0] == "isinstance" and t[2] == OBJ and "int_" in t[1]]
            if isint and isint[0] and name == "__getitem__":
                n += 1
                chk.ob(nm(v) == "getitem_at" and v[2] == SELF and v[3:] == (OBJ,), where, "an integer asks for the element at that position, bounds-checked")
            elif nm(v) == "getitem_at" or nm(v) == "getitem_at_nowrap":
                n += 1
                chk.ob(nm(v) == "getitem_at" and v[3:] == (OBJ,), where, "the requested position is handed on unchanged, bounds-checked")
            elif nm(v) in ("getitem_range", "getitem_range_nowrap"):
                n += 1
                chk.ob(nm(v) == "getitem_range", where, "a range is clipped to the array")
                for i, w in enumerate(("start", "stop", "step")[:len(v) - 3]):
                    b = bound_value(v[3 + i], st.facts, w)
                    if b is not None or v[3 + i][0] in ("attr", "slicenone", "k"):
                        chk.ob(b is True, where, "the %s of a slice is the requested one, or none if it was not given" % w)
                if len(v) == 5:
                    s = ("attr", OBJ, ("k", "step"))
                    one = fact_eq(st.facts, s, ("k", 1))
                    chk.ob(st.facts.get(("isnone", s)) is True or one is True, where, "a slice with a step other than 1 does not become a range")
    chk.floor("bindings", n, 6)


# ------------------------------------------------------------------ the Python layer
def python(chk):
    """partition.py: a position in a tuple is regularized before its partition is looked up"""
    from vlib import pymini as P
    pkg = P.Package(REPO)
    mod = pkg.mods.get("ak.partition")
    if mod is None:
        return
    n = 0
    SELF, WHERE = ("sym", "self"), ("sym", "where")
    ends = {("call", ("glob", "len"), SELF), ("call", ("glob", "len"), ("attr", SELF, "_ext")), ("call", ("attr", SELF, "__len__"))}
    for cname, cls in sorted(mod.classes.items()):
        for fn in cls.body:
            if not isinstance(fn, ast.FunctionDef) or fn.name not in ("__getitem__", "getitem_at_nowrap", "getitem_range_nowrap"):
                continue
            got, handed = [], []

            class H(P.Hooks):
                def call(self, m, q, f, args, kws, node, st):
                    if f[0] == "attr" and f[2] == "partitionid_index_at":
                        got.append((args, dict(st.facts), node))
                    elif f[0] == "attr" and f[1] == ("attr", SELF, "_ext") and f[2] in ("getitem_at", "getitem_range", "getitem_at_nowrap", "getitem_range_nowrap"):
                        handed.append((f[2], args, dict(st.facts), node))
                    return None

                def inline(self, q, fn, args):
                    return q.startswith("ak.partition.") and fn.name not in ("apply", "iterate", "partition_as")

            try:
                P.PyMini(pkg, H(), maxpaths=20000).run(mod, fn, {a.arg: ("sym", a.arg) for a in fn.args.args})
            except P.TooManyPaths:
                chk.count("beyond_path_bound")
            for args, facts, node in got:
                n += 1
                where = "src/awkward/partition.py:%d" % node.lineno
                x = args[0]
                k = known(facts)
                if infeasible(k):
                    continue
                ok = False
                for l in ends:
                    d = {m: c for m, c in poly(x).items() if m != (l,)}
                    raw = poly(x) == d
                    if len(d) != 1:
                        continue
                    (m, c), = d.items()
                    if c != 1 or len(m) != 1:
                        continue
                    p = m[0]
                    ok = ok or raw and has(k, ge(p)) and any(has(k, gt(e, x)) for e in ends) or not raw and has(k, gt(("k", 0), p)) and has(k, ge(x))
                chk.ob(ok, where, "partitioned array: a position is counted from the end if negative, and refused outside of 0 <= position < len, before its partition is looked up")
            for name, args, facts, node in handed:
                n += 1
                where = "src/awkward/partition.py:%d" % node.lineno
                if fn.name == "__getitem__":
                    chk.ob(not name.endswith("nowrap"), where, "partitioned array: a position given by the user goes to the accessor that checks it")
                if name == "getitem_at" and fn.name == "__getitem__":
                    chk.ob(args[0] in (WHERE, ("item", WHERE, ("k", 0))) or args[0][0] == "call", where, "partitioned array: the requested position is handed on unchanged")
                if name == "getitem_range" and len(args) == 3 and any(a[0] == "attr" and a[2] in ("start", "stop", "step") for a in args):
                    b = [a[1] for a in args if a[0] == "attr"][0]
                    ok = all(a == ("attr", b, w) or a == ("k", None) and any(v and t in (("op", "is", ("attr", b, w), ("k", None)), ("op", "==", ("attr", b, w), ("k", None))) for t, v in facts.items()) or a[0] not in ("attr", "k") for a, w in zip(args, ("start", "stop", "step")))
                    chk.ob(ok, where, "partitioned array: start, stop and step are handed on unchanged and in order")
    chk.count("python_positions", n)
