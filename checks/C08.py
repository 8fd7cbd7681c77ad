"""C08: a form survives JSON serialisation, pickling, copying and comparison unchanged.

Each rule is decided by abstract interpretation over value provenance (vlib/mini.py):
 * copy: the form that shallow_copy / with_form_key constructs gets every attribute from the same attribute of the original
   (the form key from the argument); accessors return their own attribute.
 * JSON: the writer is interpreted with symbolic attributes (each Index type enumerated), giving the keys it emits, their
   JSON kinds and the attributes they come from; the reader is interpreted on exactly that abstract document; every
   attribute of the resulting form must come from the same attribute, whether it is the only one that differs from its
   default or all do; attributes that were not written must come back as their defaults.
 * comparison: interpreting equal() on two forms of the same class that differ in one attribute only must give false on
   every path; flags are handed on in order.
 * pickling and the Python constructors: the same composition over the lambdas in src/python/forms.cpp.
"""
import itertools
from vlib.core import *
from vlib import core as _core
from vlib.mini import *
from vlib.mini import short

THIS = ("sym", "this")
OTHER = ("sym", "other")
BUILDER = ("sym", "builder")
# attributes that carry one piece of information together: the format determines the item size and the dtype
GROUP = {"awkward::NumpyForm": ({"itemsize_", "format_", "dtype_"},)}
# attributes compared through another one of their group
COMPARED_THROUGH = {"awkward::NumpyForm": {"itemsize_": "format_", "dtype_": "format_"}}
OPTIONAL = {"form_key_", "recordlookup_", "form_"}
# Index types that the arrays of each form can have
REQUIRED = {"awkward::ListOffsetForm": [("i32",), ("u32",), ("i64",)],
            "awkward::ListForm": [("i32", "i32"), ("u32", "u32"), ("i64", "i64")],
            "awkward::IndexedForm": [("i32",), ("u32",), ("i64",)],
            "awkward::IndexedOptionForm": [("i32",), ("i64",)],
            "awkward::ByteMaskedForm": [("i8",)],
            "awkward::BitMaskedForm": [("u8",)],
            "awkward::UnionForm": [("i8", "i32"), ("i8", "u32"), ("i8", "i64")]}


def all_fields(prog, cls):
    out, work = [], [cls]
    while work:
        c = work.pop(0)
        r = prog.recs.get(c)
        if not r:
            continue
        out += [(f["n"], r["u"].types[f["t"]], c) for f in r["fields"]]
        work += r["bases"]
    return out


def this_fields(v, sym=THIS):
    return {x[2] for x in deps(v, lambda t: t[0] == "fld" and t[1] == sym)}


def method(prog, cls, name, nparams=None, skip=None):
    """the definition that cls uses for a method (own or inherited)"""
    work = [cls]
    while work:
        c = work.pop(0)
        for f in prog.funcs.values():
            if f.get("cls") == c and short(f["q"]) == name and f.get("body") and (nparams is None or len(f["ps"]) == nparams):
                return f
        r = prog.recs.get(c)
        if r:
            work += r["bases"]
    return None


class Base(Hooks):
    def __init__(self, prog, cls):
        self.prog = prog
        self.cls = cls
        self._m = {}

    def resolve(self, f, obj, g):
        """virtual calls on 'this' (and on the other form, assumed of the same class) go to the class under analysis"""
        if obj in (THIS, OTHER) and f.get("cls"):
            key = (f["m"])
            if key not in self._m:
                h = None
                for c in self.chain():
                    for x in self.methods(c):
                        if short(x["q"]) == short(f["q"]) and len(x["ps"]) == len(f.get("pt", [])) and [x["u"].types[t] for t in x["pt"]] == self.types(f, g, x):
                            h = x
                            break
                    if h:
                        break
                self._m[key] = h or g
            return self._m[key]
        return g

    def types(self, f, g, x):
        return [g["u"].types[t] for t in g["pt"]] if g is not None else [x["u"].types[t] for t in x["pt"]]

    def chain(self):
        out, work = [], [self.cls]
        while work:
            c = work.pop(0)
            out.append(c)
            r = self.prog.recs.get(c)
            if r:
                work += r["bases"]
        return out

    _by_cls = None

    def methods(self, c):
        if Base._by_cls is None:
            d = {}
            for f in self.prog.funcs.values():
                if f.get("cls") and f.get("body") and not f.get("ctor"):
                    d.setdefault(f["cls"], []).append(f)
            Base._by_cls = d
        return Base._by_cls.get(c, [])

    def inline(self, g, name, obj, args):
        if obj in (THIS, OTHER):
            return short(name) not in ("equal", "tojson_part")
        return False


# ------------------------------------------------------------------ JSON
class Writer(Base):
    def __init__(self, prog, cls, enums, nondefault):
        super().__init__(prog, cls)
        self.enums = enums
        self.nd = nondefault

    def field(self, base, name, st):
        if base == THIS and name in self.enums:
            return ("k", self.enums[name])
        return None

    def truth(self, v, st):
        if v[0] == "fld" and v[1] == THIS:
            if v[2] in ("has_identities_",) or v[2] in OPTIONAL:
                return v[2] in self.nd
            return None
        if v[0] == "call" and v[1] == "empty":
            x = v[2]
            if x[0] == "fld" and x[1] == THIS:
                return x[2] not in self.nd
            if this_fields(x) & {"dtype_"}:
                return False
            return None
        if v[0] == "op" and v[1] in ("==", "!=") and NULL in v[2:]:
            x = v[2] if v[3] == NULL else v[3]
            if x[0] == "fld" and x[1] == THIS:
                isnull = x[2] in OPTIONAL and x[2] not in self.nd
                return isnull == (v[1] == "==")
        if v[0] == "op" and v[1] in ("==", "!=", "<", ">", "<=", ">=") and v[2][0] == "call" and v[2][1] == "size" and v[3] == ("k", 0):
            x = v[2][2]
            if x[0] == "fld" and x[1] == THIS:
                nonempty = x[2] in self.nd
                return {"==": not nonempty, "!=": nonempty, ">": nonempty, "<": False, ">=": True, "<=": not nonempty}[v[1]]
        return None

    def call(self, m, node, fr, q, obj, args, st):
        if obj == BUILDER:
            st.event("b", short(q), tuple(args), node.get("l"))
            return ("void",)
        if short(q) == "tojson_part" and BUILDER in args and obj != THIS:
            st.event("b", "child", (obj,), node.get("l"))
            return ("void",)
        if q.endswith("Index::form2str") and args and args[0][0] == "k":
            return None        # interpreted
        return None

    def inline(self, g, name, obj, args):
        if BUILDER in args:
            return True
        if name.endswith(("Index::form2str", "Index::str2form")):
            return True
        return obj == THIS


class Doc:
    """the abstract JSON document"""
    def __init__(self):
        self.root = None        # "object" or ("string", term)
        self.keys = {}          # key -> (kind, [value terms], [name terms], line)
        self.problem = None


SCALAR = {"string": "string", "boolean": "bool", "integer": "integer", "null": "null", "real": "real", "json": "json", "child": "child"}


def document(events):
    d = Doc()
    depth = 0
    stack = []
    key = None
    for e in events:
        if e[0] != "b":
            continue
        _, meth, args, line = e
        if meth in ("beginrecord", "beginlist"):
            if depth == 0:
                if d.root is not None or meth == "beginlist":
                    d.problem = "more than one top-level value"
                d.root = "object"
            elif depth == 1:
                if key is None:
                    d.problem = "a value without a key"
                    return d
                d.keys[key] = ["object" if meth == "beginrecord" else "array", [], [], line]
            stack.append(meth)
            depth += 1
        elif meth in ("endrecord", "endlist"):
            if not stack or stack.pop() != meth.replace("end", "begin"):
                d.problem = "%s without its beginning" % meth
                return d
            depth -= 1
            if depth == 1:
                key = None
        elif meth == "field":
            if depth == 1:
                if args[0][0] != "k":
                    d.problem = "a key that is not constant"
                    return d
                if key is not None:
                    d.problem = "the key %s has no value" % key
                    return d
                key = args[0][1]
                if key in d.keys:
                    d.problem = "the key %s is written twice" % key
                    return d
            elif depth > 1 and key in d.keys:
                d.keys[key][2].append(args[0])
        elif meth in SCALAR:
            if depth == 0:
                d.root = (SCALAR[meth], args[0] if args else None)
            elif depth == 1:
                if key is None:
                    d.problem = "a value without a key"
                    return d
                d.keys[key] = [SCALAR[meth], [args[0]] if args else [], [], line]
                key = None
            elif key in d.keys:
                d.keys[key][1].append(args[0] if args else ("void",))
                if len(d.keys[key]) == 4:
                    d.keys[key].append(SCALAR[meth])
    if stack or key is not None:
        d.problem = "unbalanced record, list or key"
    return d


KINDS = {"IsString": {"string"}, "IsBool": {"bool"}, "IsInt64": {"integer"}, "IsNumber": {"integer", "real"}, "IsInt": {"integer"},
         "IsUint64": {"integer"}, "IsUint": {"integer"}, "IsNull": {"null"}, "IsObject": {"object"}, "IsArray": {"array"}, "IsDouble": {"real"}}
NARROW = {"IsInt", "IsUint", "IsUint64", "GetInt", "GetUint", "GetUint64", "GetFloat", "GetDouble"}


class Reader(Base):
    def __init__(self, prog, doc, report):
        super().__init__(prog, "")
        self.doc = doc
        self.report = report

    def call(self, m, node, fr, q, obj, args, st):
        name = short(q).split("<")[0]
        if name == "operator[]" and obj == ("J",) and args and args[0][0] == "k":
            return ("J", args[0][1])
        if obj is not None and obj[0] == "J" or (obj is not None and obj[0] in ("elem", "fld", "iter") and deps(obj, lambda t: t[0] == "J")):
            return self.json(name, obj, args, st, node)
        if name == "fromjson_part":
            a = args[0]
            k = self.key(a)
            if k and k in self.doc.keys:
                kind, vals, names, _ = self.doc.keys[k][:4]
                if a[0] == "J" and kind in ("child", "string"):
                    if kind == "child":
                        return vals[0]
                    return ("named", vals[0]) if vals else ("void",)
                if a[0] != "J" and kind in ("array", "object") and self.doc.keys[k][-1] == "child":
                    return vals[0] if vals else ("elem", ("nothing",))
                self.report("the reader takes '%s' for a nested form, the writer wrote a %s" % (k, kind), node)
            return None
        if name == "Accept":
            st.heap["accepted"] = obj
            return ("k", True)
        if name == "GetString" and obj is not None and not deps(obj, lambda t: t[0] == "J") and "StringBuffer" in q:
            return st.heap.get("accepted", ("void",))
        return None

    def key(self, v):
        ks = {t[1] for t in deps(v, lambda t: t[0] == "J") if len(t) > 1}
        return next(iter(ks)) if len(ks) == 1 else None

    def json(self, name, obj, args, st, node):
        if obj == ("J",):
            if name == "HasMember":
                return ("k", args[0][1] in self.doc.keys) if args and args[0][0] == "k" else None
            if name == "IsObject":
                return ("k", self.doc.root == "object")
            if name == "IsString":
                return ("k", self.doc.root != "object")
            if name == "GetString" and self.doc.root != "object":
                return self.doc.root[1]
            if name == "Accept":
                return ("k", True)
            return None
        k = self.key(obj)
        if k is None or k not in self.doc.keys:
            return None
        rec = self.doc.keys[k]
        kind, vals, names = rec[0], rec[1], rec[2]
        if obj[0] == "J":
            if name in KINDS:
                if name in NARROW and kind == "integer":
                    self.report("'%s' is written as a 64-bit integer but read with %s" % (k, name), node)
                if kind == "child":
                    return ("k", False) if name == "IsNull" else None
                return ("k", kind in KINDS[name])
            if name in ("GetString", "GetBool", "GetInt64") or name in NARROW:
                if name in NARROW:
                    self.report("'%s' is written as a %s but read with %s" % (k, kind, name), node)
                want = {"GetString": "string", "GetBool": "bool"}.get(name, "integer")
                if kind != want:
                    self.report("'%s' is written as a %s but read with %s" % (k, kind, name), node)
                return vals[0] if vals else None
            if name in ("GetArray", "GetObject", "MemberBegin", "Begin", "MemberEnd", "End"):
                return obj
            if name == "Accept":
                st.heap["accepted"] = vals[0] if vals else ("void",)
                return ("k", True)
            return None
        # an element
        inner = rec[4] if len(rec) > 4 else None
        if obj[0] == "fld" and obj[2] == "name" and name == "GetString":
            return names[0] if names else ("void",)
        if name in KINDS:
            if name in NARROW and inner == "integer":
                self.report("the items of '%s' are written as 64-bit integers but read with %s" % (k, name), node)
            if inner in ("child", "json", None):
                return None
            return ("k", inner in KINDS[name])
        if name in ("GetInt64", "GetString", "GetBool") or name in NARROW:
            if name in NARROW:
                self.report("the items of '%s' are read with %s" % (k, name), node)
            return vals[0] if vals else ("void",)
        if name == "Accept":
            st.heap["accepted"] = vals[0] if vals else ("void",)
            return ("k", True)
        return None

    def inline(self, g, name, obj, args):
        if name.endswith(("Index::str2form", "Index::form2str")):
            return True
        return any(deps(a, lambda t: t[0] == "J") for a in args if isinstance(a, tuple))

    def field(self, base, name, st):
        return None

    def truth(self, v, st):
        return None

    def dyncast(self, v, target, st):
        return v

    def resolve(self, f, obj, g):
        return g


# ------------------------------------------------------------------ comparison
class Equal(Base):
    """two forms of the same class that differ in one attribute"""
    def __init__(self, prog, cls, differ, nulls, nullable, report):
        super().__init__(prog, cls)
        self.differ = differ
        self.nulls = nulls        # attribute -> (this is null, other is null)
        self.report = report

    def dyncast(self, v, target, st):
        if v in (THIS, OTHER):
            return v if target == self.cls or target == "awkward::Form" else NULL
        return None

    def swap(self, v):
        if v == OTHER:
            return THIS
        if isinstance(v, tuple):
            if v and v[0] == "idx":
                return ("idx",)
            return tuple(self.swap(x) for x in v)
        return v

    def root(self, a, b):
        """the attribute that a (of one form) and b (of the other) both read, or None"""
        fa, fb = this_fields(a), this_fields(b, OTHER)
        if not fa:
            fa, fb = this_fields(b), this_fields(a, OTHER)
            a, b = b, a
        if this_fields(a, OTHER) or this_fields(b):
            return None
        if len(fa) == 1 and fa == fb and self.swap(a) == self.swap(b):
            return next(iter(fa))
        return None

    def same(self, a, b):
        """do corresponding values agree: True, False or None"""
        r = self.root(a, b)
        if r is None:
            return None
        if r != self.differ:
            return True
        if deps(a, lambda t: t[0] == "call" and t[1] in ("size", "empty")):
            return None
        return False

    def truth(self, v, st):
        if v[0] == "op" and v[1] in ("==", "!="):
            a, b = v[2], v[3]
            if NULL in (a, b):
                x = a if b == NULL else b
                if x[0] == "fld" and x[1] in (THIS, OTHER):
                    n = self.nulls.get(x[2], (False, False))[0 if x[1] == THIS else 1]
                    return n == (v[1] == "==")
                return None
            s = self.same(a, b)
            return None if s is None else s == (v[1] == "==")
        if v[0] == "fld" and v[1] in (THIS, OTHER):
            if v[2] in self.nulls:
                return not self.nulls[v[2]][0 if v[1] == THIS else 1]
        return None

    def call(self, m, node, fr, q, obj, args, st):
        name = short(q)
        if name == "equal" and obj is not None:
            if len(args) >= 5:
                flags = args[1:5]
                if tuple(flags) != tuple(self.flags):
                    self.report("the nested comparison hands on the flags out of order or changed", fr.fn, node)
            s = self.same(obj, args[0])
            if s is not None:
                return ("k", s)
            if obj == THIS and args[0] == OTHER:
                return None
            return ("call", "equal", obj, args[0])
        if name.endswith(("_equal", "parameters_equal")) and len(args) >= 2 and obj is None:
            s = self.same(args[0], args[1])
            if s is not None:
                return ("k", s)
        return None

    def inline(self, g, name, obj, args):
        if obj in (THIS, OTHER):
            return short(name) not in ("equal", "tojson_part")
        # free helpers that take the forms or their attributes apart
        return obj is None and not name.startswith(("std::", "rapidjson::"))


def run():
    chk = Check("C08", "abstract interpretation over value provenance: composition of writer and reader, copy and comparison of every form class",
                __doc__.strip().replace("\n", " "))
    prog = Program().load("libawkward")
    forms = sorted(c for c in prog.derived("awkward::Form") if c != "awkward::Form" and any(f.get("ctor") and f["cls"] == c for f in prog.funcs.values()))
    chk.floor("form_classes", len(forms), 12)
    enum = next((e for q, e in prog.enums.items() if q.endswith("Index::Form")), None)
    if enum is None:
        raise AnalysisBroken("enum Index::Form not found")
    evals = enum_values(enum)
    reader = next((f for f in prog.funcs.values() if short(f["q"]).split("<")[0] == "fromjson_part" and f.get("body")), None)
    if reader is None:
        raise AnalysisBroken("fromjson_part not found")
    nvals = [n for n in evals if n in ("i8", "u8", "i32", "u32", "i64")]
    for cls in forms:
        fields = all_fields(prog, cls)
        names = [f[0] for f in fields]
        copies(chk, prog, cls, names)
        accessors(chk, prog, cls, fields)
        roundtrip(chk, prog, cls, fields, evals, nvals, reader)
        comparison(chk, prog, cls, fields)
    tables(chk, prog, evals, nvals)
    from checks import C08py
    C08py.bindings(chk, prog, forms)
    return chk.finish()


def enum_values(e):
    out = {}
    for x in e["v"] if isinstance(e["v"], list) else e["v"].items():
        if isinstance(x, dict):
            out[x["n"]] = x["v"]
        else:
            out[x[0]] = x[1]
    return out


def copies(chk, prog, cls, names):
    for mname in ("shallow_copy", "with_form_key"):
        f = method(prog, cls, mname)
        if f is None:
            chk.notes.append("%s has no %s" % (cls, mname))
            continue
        h = Base(prog, cls)
        args = [("sym", "key")] if mname == "with_form_key" else []
        try:
            res = Mini(prog, h).run(f, THIS, args)
        except TooManyPaths:
            continue
        chk.ob(bool(res), loc(f), "%s::%s returns a form" % (short(cls), mname))
        for st, v in res:
            if not chk.ob(v[0] == "new" and v[1] == cls, loc(f), "%s::%s constructs a %s" % (short(cls), mname, short(cls))):
                continue
            got = dict(v[2])
            for n in names:
                want = ("sym", "key") if (mname == "with_form_key" and n == "form_key_") else ("fld", THIS, n)
                chk.ob(got.get(n) == want, loc(f), "%s::%s keeps %s" % (short(cls), mname, n))


def accessors(chk, prog, cls, fields):
    for n, t, owner in fields:
        f = method(prog, cls, n.rstrip("_"), 0)
        if f is None or f["cls"] not in (cls, "awkward::Form"):
            continue
        try:
            res = Mini(prog, Base(prog, cls)).run(f, THIS, [])
        except TooManyPaths:
            continue
        rt = f["u"].types[f["rt"]] if "rt" in f else ""
        if deref_type(rt) != deref_type(t):
            continue
        for st, v in res:
            chk.ob(v == ("fld", THIS, n), loc(f), "%s::%s() returns the attribute of that name" % (short(cls), n.rstrip("_")))


def group_of(cls, n):
    for g in GROUP.get(cls, ()):
        if n in g:
            return g
    return {n}


def roundtrip(chk, prog, cls, fields, evals, nvals, reader):
    wf = [f for f in prog.funcs.values() if f.get("cls") == cls and short(f["q"]) == "tojson_part" and f.get("body")]
    if not wf:
        chk.ob(False, cls, "%s writes JSON" % cls)
        return
    if cls == "awkward::RawForm":
        return
    top = max(wf, key=lambda f: len(f["ps"]))
    inames = [n for n, t, o in fields if deref_type(t).endswith("Index::Form")]
    others = [n for n, t, o in fields if n not in inames]
    optional = [n for n in others if n in ("has_identities_", "parameters_", "inner_shape_") or n in OPTIONAL]
    combos = list(itertools.product(nvals, repeat=len(inames)))
    required = REQUIRED.get(cls, [()])
    if inames and cls not in REQUIRED:
        required = combos
    for combo in required:
        if len(combo) != len(inames):
            raise AnalysisBroken("%s: unexpected number of Index types" % cls)
        enums = {n: evals[c] for n, c in zip(inames, combo)}
        if len(inames) > 1 and combo == required[0]:
            for a in ("i32", "u32", "i64"):
                for b in ("i32", "u32", "i64"):
                    mixed = dict(zip(inames, (a, b)))
                    one_roundtrip(chk, prog, cls, top, fields, {n: evals[c] for n, c in mixed.items()}, frozenset(optional), None if len(top["ps"]) != 3 else False,
                                  others, optional, reader, (a, b), True, mixed)
        modes = [frozenset()] + [frozenset([n]) for n in optional] + [frozenset(optional)]
        for nd in modes:
            for toplevel in ((False, True) if len(top["ps"]) == 3 else (None,)):
                for verbose in (False, True):
                    one_roundtrip(chk, prog, cls, top, fields, enums, nd, toplevel, others, optional, reader, combo, verbose)


def one_roundtrip(chk, prog, cls, top, fields, enums, nd, toplevel, others, optional, reader, combo, verbose, mixed=None):
    label = "%s%s" % (short(cls), "(" + ",".join(combo) + ")" if combo else "")
    w = Writer(prog, cls, enums, nd)
    args = [BUILDER, ("k", verbose)] + ([("k", toplevel)] if toplevel is not None else [])
    try:
        res = Mini(prog, w).run(top, THIS, args)
    except TooManyPaths:
        return
    chk.ob(bool(res), loc(top), "%s can be written" % label)
    for st, _ in res:
        doc = document(st.events)
        if not chk.ob(doc.problem is None and doc.root is not None, loc(top), "%s is written as well-formed JSON%s" % (label, "" if not doc.problem else " (" + doc.problem + ")")):
            continue
        if mixed:
            # the same document in the generic spelling, with index types of their own for every attribute
            ok = doc.root == "object" and "class" in doc.keys and all(n.rstrip("_") in doc.keys for n in mixed)
            if not ok:
                continue
            doc.keys["class"][1] = [("k", short(cls).replace("Form", "Array"))]
            for n, t in mixed.items():
                doc.keys[n.rstrip("_")][1] = [("k", t)]
        rep = []
        r = Reader(prog, doc, lambda msg, node: rep.append((msg, node)))
        m = Mini(prog, r)
        # what was decided about the attributes while writing still holds while reading
        try:
            back = m.run(reader, None, [("J",)], St(facts={k: v for k, v in st.facts.items()}))
        except TooManyPaths:
            continue
        for msg, node in rep:
            chk.ob(False, loc(reader, node), "%s: %s" % (label, msg))
        chk.count("json_roundtrips")
        if not chk.ob(bool(back), loc(top), "the JSON of %s can be read back" % label):
            continue
        for st2, v in back:
            if not chk.ob(v[0] == "new" and v[1] == cls, loc(reader), "the JSON of %s is read back as a %s" % (label, short(cls))):
                continue
            got = dict(v[2])
            for n, t, owner in fields:
                x = got.get(n)
                if x is None:
                    chk.ob(False, loc(reader), "%s: %s is set when it is read back" % (label, n))
                    continue
                what = "%s: %s survives JSON" % (label, n)
                if deps(x, lambda t: t[0] == "undef"):
                    chk.ob(False, loc(reader), what + " (it depends on an uninitialised variable)")
                elif n in enums:
                    chk.ob(x == ("k", enums[n]), loc(reader), what)
                elif n in optional and n not in nd:
                    isdef = x in (("k", False), NULL, ("coll",), ("k", None)) or (x[0] == "coll" and len(x) == 1) or this_fields(x) == {n}
                    chk.ob(isdef, loc(reader), "%s: %s, not written, comes back as its default" % (label, n))
                elif n == "recordlookup_" and n not in nd:
                    pass
                else:
                    fs = this_fields(x)
                    ok = bool(fs & group_of(cls, n)) and fs <= group_of(cls, n) | {y for y in fs if False}
                    chk.ob(ok, loc(reader), what + ("" if ok else " (it comes from %s)" % (", ".join(sorted(fs)) or "nowhere")))


def comparison(chk, prog, cls, fields):
    f = method(prog, cls, "equal")
    if f is None:
        return
    if f["cls"] != cls:
        chk.ob(False, cls, "%s compares its attributes" % cls)
        return
    names = [n for n, t, o in fields]
    through = COMPARED_THROUGH.get(cls, {})
    nullable = [n for n in names if n in OPTIONAL]
    for compat in ((False,) if cls == "awkward::VirtualForm" else (False, True)):
        for n in names:
            if n in through:
                continue
            # nullness of the optional attributes
            opts = []
            for o in nullable:
                opts.append([(o, c) for c in ([(False, False), (True, False), (False, True)] if o == n else [(False, False), (True, True)])])
            for combo in itertools.product(*opts):
                nulls = dict(combo)
                bad = []
                h = Equal(prog, cls, n, nulls, nullable, lambda msg, fn, node: bad.append((msg, fn, node)))
                h.flags = [("k", True), ("k", True), ("k", True), ("k", compat)]
                # flags are symbols so that their order can be followed, but they hold
                syms = [("sym", "check_identities"), ("sym", "check_parameters"), ("sym", "check_form_key"), ("sym", "compatibility_check")]
                h.flags = syms
                truth0 = h.truth

                def truth(v, st, truth0=truth0, syms=syms, compat=compat):
                    if v in syms:
                        return compat if v == syms[3] else True
                    return truth0(v, st)
                h.truth = truth
                m = Mini(prog, h)
                try:
                    res = m.run(f, THIS, [OTHER] + syms)
                except TooManyPaths:
                    continue
                for msg, fn, node in bad:
                    chk.ob(False, loc(fn, node), "%s: %s" % (short(cls), msg))
                for st, v in res:
                    t = m.truthval(v, st)
                    if t is None:
                        t = not (n in this_fields(v) and n in this_fields(v, OTHER))
                        if not this_fields(v) and not this_fields(v, OTHER):
                            t = True
                    if "may_" in n:
                        t = False
                    chk.ob(t is False, loc(f), "%s::equal tells apart forms that differ in %s%s" % (short(cls), n, " (compatibility check)" if compat else ""))
                chk.count("comparison_cases")


def tables(chk, prog, evals, nvals):
    """form2str and str2form are inverse to each other and reject everything else"""
    f2s = next((f for f in prog.funcs.values() if f["q"].endswith("Index::form2str") and f.get("body")), None)
    s2f = next((f for f in prog.funcs.values() if f["q"].endswith("Index::str2form") and f.get("body")), None)
    if not f2s or not s2f:
        raise AnalysisBroken("Index::form2str/str2form not found")
    seen = {}
    for n in nvals:
        for st, v in Mini(prog, Hooks()).run(f2s, None, [("k", evals[n])]):
            chk.ob(v[0] == "k" and v[1] == n, loc(f2s), "form2str names %s" % n)
            if v[0] == "k":
                chk.ob(v[1] not in seen, loc(f2s), "form2str gives %s a name of its own" % n)
                seen[v[1]] = n
                back = Mini(prog, Hooks()).run(s2f, None, [v])
                chk.ob(len(back) == 1 and back[0][1] == ("k", evals[n]), loc(s2f), "str2form inverts form2str for %s" % n)
