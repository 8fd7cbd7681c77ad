"""The Python side of C08: pickling, constructors, properties and comparison operators in src/python/forms.cpp."""
from vlib.core import *
from vlib.mini import *
from vlib.mini import short

NONE = ("none",)
INVERSE = {"dict2parameters": "parameters2dict", "obj2form_key": "form_key2obj", "str2form": "form2str"}
ENCODE = set(INVERSE.values())
# attribute <- constructor argument, where the names differ
ARGNAME = {"recordlookup_": {"keys"}, "dtype_": {"format", "itemsize"}, "contents_": {"contents"}}


def make(C08):
    class Py(C08.Writer):
        def __init__(self, prog, cls, nd):
            super().__init__(prog, cls, {}, nd)
            self.bad = []

        def call(self, m, node, fr, q, obj, args, st):
            name = short(q).split("<")[0]
            if q.startswith("ctor:pybind11::none"):
                return NONE
            if q.startswith("ctor:pybind11::tuple") or q.startswith("ctor:pybind11::list"):
                if not args or args[0][0] in ("k", "call", "idx", "op"):
                    return ("coll",)
                return args[0]
            if q.startswith("ctor:pybind11::") and len(args) >= 1:
                return args[0]
            if q == "pybind11::make_tuple":
                return ("pytuple",) + tuple(args)
            if q == "pybind11::cast" and args:
                return args[0]
            if q.startswith("pybind11::") and name == "operator[]" and obj is None and len(args) == 2:
                return self.item(args[0], args[1], node)
            if name == "operator[]" and obj is not None:
                return self.item(obj, args[0], node)
            if obj is not None and q.startswith("pybind11::") and (name == "cast" or name.startswith("operator ")):
                return obj
            if obj is not None and q.startswith("pybind11::") and name == "is":
                if args and args[0] == NONE:
                    return self.isnone(obj)
            if obj is not None and q.startswith("pybind11::") and name == "is_none":
                return self.isnone(obj)
            if name in ENCODE and args:
                a = args[-1]
                if name == "form_key2obj" and m.truthval(("op", "==", a, NULL), st) is True:
                    return NONE
                return ("enc", name, a)
            if name in INVERSE and args:
                a = args[-1]
                if a[0] == "enc" and a[1] == INVERSE[name]:
                    return a[2]
                if a == NONE:
                    return NULL
                return ("dec", name, a)
            return None

        def item(self, obj, i, node):
            if obj[0] == "pytuple" and i[0] == "k":
                if 0 <= i[1] < len(obj) - 1:
                    return obj[1 + i[1]]
                self.bad.append(("item %d of a state that has %d items" % (i[1], len(obj) - 1), node))
                return ("missing", i[1])
            if obj[0] == "coll":
                return obj[-1] if len(obj) > 1 else ("elem", obj)
            return None

        def isnone(self, v):
            if v == NONE:
                return ("k", True)
            if v[0] in ("coll", "enc", "pytuple", "new") or v[0] == "fld":
                return ("k", False)
            return None

        def truth(self, v, st):
            if v[0] == "op" and v[1] in ("==", "!=") and NONE in v[2:]:
                x = v[2] if v[3] == NONE else v[3]
                r = self.isnone(x)
                if r is not None:
                    return r[1] == (v[1] == "==")
            return super().truth(v, st)

        def inline(self, g, name, obj, args):
            if obj == C08.THIS:
                return True
            return name in ("getparameters",) or (obj is None and not name.startswith(("std::", "pybind11::", "rapidjson::")) and g.get("path", "").endswith("forms.cpp"))
    return Py


def pseudo(f, node):
    return {"q": f["q"] + "::lambda", "ps": node["ps"], "body": node["body"], "u": f["u"], "key": f["key"], "path": f["path"], "l": node.get("l", f["l"])}


def lambda_of(n, f):
    """a lambda passed directly or through a local variable"""
    n = strip(n)
    while n["k"] in ("ctor",) and len(n.get("c", [])) == 1:
        n = strip(n["c"][0])
    if n["k"] == "lambda":
        return n
    if n["k"] == "ref" and n.get("dk") == "var":
        for x in walk(f["body"]):
            if x.get("k") == "decl":
                for v in x["v"]:
                    if v["d"] == n["d"] and v.get("init"):
                        return lambda_of(v["init"], f)
    return None


def callable_of(prog, n, f):
    """-> (function-like, is_method) for a lambda, &Class::method or &function"""
    l = lambda_of(n, f)
    if l is not None:
        return pseudo(f, l), False
    n = strip(n)
    while n["k"] in ("cast", "icast") and n.get("c"):
        n = strip(n["c"][0])
    if n["k"] == "un" and n["op"] == "&":
        n = strip(n["c"][0])
    if n["k"] == "ref" and n.get("dk") == "func":
        return n, True
    return None, False


def class_of(f, x, forms):
    """the bound class of a .def(...) call"""
    c = x["f"].get("cls", "")
    for name in forms:
        if ("<" + name + ",") in c or ("<" + name + ">") in c:
            return name
    return None


def argnames(nodes):
    out = []
    for n in nodes:
        names = [y["c"][0]["v"] for y in ([n] + list(walk(n))) if y.get("k") == "ctor" and y.get("f", {}).get("cls") == "pybind11::arg" and y.get("c") and y["c"][0].get("k") == "str"]
        if names:
            out.append(names[0])
        elif any(y.get("k") == "call" and short(y.get("f", {}).get("q", "")).startswith("operator\"\"") for y in walk(n)):
            out.append(None)
    return out


def bindings(chk, prog, forms):
    from checks import C08
    Py = make(C08)
    prog.load("python", lambda s: s.endswith("forms.cpp"))
    C08.Base._by_cls = None
    npickle = ninit = nprop = 0
    for f in list(prog.funcs.values()):
        if not f.get("body") or not f.get("path", "").endswith("python/forms.cpp"):
            continue
        for x in walk(f["body"]):
            if x.get("k") != "call" or not x.get("f") or not x["f"].get("cls", "").startswith("pybind11::class_"):
                continue
            cls = class_of(f, x, forms)
            meth = short(x["f"]["q"]).split("<")[0]
            a = [strip(c) for c in x.get("c", [])]
            if not a:
                continue
            base = "<awkward::Form," in x["f"]["cls"] or "<awkward::Form>" in x["f"]["cls"]
            if meth == "def" and a[0]["k"] == "str" and a[0]["v"] in ("__eq__", "__ne__") and len(a) > 1:
                operators(chk, prog, Py, C08, f, x, a[0]["v"], a[1])
                continue
            if cls is None:
                continue
            fields = C08.all_fields(prog, cls)
            names = [n for n, t, o in fields]
            if meth == "def" and a[0]["k"] == "call" and a[0]["f"]["q"].split("<")[0] == "pybind11::pickle":
                ls = [lambda_of(y, f) for y in a[0]["c"]]
                if len(ls) == 2 and all(ls):
                    npickle += 1
                    pickling(chk, prog, Py, C08, f, cls, fields, ls)
            elif meth == "def" and a[0]["k"] == "call" and a[0]["f"]["q"].split("<")[0] == "pybind11::init":
                ls = [lambda_of(y, f) for y in a[0]["c"]]
                if len(ls) >= 1 and ls[0]:
                    ninit += 1
                    constructor(chk, prog, Py, C08, f, cls, names, ls[0], argnames(a[1:]))
            elif a[0]["k"] == "str" and len(a) > 1 and (meth == "def_property_readonly" or (meth == "def" and a[0]["v"] == "with_form_key")):
                nprop += properties(chk, prog, Py, C08, f, cls, names, a[0]["v"], a[1], x)
    chk.floor("pickled_forms", npickle, 11)
    chk.floor("form_constructors", ninit, 12)
    chk.floor("form_properties", nprop, 30)


def pickling(chk, prog, Py, C08, f, cls, fields, ls):
    names = [n for n, t, o in fields]
    label = short(cls)
    optional = [n for n in names if n in C08.OPTIONAL]
    for nd in {frozenset(optional), frozenset()} | {frozenset([o]) for o in optional}:
        h = Py(prog, cls, nd)
        try:
            states = Mini(prog, h).run(pseudo(f, ls[0]), None, [C08.THIS])
        except TooManyPaths:
            continue
        chk.ob(bool(states), loc(f, ls[0]), "a %s can be pickled" % label)
        for st, v in states:
            if v[0] != "pytuple":
                continue
            h2 = Py(prog, cls, nd)
            try:
                back = Mini(prog, h2).run(pseudo(f, ls[1]), None, [v], St(facts=dict(st.facts)))
            except TooManyPaths:
                continue
            for msg, node in h2.bad:
                chk.ob(False, loc(f, node), "%s: unpickling reads %s" % (label, msg))
            if not chk.ob(bool(back), loc(f, ls[1]), "a pickled %s can be unpickled" % label):
                continue
            for st2, w in back:
                if w[0] != "new":
                    continue
                chk.ob(w[1] == cls, loc(f, ls[1]), "a pickled %s is unpickled as a %s" % (label, label))
                got = dict(w[2])
                for n in names:
                    x = got.get(n)
                    if x is None:
                        continue
                    if n in optional and n not in nd:
                        fs = C08.this_fields(x)
                        chk.ob(x in (NULL, NONE) or fs == {n}, loc(f, ls[1]), "%s: an absent %s survives pickling" % (label, n))
                        continue
                    fs = C08.this_fields(x)
                    ok = bool(fs & C08.group_of(cls, n)) and fs <= C08.group_of(cls, n) and not deps(x, lambda t: t[0] == "op" and t[1] == "!")
                    chk.ob(ok, loc(f, ls[1]), "%s: %s survives pickling%s" % (label, n, "" if ok else " (it comes from %s)" % (", ".join(sorted(fs)) or "nowhere")))


def constructor(chk, prog, Py, C08, f, cls, names, lam, args):
    if len(args) != len(lam["ps"]) or None in args:
        chk.count("constructors_without_named_arguments")
        return
    vals = [("sym", "arg", n) for n in args]
    h = Py(prog, cls, frozenset(names))
    try:
        res = Mini(prog, h).run(pseudo(f, lam), None, vals)
    except TooManyPaths:
        return
    for st, v in res:
        if v[0] != "new" or v[1] != cls:
            continue
        for n, x in v[2]:
            want = ARGNAME.get(n, set()) | {n.rstrip("_")}
            want &= set(args)
            if n == "recordlookup_" and "keys" not in args:
                want = {"contents"}
            src = {t[2] for t in deps(x, lambda t: t[0] == "sym" and len(t) == 3 and t[1] == "arg")}
            none = n == "recordlookup_" and not src
            ok = none or (src <= want and bool(src) and not deps(x, lambda t: t[0] == "op" and t[1] == "!"))
            chk.ob(ok, loc(f, lam), "%s(...): %s is taken from the argument %s%s" % (short(cls), n, "/".join(sorted(want)) or "of that name", "" if ok else " (it comes from %s)" % (", ".join(sorted(src)) or "nowhere")))


def properties(chk, prog, Py, C08, f, cls, names, prop, target, x):
    field = prop + "_"
    g, named = callable_of(prog, target, f)
    if g is None:
        return 0
    if named:
        # &Class::method or &function<...>
        q = g.get("q", g.get("n", ""))
        if field in names and "::" in q:
            m = C08.method(prog, cls, short(q).split("<")[0], 0)
            if m is None:
                return 0
            g = m
            this, args = C08.THIS, []
        else:
            cand = [h for h in prog.funcs.values() if h.get("body") and short(h["q"]).split("<")[0] == short(q).split("<")[0] and h.get("path", "").endswith("forms.cpp")]
            if field not in names or not cand:
                return 0
            g = cand[0]
            this, args = None, [C08.THIS]
    else:
        this, args = None, [C08.THIS]
    if prop == "with_form_key":
        args = [C08.THIS, ("sym", "key")]
    elif field not in names:
        return 0
    h = Py(prog, cls, frozenset(names))
    try:
        res = Mini(prog, h).run(g, this, args)
    except TooManyPaths:
        return 0
    for st, v in res:
        if prop == "with_form_key":
            if v[0] == "call" and short(v[1]) == "with_form_key":
                chk.ob(v[2] == C08.THIS and (v[-1] == NULL or ("sym", "key") in deps(v[-1], lambda t: t == ("sym", "key"))), loc(f, x), "%s.with_form_key passes the key on" % short(cls))
            elif v[0] == "new":
                got = dict(v[2])
                for n in names:
                    if n == "form_key_":
                        ok = got.get(n) == NULL or bool(deps(got.get(n), lambda t: t == ("sym", "key")))
                    else:
                        ok = C08.this_fields(got.get(n)) == {n}
                    chk.ob(ok, loc(f, x), "%s.with_form_key keeps %s" % (short(cls), n))
            continue
        fs = C08.this_fields(v)
        ok = fs <= {field} and (bool(fs) or v == NONE) and not deps(v, lambda t: t[0] == "op" and t[1] == "!")
        if prop == "contents" and "recordlookup_" in names:
            ok = "contents_" in fs
        chk.ob(ok, loc(f, x), "%s.%s is the attribute of that name" % (short(cls), prop))
    return 1


def operators(chk, prog, Py, C08, f, x, name, target):
    g, named = callable_of(prog, target, f)
    if g is None or named:
        return
    h = Py(prog, "awkward::Form", frozenset())
    h.inline = lambda g, name, obj, args: obj is None
    m = Mini(prog, h)
    try:
        res = m.run(g, None, [C08.THIS, C08.OTHER])
    except TooManyPaths:
        return
    for st, v in res:
        neg = name == "__ne__"
        # undecided conditions were followed both ways: v is a constant and the decision is among the facts
        eq = [(t, b) for t, b in st.facts.items() if t[0] == "call" and short(t[1]) == "equal"]
        if v[0] == "op" and v[1] == "!":
            v, neg = v[2], not neg
        if v[0] == "call" and short(v[1]) == "equal":
            ok = not neg and v[2:] == (C08.THIS, C08.OTHER, TRUE, TRUE, TRUE, FALSE)
        elif v[0] == "k" and len(eq) == 1:
            t, b = eq[0]
            ok = t[2:] == (C08.THIS, C08.OTHER, TRUE, TRUE, TRUE, FALSE) and bool(v[1]) == (b != neg)
        else:
            continue
        chk.ob(ok, loc(f, x), "%s compares all of both forms" % name)
