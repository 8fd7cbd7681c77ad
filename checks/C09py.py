"""The Python side of C09: constructors and properties of the array classes in src/python/content.cpp."""
from vlib.core import *
from vlib.mini import *
from vlib.mini import short
from checks import C08, C08py

# attribute <- constructor argument(s), where the names differ
ARGNAME = {"length_": {"length", "zeros_length", "contents", "content"}, "recordlookup_": {"keys", "contents"}}
# properties that are read under another name
PROPNAME = {}


def make():
    Base = C08py.make(C08)

    class Py(Base):
        def call(self, m, node, fr, q, obj, args, st):
            name = short(q).split("<")[0]
            if name in ("unbox_content", "unbox_identities_none", "unbox_identities", "box") and len(args) >= 1:
                return args[0]
            return super().call(m, node, fr, q, obj, args, st)

        def inline(self, g, name, obj, args):
            if obj == C08.THIS:
                return True
            return name in ("getparameters", "iterable_to_RecordArray") or (obj is None and g.get("path", "").endswith("python/content.cpp") and sum(1 for _ in walk(g["body"])) < 500)
    return Py


def bindings(chk, prog):
    arrays = set(prog.derived("awkward::Content")) - {"awkward::Content", "awkward::None"}
    Py = make()
    prog.load("python", lambda s: s.endswith("content.cpp"))
    C08.Base._by_cls = None
    ninit = nprop = 0
    out = {}
    for f in list(prog.funcs.values()):
        if not f.get("body") or not f.get("path", "").endswith("python/content.cpp"):
            continue
        for x in walk(f["body"]):
            if x.get("k") != "call" or not x.get("f") or not x["f"].get("cls", "").startswith("pybind11::class_"):
                continue
            cls = C08py.class_of(f, x, arrays)
            if cls is None:
                continue
            meth = short(x["f"]["q"]).split("<")[0]
            a = [strip(c) for c in x.get("c", [])]
            if not a:
                continue
            names = [n for n, t, o in C08.all_fields(prog, cls)]
            if meth == "def" and a[0]["k"] == "call" and a[0]["f"]["q"].split("<")[0] == "pybind11::init":
                for y in a[0]["c"]:
                    g, named = C08py.callable_of(prog, y, f)
                    if named:
                        q = g.get("q", g.get("n", ""))
                        cand = [h for h in prog.funcs.values() if h.get("body") and short(h["q"]) == short(q) and h.get("path", "").endswith("content.cpp")]
                        g = cand[0] if cand else None
                    if g is None:
                        continue
                    args = C08py.argnames(a[1:])
                    out.setdefault(cls, []).append(args)
                    if constructor(chk, prog, Py, f, cls, names, g, args, x):
                        ninit += 1
            elif a[0]["k"] == "str" and len(a) > 1 and meth == "def_property_readonly":
                nprop += prop(chk, prog, Py, f, cls, names, a[0]["v"], a[1], x)
    chk.floor("array_constructors", ninit, 20)
    chk.floor("array_properties", nprop, 40)
    return out


def constructor(chk, prog, Py, f, cls, names, g, args, node):
    if len(args) != len(g["ps"]) or None in args:
        return False
    vals = [("sym", "arg", n) for n in args]
    h = Py(prog, cls, frozenset(names))
    try:
        res = Mini(prog, h).run(g, None, vals)
    except TooManyPaths:
        return False
    n = 0
    for st, v in res:
        if v[0] != "new" or v[1] != cls:
            continue
        n += 1
        for fn, x in v[2]:
            if fn.startswith("#") or fn.rstrip("_") not in args and fn not in ARGNAME:
                continue
            want = (ARGNAME.get(fn, set()) | {fn.rstrip("_")}) & set(args)
            src = {t[2] for t in deps(x, lambda t: t[0] == "sym" and len(t) == 3 and t[1] == "arg")}
            opt = fn in ARGNAME or fn in ("cache_", "cache_key_")
            neg = deps(x, lambda t: t[0] == "op" and t[1] == "!")
            ok = src <= want and (bool(src) or opt) and not neg
            chk.ob(ok, loc(f, node), "%s(...): %s is taken from the argument %s%s" % (short(cls), fn, "/".join(sorted(want)), "" if ok else " (it comes from %s)" % (", ".join(sorted(src)) or "nowhere")))
    return n > 0


def prop(chk, prog, Py, f, cls, names, name, target, node):
    """a property that is named like an attribute shows that attribute"""
    field = name + "_"
    split = name in ("starts", "stops") and "offsets_" in names
    if field not in names and not split or name in ("ptr_lib", "caches") or cls == "awkward::Record":
        return 0
    g, named = C08py.callable_of(prog, target, f)
    if g is None:
        return 0
    this, args = None, [C08.THIS]
    if named:
        meth = short(g.get("f", {}).get("q", g.get("n", ""))).split("<")[0]
        owner = g.get("f", {}).get("cls")
        if owner:
            g = C08.method(prog, cls, meth, 0)
            this, args = C08.THIS, []
        else:
            cand = [h for h in prog.funcs.values() if h.get("body") and short(h["q"]).split("<")[0] == meth and h.get("path", "").endswith("content.cpp") and len(h["ps"]) == 1]
            g = cand[0] if cand else None
        if g is None:
            return 0
    try:
        res = Mini(prog, Py(prog, cls, frozenset(names))).run(g, this, args)
    except TooManyPaths:
        return 0
    n = 0
    for st, v in res:
        fs = C08.this_fields(v)
        if not fs:
            continue
        n = 1
        if split:
            other = "stops" if name == "starts" else "starts"
            ok = "offsets_" in fs and not deps(v, lambda t: t[0] == "call" and short(t[1]).split("<")[0] == "make_" + other)
        else:
            ok = field in fs and not deps(v, lambda t: t[0] == "op" and t[1] == "!")
        chk.ob(ok, loc(f, node), "%s.%s shows the attribute of that name%s" % (short(cls), name, "" if ok else " (it shows %s)" % ", ".join(sorted(fs))))
    return n
