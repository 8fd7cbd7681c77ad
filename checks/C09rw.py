"""C09, Python layer: nodes that are rebuilt from a node keep its attributes.

(1) ak._util.recursively_apply, the rewriting used by the high-level operations, is interpreted once per array class: the
    node it returns is of the same class, its children are the rewritten children, everything else is the original's.
(2) every direct construction of an array node in the Python layer is examined argument by argument: an attribute of
    another node never goes into the slot of a different attribute, and the constructions listed in c09_python.json keep
    the attributes they keep today (reviewed)."""
import ast, json, os
from vlib.core import *
from vlib.pymini import *

TABLE = os.path.join(os.path.dirname(__file__), "c09_python.json")
LAYOUT = ("sym", "layout")
ALIAS = {"keys": {"recordlookup"}, "zeros_length": {"len"}, "length": {"len"}}


class Rw(Hooks):
    def __init__(self, cls):
        self.cls = cls
        self.calls = []

    def call(self, m, q, f, args, kws, node, st):
        if q == "type" and args == [LAYOUT] or f == ("attr", LAYOUT, "__class__"):
            return ("glob", "ak.layout." + self.cls)
        return None

    def attr(self, base, name, st):
        if base == LAYOUT and name == "__class__":
            return ("glob", "ak.layout." + self.cls)
        return None

    def isa(self, v, classes, st):
        if v == LAYOUT:
            return "ak.layout." + self.cls in classes or ("ak.layout.Content" in classes and self.cls != "Record")
        return None

    def inline(self, q, fn, args):
        if q == "local:apply" or q.endswith(".apply"):
            return bool(args) and args[0] == LAYOUT
        return q.startswith("local:") or q.startswith("ak._util.")


def pynames(prog):
    """Python class name -> C++ class"""
    prog.load("python", lambda s: s.endswith("_ext.cpp"))
    out = {}
    for f in list(prog.funcs.values()):
        if not f.get("body") or not f.get("path", "").endswith("_ext.cpp"):
            continue
        for x in walk(f["body"]):
            if x.get("k") == "call" and x.get("f") and x["f"]["q"].split("<")[0].startswith("make_"):
                s = [strip(c) for c in x.get("c", [])]
                names = [y["v"] for c in s for y in [c] + list(walk(c)) if y.get("k") == "str"]
                if names:
                    rt = x["u"].types[x["f"]["rt"]] if "u" in x else f["u"].types[x["f"]["rt"]]
                    out[names[0]] = rt
    return out


def rewriting(chk, prog, ctors):
    """ctors: C++ class -> list of argument-name lists"""
    names = {}
    for py, rt in pynames(prog).items():
        for cls, al in ctors.items():
            if ("<" + cls + ",") in rt or ("<" + cls + ">") in rt:
                names[py] = al
    chk.floor("python_array_classes", len(names), 23)
    pkg = Package(REPO)
    recursion(chk, pkg, names)
    constructions(chk, pkg, names)


def slots(term, params):
    """constructor call -> {parameter: value}"""
    pos = [x for x in term[2:] if x[0] != "kw"]
    if any(x[0] == "star" for x in pos) or len(pos) > len(params):
        return None
    out = dict(zip(params, pos))
    for x in term[2:]:
        if x[0] == "kw":
            out[x[1]] = x[2]
    return out


def recursion(chk, pkg, names):
    mod = pkg.mods["ak._util"]
    fn = mod.funcs.get("recursively_apply")
    if fn is None:
        chk.count("recursively_apply_absent")
        return
    n = 0
    for cls in sorted(names):
        if cls == "VirtualArray":
            continue
        lists = names[cls]
        h = Rw(cls)
        m = PyMini(pkg, h)
        try:
            res = m.run(mod, fn, {"layout": LAYOUT, "keep_parameters": TRUE, "numpy_to_regular": FALSE, "pass_apply": FALSE, "getfunction": ("sym", "getfunction"), "user": ("sym", "user")})
        except TooManyPaths:
            chk.count("recursion_beyond_path_bound")
            continue
        where = "%s:%d" % (os.path.relpath(mod.path, REPO), fn.lineno)
        got = False
        for st, kind, v in res:
            if kind == "raise":
                chk.ob(v[0] != "call" or v[1] != ("glob", "AssertionError"), where, "recursively_apply accepts a %s" % cls)
                continue
            if v[0] == "call" and v[1][0] == "call" and v[1][1] == ("sym", "getfunction"):
                continue           # the custom function decided
            if v == LAYOUT:
                got = True
                n += 1
                ok = cls in ("NumpyArray", "EmptyArray")
                chk.ob(ok, where, "recursively_apply rewrites the children of a %s" % cls)
                continue
            if v[0] != "call" or v[1][0] != "glob" or not v[1][1].startswith("ak.layout."):
                continue
            got = True
            n += 1
            if not chk.ob(v[1][1] == "ak.layout." + cls, where, "recursively_apply rebuilds a %s as a %s" % (cls, cls)):
                continue
            for params in lists:
                s = slots(v, params)
                if s is not None:
                    break
            if s is None:
                continue
            for p in params:
                if cls == "NumpyArray" and p == "array":
                    continue
                x = s.get(p)
                if x is None:
                    if p in ("zeros_length",):
                        continue
                    chk.ob(False, where, "recursively_apply keeps the %s of a %s" % (p, cls))
                    continue
                want = {p} | ALIAS.get(p, set())
                plain = x[0] == "attr" and x[1] == LAYOUT and x[2] in want
                if p in ("zeros_length", "length"):
                    plain = plain or x == ("call", ("glob", "len"), LAYOUT)
                if p in ("content", "contents", "array"):
                    src = {t[2] for t in deps(x, lambda t: t[0] == "attr" and len(t) == 3 and t[1] == LAYOUT)}
                    plain = src == {p} and bool(deps(x, lambda t: t[0] == "call" and t[1][0] == "fn"))
                chk.ob(plain, where, "recursively_apply keeps the %s of a %s" % (p, cls) if p not in ("content", "contents", "array") else "recursively_apply rewrites the %s of a %s" % (p, cls))
        chk.ob(got, where, "recursively_apply handles a %s" % cls) if got else chk.count("recursion_unresolved")
    chk.floor("recursively_apply_classes", n, 12)


# ------------------------------------------------------------------ direct constructions
def single_defs(fn):
    d = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Name):
                    d.setdefault(t.id, []).append(x.value)
                else:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name):
                            d.setdefault(y.id, []).append(None)
        elif isinstance(x, (ast.AugAssign, ast.For, ast.comprehension)):
            for y in ast.walk(x.target):
                if isinstance(y, ast.Name):
                    d.setdefault(y.id, []).append(None)
        elif isinstance(x, (ast.FunctionDef, ast.Lambda)):
            for a in x.args.args:
                d.setdefault(a.arg, []).append(None)
    return {k: v[0] for k, v in d.items() if len(v) == 1 and v[0] is not None}


def attrs(e, defs, depth=0):
    """attribute names read off nodes in an expression"""
    out = set()
    for x in ast.walk(e):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            out.add(x.attr)
        elif isinstance(x, ast.Name) and x.id in defs and depth < 4:
            out |= attrs(defs[x.id], defs, depth + 1)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len":
            out.add("len")
    return out


def direct(e, defs, depth=0):
    """the attribute that an argument is, if it is nothing but an attribute of a variable -> (variable, attribute)"""
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id not in ("ak", "np", "numpy", "awkward", "sys", "self"):
        return e.value.id, e.attr
    if isinstance(e, ast.Name) and e.id in defs and depth < 4:
        return direct(defs[e.id], defs, depth + 1)
    if isinstance(e, ast.IfExp):
        return direct(e.body, defs, depth) or direct(e.orelse, defs, depth)
    return None


def sites(pkg, names):
    for mn in sorted(pkg.mods):
        if "._jax" in mn or "_autograd" in mn:
            continue
        mod = pkg.mods[mn]
        tops = [(n, f) for n, f in mod.funcs.items()]
        for cn, c in mod.classes.items():
            tops += [(cn + "." + f.name, f) for f in c.body if isinstance(f, ast.FunctionDef)]
        for tn, f in tops:
            defs = single_defs(f)
            for x in ast.walk(f):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in names and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "layout":
                    if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
                        continue
                    for params in names[x.func.attr]:
                        if len(x.args) <= len(params) and all(k.arg in params for k in x.keywords):
                            s = dict(zip(params, x.args))
                            s.update({k.arg: k.value for k in x.keywords})
                            if x.func.attr == "RecordArray" and "keys" not in params and isinstance(s.get("length"), (ast.List, ast.Name)) and len(x.args) > 2:
                                continue
                            yield mn, mod, tn, f, x, x.func.attr, params, s, defs
                            break


def constructions(chk, pkg, names):
    table = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    allparams = {p for l in names.values() for ps in l for p in ps} - {"contents", "content"}
    n = kept = 0
    for mn, mod, tn, f, x, cls, params, s, defs in sites(pkg, names):
        n += 1
        where = "%s:%d" % (os.path.relpath(mod.path, REPO), x.lineno)
        for p, e in s.items():
            d = direct(e, defs)
            if d is not None and d[1] in allparams and d[1] != p and d[1] in params and p in params:
                chk.ob(d[1] in ALIAS.get(p, ()), where, "%s: the %s of the new %s is not another node's %s" % (tn, p, cls, d[1]))
        key = "%s:%s:%s" % (mn, tn, cls)
        for p, want in table.get(key, {}).items():
            kept += 1
            got = attrs(s[p], defs) if p in s else set()
            chk.ob(bool(got & set(want)), where, "%s hands the %s on to the %s it builds" % (tn, p, cls))
    chk.floor("python_constructions", n, 120)
    chk.floor("python_kept_attributes", kept, 60)


def mktable(pkg, names):
    out = {}
    for mn, mod, tn, f, x, cls, params, s, defs in sites(pkg, names):
        key = "%s:%s:%s" % (mn, tn, cls)
        cur = {}
        for p in params:
            if p in s:
                a = attrs(s[p], defs) & ({p} | ALIAS.get(p, set()))
                if a and p not in ("zeros_length", "length", "array", "content", "contents"):
                    cur[p] = a
        if key in out:
            out[key] = {p: out[key][p] | a for p, a in cur.items() if p in out[key]}
        else:
            out[key] = cur
    return {k: {p: sorted(a) for p, a in v.items()} for k, v in sorted(out.items()) if v}
