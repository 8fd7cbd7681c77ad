"""C19: high-level operations honour highlevel and behavior on every path.

Every function of the Python package that has a 'highlevel' option is interpreted path by path (vlib/pymini.py), once with
highlevel true and once with highlevel false.  Each returned value is classified from where it comes: a high-level array
(made by ak._util.wrap, ak.Array, ak.Record or another high-level function), or a layout.  With highlevel true, every path
returns a high-level array made from a layout, and its behavior combines the caller's 'behavior' with that of every input
array (taken from the inputs themselves: layouts carry none).  With highlevel false, no path returns a high-level array,
and the layouts returned are the ones that are wrapped otherwise.  ak._util.wrap, maybe_wrap and behaviorof, on which all
of them rely, are interpreted too, as are the methods of ak.Array and ak.Record that wrap results."""
import ast, os
from vlib.core import *
from vlib import pymini as P
from vlib.pymini import deps, NONE, TRUE, FALSE

HL = ("sym", "highlevel")
BEH = ("sym", "behavior")
WRAP = ("ak._util.wrap",)
CLASSES = ("ak.highlevel.Array", "ak.highlevel.Record", "ak.Array", "ak.Record")
TOLAYOUT = ("ak.operations.convert.to_layout", "ak.to_layout")
# inputs whose behavior is not part of the result: (function, parameter)
NOT_COMBINED = {("fill_none", "value"), ("unflatten", "counts"), ("from_buffers", "container"), ("full_like", "fill_value")}


def where(mod, fn):
    return "%s:%d" % (os.path.relpath(mod.path, REPO), fn.lineno)


def params(fn):
    a = fn.args
    return [x.arg for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs]


class Hk(P.Hooks):
    def __init__(self, flag, optional):
        self.flag, self.optional = flag, optional

    def truth(self, v, st):
        return self.flag if v == HL else None

    def call(self, m, q, f, args, kws, node, st):
        if q == "ak._util.extra" and len(args) >= 3 and args[2][0] == "list":
            out = []
            for x in args[2][1:]:
                n = x[1][1] if x[0] == "tuple" and x[1][0] == "k" else "?"
                out.append(HL if n == "highlevel" else BEH if n == "behavior" else ("sym", "option", n))
            return ("tuple",) + tuple(out)
        return None

    def inline(self, q, fn, args):
        # helpers that are told what to return; public functions with the option are judged on their own
        if q.startswith("local:"):
            return HL in args or any(deps(a, lambda t: t == BEH) for a in args)
        last = q.split(".")[-1]
        if last in ("maybe_wrap",) and q.startswith("ak._util"):
            return True
        if not q.startswith("ak.") or q in self.optional or q in WRAP or q == "ak._util.behaviorof":
            return False
        if HL in args or BEH in args:
            return True
        return small(fn) and any(isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in ("wrap", "maybe_wrap") for x in ast.walk(fn))


def small(fn):
    return isinstance(fn, ast.FunctionDef) and sum(isinstance(x, ast.stmt) for x in ast.walk(fn)) <= 15


def kwarg(t, name, pos=None):
    for x in t[2:]:
        if x[0] == "kw" and x[1] == name:
            return x[2]
    p = [x for x in t[2:] if x[0] != "kw"]
    if pos is not None and len(p) > pos and not any(x[0] == "star" for x in p[:pos + 1]):
        return p[pos]
    return None


class Judge:
    def __init__(self, pkg, optional):
        self.pkg, self.optional = pkg, optional

    def callee(self, t):
        if t[0] == "call" and t[1][0] == "glob":
            return self.pkg.public.get(t[1][1], t[1][1])
        return None

    def kind(self, t, facts):
        """hl: a high-level object; opt: whatever highlevel asks for; none; ?: anything else (a layout)"""
        if t == NONE:
            return "none"
        q = self.callee(t)
        if q in WRAP or q in CLASSES:
            return "hl"
        if q in ("tuple", "list") and len(t) == 3:
            return self.kind(t[2], facts)
        if q in self.optional:
            fn = self.optional[q]
            h = kwarg(t, "highlevel", params(fn).index("highlevel") if "highlevel" in params(fn) else None)
            if h == HL:
                return "opt"
            if h is None or h == TRUE:
                return "hl" if not any(x[0] == "kw" and x[1] is None for x in t[2:]) else "?"
            return "?"
        if t[0] == "comp":
            return self.kind(t[1], facts)
        if t[0] in ("tuple", "list") and len(t) > 1:
            ks = {self.kind(x, facts) for x in t[1:]}
            return ks.pop() if len(ks) == 1 else "?"
        if t[0] == "item" or t[0] == "op":
            ks = [self.kind(x, facts) for x in t[1:] if isinstance(x, tuple)]
            return "hl" if "hl" in ks else "opt" if "opt" in ks else "?"
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "snapshot" and self.is_a(t[1][1], "ak.highlevel.ArrayBuilder", facts):
            return "hl"
        if t[0] == "sym" and (self.is_a(t, "ak.highlevel.Array", facts) or self.is_a(t, "ak.highlevel.Record", facts)):
            return "hl"
        return "?"

    def is_a(self, v, cls, facts):
        for f, b in facts.items():
            if b and f[0] == "isa" and f[1] == v and cls in f[2] and all(c.startswith("ak.highlevel.") for c in f[2]):
                return True
        return False

    def made(self, t):
        """(content, behavior) of every high-level object made in the value"""
        q = self.callee(t)
        if q in WRAP:
            yield t, kwarg(t, "content", 0), kwarg(t, "behavior", 1)
        elif q in CLASSES:
            yield t, kwarg(t, "data", 0), kwarg(t, "behavior", 1)
        elif q in ("tuple", "list") and len(t) == 3 and t[2][0] == "comp":
            yield from self.made(t[2])
        elif t[0] == "comp":
            yield from self.made(t[1])
        elif t[0] in ("tuple", "list"):
            for x in t[1:]:
                yield from self.made(x)

    def options(self, t):
        q = self.callee(t)
        if q in self.optional:
            yield t, self.optional[q]
        if t[0] == "item":
            yield from self.options(t[1])

    def sources(self, b):
        """behavior term -> (caller's behavior is used, set of behaviorof arguments) or None"""
        if b is None:
            return False, set()
        if b == BEH:
            return True, set()
        if self.callee(b) == "ak._util.behaviorof":
            k = kwarg(b, "behavior")
            args = set()
            for x in b[2:]:
                if x[0] != "kw":
                    args.add(x)
            used, more = (False, set()) if k is None else self.sources(k)
            return used, args | more
        if b[0] == "attr" and b[2] in ("behavior", "_behavior"):
            return False, {b[1]}
        return None


def raw(args):
    """inputs whose behavior is read: the parameters themselves, not what was made of them"""
    out = set()
    for a in args:
        if a[0] == "star":
            a = a[1]
            if a[0] == "call" and a[1][0] == "attr" and a[1][2] == "values" and len(a) == 2:
                a = a[1][1]
            if a[0] == "comp" and a[1] == ("elem", a[2]):
                a = a[2]
            if a[0] == "call" and a[1] in (("glob", "list"), ("glob", "tuple")) and len(a) == 3:
                a = a[2]
        out.add(a)
    return out


def inputs(t):
    """parameters that are turned into layouts in the value"""
    out = set()
    for c in deps(t, lambda u: u[0] == "call" and u[1][0] == "glob" and u[1][1] in TOLAYOUT):
        pos = [x for x in c[2:] if x[0] != "kw"]
        if pos:
            for s in deps(pos[0], lambda u: u[0] == "sym" and u[1] == "param"):
                out.add(s)
    return out


def norm(t):
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("fn",):
        return ("fn",)
    return tuple(norm(x) for x in t)


def run():
    chk = Check("C19", "path-wise abstract interpretation of the Python layer over value provenance", __doc__.strip().replace("\n", " "))
    pkg = P.Package(REPO)
    optional = {}
    for mn, mod in pkg.mods.items():
        for n, fn in mod.funcs.items():
            if "highlevel" in params(fn) or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "extra" and "'highlevel'" in ast.unparse(x) for x in ast.walk(fn)):
                optional[mn + "." + n] = fn
    optional.pop("ak._util.maybe_wrap", None)
    j = Judge(pkg, optional)
    nf = nret = 0
    for q, fn in sorted(optional.items()):
        mod = pkg.mods[q.rpartition(".")[0]]
        n = fn.name
        r = {}
        for flag in (True, False):
            a = {p: ("sym", "param", p) for p in params(fn)}
            a["highlevel"] = HL
            if "behavior" in a:
                a["behavior"] = BEH
            if fn.args.vararg:
                a[fn.args.vararg.arg] = ("sym", "param", fn.args.vararg.arg)
            if fn.args.kwarg:
                a[fn.args.kwarg.arg] = ("sym", "kwargs")
            a = {k: v for k, v in a.items() if k != "highlevel" or "highlevel" in params(fn)}
            try:
                r[flag] = [(st, v) for st, k, v in P.PyMini(pkg, Hk(flag, optional), maxpaths=6000).run(mod, fn, a) if k == "return"]
            except (P.TooManyPaths, RecursionError):
                chk.count("beyond_path_bound")
        nf += 1
        hasb = "behavior" in params(fn)
        for st, v in r.get(True, []):
            nret += 1
            k = j.kind(v, st.facts)
            if not chk.ob(k != "?" or unknown(v), where(mod, fn), "%s: with highlevel=True every path returns a high-level array (not %s)" % (n, show(v))):
                continue
            for t, content, b in j.made(v):
                if content is not None:
                    chk.ob(j.kind(content, st.facts) not in ("hl", "opt"), where(mod, fn), "%s: what is wrapped is a layout" % n)
                s = j.sources(b)
                if s is None:
                    continue
                used, args = s
                if hasb:
                    chk.ob(used, where(mod, fn), "%s: the caller's behavior reaches the result" % n)
                have = raw(args)
                for p in inputs(content or ()):
                    if (n, p[2]) in NOT_COMBINED:
                        continue
                    chk.ob(p in have, where(mod, fn), "%s: the behavior of %s reaches the result" % (n, p[2]))
            for t, g in j.options(v):
                gp = params(g)
                if hasb and "behavior" in gp:
                    b = kwarg(t, "behavior", gp.index("behavior"))
                    s = j.sources(b)
                    if s is not None:
                        chk.ob(s[0], where(mod, fn), "%s: the caller's behavior is handed on to %s" % (n, g.name))
        for st, v in r.get(False, []):
            nret += 1
            k = j.kind(v, st.facts)
            chk.ob(k != "hl", where(mod, fn), "%s: with highlevel=False no path returns a high-level array (%s)" % (n, show(v)))
        if True in r and False in r and r[False]:
            on = set()
            whole = True
            for st, v in r[True]:
                m = list(j.made(v))
                if j.callee(v) in WRAP and m[0][1] is not None:
                    on.add(norm(m[0][1]))
                elif j.kind(v, st.facts) == "opt":
                    on.add(norm(v))
                elif v == NONE:
                    on.add(NONE)
                else:
                    whole = False
            if whole:
                off = {norm(v) for st, v in r[False]}
                chk.ob(on == off, where(mod, fn), "%s: the layouts wrapped with highlevel=True are those returned with highlevel=False" % n)
    chk.floor("functions", nf, 50)
    chk.floor("returned_values", nret, 400)
    basics(chk, pkg, j)
    methods(chk, pkg, j)
    return chk.finish()


def unknown(v):
    """a value of which nothing is known (a parameter, the result of an unknown call) is not judged, except layouts"""
    if v[0] == "call" and v[1][0] == "glob" and v[1][1].startswith(("ak.layout.", "ak.partition.")):
        return False
    if v[0] == "item" and v[1][0] == "call" or v[0] == "call" and v[1][0] == "glob":
        return False
    if v[0] == "attr" and v[2] in ("layout", "_layout"):
        return False
    if v[0] == "call" and v[1][0] == "attr":
        return False
    return True


def show(v):
    while v[0] in ("item", "attr"):
        v = v[1]
    if v[0] == "call" and v[1][0] == "glob":
        return v[1][1]
    return str(v)[:60]


# ------------------------------------------------------------------ wrap, maybe_wrap, behaviorof
def basics(chk, pkg, j):
    mod = pkg.mods["ak._util"]
    C, B = ("sym", "content"), ("sym", "b")

    class H(P.Hooks):
        def __init__(self, cls, flag=None):
            self.cls, self.flag = cls, flag

        def isa(self, v, classes, st):
            if v == C:
                return self.cls in classes or self.cls == "ak.layout.ListOffsetArray64" and "ak.layout.Content" in classes
            return None

        def truth(self, v, st):
            return self.flag if v == HL else None

        def inline(self, q, fn, args):
            return q == "ak._util.wrap" or q.startswith("local:")
    n = 0
    for name in ("wrap", "maybe_wrap"):
        fn = mod.funcs.get(name)
        if fn is None:
            continue
        for cls, made in (("ak.layout.ListOffsetArray64", "ak.highlevel.Array"), ("ak.partition.PartitionedArray", "ak.highlevel.Array"), ("ak.layout.Record", "ak.highlevel.Record"), ("int", None)):
            for flag in ((True, False) if name == "maybe_wrap" else (True,)):
                args = dict(zip(params(fn), (C, B, HL)))
                for st, k, v in P.PyMini(pkg, H(cls, flag)).run(mod, fn, args):
                    if k != "return":
                        continue
                    n += 1
                    if made is None or not flag:
                        chk.ob(v == C, where(mod, fn), "%s returns a %s as it is" % (name, cls))
                    else:
                        ok = v[0] == "call" and v[1] == ("glob", made) and kwarg(v, "data", 0) == C and kwarg(v, "behavior", 1) == B
                        chk.ob(ok, where(mod, fn), "%s makes an %s of a %s with the given behavior" % (name, made, cls))
    fn = mod.funcs.get("behaviorof")
    if fn is not None:
        X, Y = ("sym", "x"), ("sym", "y")

        class HB(P.Hooks):
            def __init__(self, none, explicit):
                self.none, self.explicit = none, explicit

            def isa(self, v, classes, st):
                return True if v in (X, Y) else None

            def call(self, m, q, f, args, kws, node, st):
                if f[0] == "attr" and f[2] == "get" and args[:1] == [("k", "behavior")]:
                    return B if self.explicit else NONE
                return None

            def truth(self, v, st):
                if v[0] == "op" and v[1] == "is" and v[3] == NONE:
                    if v[2][0] == "attr" and v[2][1] in (X, Y) and v[2][2] in ("behavior", "_behavior"):
                        return v[2][1] in self.none
                    if v[2] == B or v[2][0] == "call":
                        return False
                return None

            def inline(self, q, fn, args):
                return q.startswith("local:")
        beh = lambda t: ("attr", t, "behavior")
        for none, explicit, want in (((X, Y), True, {B}), ((), True, {B}), ((X,), False, {beh(Y)}), ((Y,), False, {beh(X)}), ((X, Y), False, {NONE})):
            for st, k, v in P.PyMini(pkg, HB(none, explicit)).run(mod, fn, {"arrays": ("tuple", X, Y), "kwargs": ("dict",) + (((("k", "behavior"), B),) if explicit else ())}):
                if k == "return":
                    n += 1
                    got = v
                    if not explicit and got[0] == "call" and got[1] == ("glob", "dict") and len(got) == 3:
                        got = got[2]
                    chk.ob(got in want, where(mod, fn), "behaviorof: an explicit behavior wins; otherwise the inputs' own (%s)" % show(v))
    chk.floor("basic_paths", n, 10)


# ------------------------------------------------------------------ methods of the high-level classes
def methods(chk, pkg, j):
    """results wrapped inside of ak.Array, ak.Record and ufunc overloads carry a behavior from their operands"""
    n = 0
    for mn in ("ak.highlevel", "ak._connect._numpy", "ak.behaviors.string", "ak.behaviors.categorical"):
        mod = pkg.mods.get(mn)
        if mod is None:
            continue
        for fn, cls in functions(mod.tree):
            for x in ast.walk(fn):
                if isinstance(x, ast.Call) and ast.unparse(x.func) in ("ak._util.wrap", "wrap"):
                    b = x.args[1] if len(x.args) > 1 else next((k.value for k in x.keywords if k.arg == "behavior"), None)
                    if b is None:
                        chk.ob(any(k.arg is None for k in x.keywords) or any(isinstance(a, ast.Starred) for a in x.args), "%s:%d" % (os.path.relpath(mod.path, REPO), x.lineno), "%s: a behavior is given" % fn.name)
                        continue
                    n += 1
                    chk.ob(not (isinstance(b, ast.Constant) and b.value is None), "%s:%d" % (os.path.relpath(mod.path, REPO), x.lineno), "%s: the result keeps the behavior" % fn.name)
                    src = resolve(b, fn)
                    if isinstance(src, ast.Attribute) and src.attr in ("_behavior", "behavior") and isinstance(src.value, ast.Name) and src.value.id == "self":
                        continue
    chk.floor("wrapped_in_methods", n, 10)


def resolve(b, fn):
    if isinstance(b, ast.Name):
        d = [s.value for s in ast.walk(fn) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == b.id for t in s.targets)]
        if len(d) == 1:
            return d[0]
    return b


def functions(tree, cls=None):
    for s in tree.body:
        if isinstance(s, ast.ClassDef):
            yield from functions(s, s.name)
        elif isinstance(s, ast.FunctionDef):
            yield s, cls
