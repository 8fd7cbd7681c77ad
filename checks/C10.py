"""C10: every element type is handled with its own C++ type.

Deciding method: a forward dataflow over every function's CFG keeps, for every
dtype-valued expression, the set of dtypes it can have (learnt from switch
labels, comparisons and the util::is_* predicates); at every place where a
buffer belonging to an array is viewed through a typed pointer, where a
template is instantiated for an element type, or where an array is constructed
from a typed buffer, the type must be the one the dtype stands for.  The
type tables are evaluated for every enumerator and compared with each other.
"""
import re
from vlib.core import Program, Check, walk, walk_nolambda, strip, tstr, loc, children
from vlib.cfg import NoReturn, lambdas, single_defs
from vlib.facts import Flow, Facts, Canon

CT = {"boolean": "bool", "int8": "signed char", "int16": "short", "int32": "int", "int64": "long",
      "uint8": "unsigned char", "uint16": "unsigned short", "uint32": "unsigned int", "uint64": "unsigned long",
      "float32": "float", "float64": "double", "complex64": "std::complex<float>", "complex128": "std::complex<double>",
      "datetime64": "long", "timedelta64": "long"}
SIZE = {"boolean": 1, "int8": 1, "int16": 2, "int32": 4, "int64": 8, "uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8,
        "float16": 2, "float32": 4, "float64": 8, "float128": 16, "complex64": 8, "complex128": 16, "complex256": 32,
        "datetime64": 8, "timedelta64": 8}
ELEM = set(CT.values())
CSIZE = {"bool": 1, "signed char": 1, "short": 2, "int": 4, "long": 8, "unsigned char": 1, "unsigned short": 2,
         "unsigned int": 4, "unsigned long": 8, "float": 4, "double": 8, "std::complex<float>": 8,
         "std::complex<double>": 16, "char": 1}
DT = "awkward::util::dtype"


def elem_of_ptr(t):
    t = t.strip()
    if not t.endswith("*"):
        return None
    t = t[:-1].strip()
    t = re.sub(r"\bconst\b", "", t).strip()
    t = norm(t)
    return t if t in ELEM or t == "char" else None


_ALIAS = {"int8_t": "signed char", "int16_t": "short", "int32_t": "int", "int64_t": "long", "uint8_t": "unsigned char",
          "uint16_t": "unsigned short", "uint32_t": "unsigned int", "uint64_t": "unsigned long", "ssize_t": "long",
          "long long": "long", "complex<float>": "std::complex<float>", "complex<double>": "std::complex<double>"}


def norm(t):
    t = t.replace("const ", "").strip()
    if t.startswith("std::") and t[5:] in _ALIAS:
        t = t[5:]
    return _ALIAS.get(t, t)


def split_ta(s):
    out, d, cur = [], 0, ""
    for ch in s or "":
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += ch == "<"
        d -= ch == ">"
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return [norm(x) for x in out]


def shared_elem(t):
    m = re.match(r"^(?:const )?(?:class )?std::shared_ptr<(.*)>(?: &+)?$", t.strip())
    return norm(m.group(1)) if m else None


OWNER = re.compile(r"^(.*?)(?:\.data\(\)|\.ptr_)$")


def owner(c):
    """canonical expression of a buffer pointer -> canonical array"""
    c = re.sub(r"^\((.*) \+ .*\)$", r"\1", c) if c.startswith("(") else c
    m = OWNER.match(c)
    if not m:
        return None
    return m.group(1)


def dtype_root(o):
    """contiguous copies have the dtype of the original"""
    while True:
        n = re.sub(r"\.(contiguous|shallow_copy|getitem_nothing)\(\)$", "", o)
        if n == o:
            return o
        o = n


class World:
    def __init__(self):
        self.prog = Program().load("libawkward").load("python")
        self.names = {v: n for n, v in self.prog.enums[DT]["v"]}
        self.all = frozenset(v for v, n in self.names.items() if n not in ("size",))
        self.nr = NoReturn(self.prog)
        self.flows = {}
        self.preds = {}

    def universe(self, s, t):
        if s.endswith("dtype_") or s.endswith(".dtype()"):
            return self.all
        if t and re.sub(r"\bconst\b|&", "", t).strip() in (DT, "util::dtype", "ak::util::dtype", "dtype"):
            return self.all
        return None

    def predicate(self, call, canon):
        f = call.get("f") or {}
        q = f.get("q", "")
        if q in self.preds and len(call["c"]) == 1:
            return canon(call["c"][0]), self.preds[q]
        return None

    def flow(self, fn):
        k = fn["key"]
        if k not in self.flows:
            self.flows[k] = Flow(fn, self.universe, self.predicate, self.nr)
        return self.flows[k]

    def name(self, vs):
        return "/".join(self.names[v] for v in sorted(vs))


def own_functions(prog):
    for f in prog.funcs.values():
        if f.get("body") and (f["path"].startswith("src/") or f["path"].startswith("include/")):
            yield f
            for l in lambdas(f):
                yield l


def touches(fn):
    """cheap pre-test"""
    for x in walk_nolambda(fn["body"]):
        k = x.get("k")
        if k == "cast" and x.get("s") == "CXXReinterpretCastExpr":
            return True
        if k == "ref" and x.get("dk") == "enum" and x.get("q", "").startswith(DT + "::"):
            return True
        if k == "call":
            f = x.get("f") or {}
            if f.get("cls") == "awkward::NumpyArray" and (f.get("ta") or True) and f.get("q", "").split("::")[-1].startswith("tojson_"):
                return True
    return False


# ------------------------------------------------------------- type tables
from vlib.mini import Mini, Hooks, St, NULL  # noqa: E402


class TableHooks(Hooks):
    """constant folding of the few std::string operations the tables use"""

    def __init__(self, consts=None):
        self.consts = consts or {}

    def call(self, m, node, fr, name, obj, args, st):
        n = name.split("::")[-1]
        o = deref(obj)
        if o is not None and o[0] == "k" and isinstance(o[1], str):
            a = [deref(x) for x in args]
            if n in ("length", "size"):
                return ("k", len(o[1]))
            if n == "empty":
                return ("k", not o[1])
            if n in ("rfind", "find", "compare") and a and a[0][0] == "k" and isinstance(a[0][1], str) and all(x[0] == "k" for x in a):
                if n == "compare":
                    if len(a) == 1:
                        return ("k", (o[1] > a[0][1]) - (o[1] < a[0][1]))
                elif n == "rfind":
                    return ("k", o[1].rfind(a[0][1], 0, a[1][1] + len(a[0][1])) if len(a) > 1 else o[1].rfind(a[0][1]))
                else:
                    return ("k", o[1].find(a[0][1], a[1][1] if len(a) > 1 else 0))
            if n == "substr" and all(x[0] == "k" for x in a):
                s = o[1]
                return ("k", s[a[0][1]:a[0][1] + a[1][1]] if len(a) > 1 else s[a[0][1]:])
        return None

    def inline(self, g, name, obj, args):
        return g["path"].endswith(("/util.cpp", "/util.h"))


def deref(v):
    while isinstance(v, tuple) and v and v[0] in ("cast", "conv", "copy", "addr", "deref") and len(v) > 1:
        v = v[-1] if isinstance(v[-1], tuple) else v[1]
        if not isinstance(v, tuple):
            return None
    return v


def consts_of(res):
    out = set()
    for st, v in res:
        v = deref(v)
        if v is None or v[0] != "k":
            return None
        out.add(v[1])
    return out


def util_fn(w, name):
    c = [f for f in w.prog.funcs.values() if f["q"] == "awkward::util::" + name and f.get("body")]
    return c[0] if c else None


def evaluate(w, fn, args):
    m = Mini(w.prog, TableHooks(), maxpaths=400)
    try:
        return consts_of(m.run(fn, None, args))
    except Exception:
        return None


KINDS = {"is_integer": {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"},
         "is_signed": {"int8", "int16", "int32", "int64"},
         "is_unsigned": {"uint8", "uint16", "uint32", "uint64"},
         "is_real": {"float16", "float32", "float64", "float128"},
         "is_complex": {"complex64", "complex128", "complex256"}}
NAMES = {"boolean": "bool"}


def tables(ck, w):
    """type names, format codes, sizes and kinds agree, for every enumerator"""
    val = {n: v for v, n in w.names.items()}
    prim = [n for n in SIZE if n in val]
    d2n, n2d, d2f, f2d, d2s = (util_fn(w, x) for x in ("dtype_to_name", "name_to_dtype", "dtype_to_format",
                                                        "format_to_dtype", "dtype_to_itemsize"))
    for pname, members in KINDS.items():
        f = util_fn(w, pname)
        if f is None:
            continue
        S = set()
        known = True
        for v in sorted(w.all):
            r = evaluate(w, f, [("k", v)])
            if r is None or len(r) != 1:
                known = False
                continue
            if True in r:
                S.add(w.names[v])
            ck.ob((True in r) == (w.names[v] in members), loc(f), "%s(%s) is %s" % (pname, w.names[v], True in r),
                  ident="kind:%s:%s" % (pname, w.names[v]))
            ck.count("table entries")
        if known:
            w.preds["awkward::util::" + pname] = frozenset(val[n] for n in S)
    for n in prim:
        v = val[n]
        if d2s:
            r = evaluate(w, d2s, [("k", v)])
            if r is not None and len(r) == 1:
                ck.count("table entries")
                ck.ob(r == {SIZE[n]}, loc(d2s), "the item size of %s is given as %s, not %d" % (n, sorted(r), SIZE[n]), ident="size:" + n)
        if d2n:
            r = evaluate(w, d2n, [("k", v)])
            if r is not None and len(r) == 1:
                s = list(r)[0]
                ck.count("table entries")
                ck.ob(s == NAMES.get(n, n), loc(d2n), "the name of %s is given as %r" % (n, s), ident="name:" + n)
                if n2d:
                    b = evaluate(w, n2d, [("k", s)])
                    if b is not None:
                        ck.count("table entries")
                        ck.ob(b == {v}, loc(n2d), "the name %r of %s reads back as %s" % (s, n, "/".join(w.names.get(x, "?") for x in b)),
                              ident="name-back:" + n)
        if d2f:
            r = evaluate(w, d2f, [("k", v), ("k", "")])
            if r is not None and len(r) == 1:
                s = list(r)[0]
                ck.count("table entries")
                ck.ob(isinstance(s, str) and s != "", loc(d2f), "%s has no format code" % n, ident="fmt:" + n)
                if f2d:
                    b = evaluate(w, f2d, [("k", s), ("k", SIZE[n])])
                    if b is not None:
                        ck.count("table entries")
                        ck.ob(b == {v}, loc(f2d), "the format %r of %s reads back as %s" % (s, n, "/".join(w.names.get(x, "?") for x in b)),
                              ident="fmt-back:" + n)
    # every struct-module code with its platform size
    CODES = {"?": ("boolean", 1), "b": ("int8", 1), "h": ("int16", 2), "i": ("int32", 4), "l": ("int64", 8), "q": ("int64", 8),
             "B": ("uint8", 1), "c": ("uint8", 1), "H": ("uint16", 2), "I": ("uint32", 4), "L": ("uint64", 8), "Q": ("uint64", 8),
             "e": ("float16", 2), "f": ("float32", 4), "d": ("float64", 8), "g": ("float128", 16), "Zf": ("complex64", 8),
             "Zd": ("complex128", 16), "Zg": ("complex256", 32)}
    if f2d:
        for code, (n, size) in sorted(CODES.items()):
            b = evaluate(w, f2d, [("k", code), ("k", size)])
            if b is not None and n in val:
                ck.count("table entries")
                ck.ob(b == {val[n]}, loc(f2d), "the format %r with item size %d is taken for %s, not %s"
                      % (code, size, "/".join(w.names.get(x, "?") for x in b), n), ident="code:" + code)
        for code in ("l", "L"):
            b = evaluate(w, f2d, [("k", code), ("k", 4)])
            n = "int32" if code == "l" else "uint32"
            if b is not None:
                ck.ob(b == {val[n]}, loc(f2d), "the format %r with item size 4 is taken for %s" % (code, "/".join(w.names.get(x, "?") for x in b)),
                      ident="code4:" + code)


# ----------------------------------------------------- constructed arrays
def ctor_params(w, cls, n):
    """parameter names of the constructor of cls with n parameters"""
    key = (cls, n)
    memo = w.__dict__.setdefault("_cp", {})
    if key not in memo:
        memo[key] = None
        for f in w.prog.funcs.values():
            if f.get("ctor") and f.get("cls") == cls and len(f["ps"]) == n and any(p["n"] == "dtype" for p in f["ps"]):
                memo[key] = [p["n"] for p in f["ps"]]
                break
    return memo[key]


def constructions(fn, w):
    """(node, class, {parameter name: argument node}) of typed arrays and forms"""
    out = []
    for x in walk_nolambda(fn["body"]):
        k = x.get("k")
        cls = None
        if k == "ctor":
            cls = (x.get("f") or {}).get("cls")
        elif k == "call":
            f = x.get("f") or {}
            if f.get("q", "").endswith("std::make_shared") or f.get("q", "") == "std::make_shared":
                ta = split_ta(f.get("ta"))
                cls = ta[0] if ta else None
        if cls in ("awkward::NumpyArray", "awkward::NumpyForm") and x.get("c"):
            ps = ctor_params(w, cls, len(x["c"]))
            if ps:
                out.append((x, cls, dict(zip(ps, x["c"]))))
    for i in fn.get("inits") or []:
        e = i.get("init") or i.get("v")
        if isinstance(e, dict) and e.get("k") == "ctor" and (e.get("f") or {}).get("cls") == "awkward::NumpyArray":
            ps = ctor_params(w, "awkward::NumpyArray", len(e["c"]))
            if ps:
                out.append((e, "awkward::NumpyArray", dict(zip(ps, e["c"]))))
    return out


def deconv(n):
    """through conversions that change the static type (shared_ptr<T> -> shared_ptr<void>)"""
    n = strip(n)
    while n["k"] == "ctor" and len(n["c"]) == 1 and "shared_ptr" in (n.get("f") or {}).get("cls", ""):
        n = strip(n["c"][0])
    return n


class Elems:
    """element type held by a shared_ptr-valued expression"""

    def __init__(self, w):
        self.w = w
        self.memo = {}

    def of(self, fn, n, depth=0):
        n = deconv(n)
        t = shared_elem(tstr(n, fn))
        if t is not None and t != "void":
            return {t} if t in ELEM else set()
        if n["k"] == "call" and depth < 6:
            f = n.get("f") or {}
            if f.get("virt"):
                return set()
            g = self.w.prog.callee(n, fn["u"]) if f.get("m") else None
            if g is not None and g.get("body"):
                return self.returns(g, depth + 1)
        if n["k"] == "ref" and depth < 6:
            sd = single_defs(fn)
            if n.get("d") in sd:
                return self.of(fn, sd[n["d"]], depth + 1)
            out = set()
            for x in walk_nolambda(fn["body"]):
                if x.get("k") == "call" and x.get("op") == "=" and strip(x["c"][0]).get("d") == n.get("d") and strip(x["c"][0])["k"] == "ref":
                    out |= self.of(fn, x["c"][1], depth + 1)
            return out
        if n["k"] == "cond":
            return self.of(fn, n["c"][1], depth + 1) | self.of(fn, n["c"][2], depth + 1)
        return set()

    def returns(self, g, depth=0):
        if g["key"] in self.memo:
            return self.memo[g["key"]]
        self.memo[g["key"]] = set()
        out = set()
        for x in walk_nolambda(g["body"]):
            if x.get("k") == "return" and x.get("v"):
                out |= self.of(g, x["v"], depth)
        self.memo[g["key"]] = out
        return out


def const_set(flow, facts, node):
    """exact dtype values of a dtype-valued expression"""
    c = flow.const(node)
    if c is not None:
        return frozenset([c])
    s = flow.canon(node)
    if s in facts.sets:
        return facts.sets[s]
    r = dtype_root(s[:-len(".dtype_")]) + ".dtype_" if s.endswith(".dtype_") else s
    return facts.sets.get(r)


def ok_type(w, t, ds, strict=True):
    for d in ds:
        n = w.names[d]
        want = CT.get(n)
        if want is None:
            return False
        if t == want:
            continue
        if n == "boolean" and t in ("signed char", "unsigned char", "char"):
            continue
        if n in ("uint8", "int8") and t == "char":
            continue
        if n == "complex64" and t == "float" or n == "complex128" and t == "double":
            continue
        return False
    return True


def exact(w, ds):
    """something definite is known about the dtype (a proper subset of all the dtypes)"""
    if ds is None:
        return False
    return len(ds) <= 10 and all(CT.get(w.names[d]) for d in ds)


def short(fn):
    return fn["q"].replace("awkward::", "")


def accesses(ck, w):
    el = Elems(w)
    need = {}            # function key -> [(element type, cast node)] viewed through `this` without a known dtype
    sites = []
    for fn in own_functions(w.prog):
        if not touches(fn):
            continue
        fl = w.flow(fn)
        cons = constructions(fn, w)
        # buffers that become arrays here: pointer expression -> dtype expressions
        bufs = {}
        for node, cls, a in cons:
            if "ptr" in a and "dtype" in a:
                bufs.setdefault(fl.canon(a["ptr"]), set()).add(id(a["dtype"]))
                bufs.setdefault(("n", fl.canon(a["ptr"])), []).append(a["dtype"])
        seen = set()
        for node, facts in fl.nodes():
            for x in walk_nolambda(node.ast):
                k = x.get("k")
                if k == "cast" and x.get("s") in ("CXXReinterpretCastExpr", "CStyleCastExpr"):
                    t = elem_of_ptr(tstr(x, fn))
                    if t is None or id(x) in seen:
                        continue
                    seen.add(id(x))
                    src = fl.canon(x["c"][0])
                    o = owner(src)
                    ds = None
                    if o is not None and is_numpy(o, x, fn):
                        r = dtype_root(o)
                        ds = facts.sets.get(o + ".dtype_") or facts.sets.get(r + ".dtype_")
                        ck.count("typed views of array buffers")
                        if ds is None or not exact(w, ds):
                            if r == "this" and t != "char":
                                need.setdefault(fn["key"], []).append((t, x))
                            continue
                    elif ("n", src) in bufs and len(bufs[src]) >= 1:
                        exprs = bufs[("n", src)]
                        ds = None
                        for e in exprs:
                            d1 = const_set(fl, facts, e)
                            if d1 is None:
                                ds = None
                                break
                            ds = d1 if ds is None else ds | d1
                        if ds is None or not exact(w, ds):
                            continue
                        ck.count("typed views of new buffers")
                    else:
                        continue
                    ck.ob(ok_type(w, t, ds), loc(fn, x), "%s: a buffer of %s is accessed as %s" % (short(fn), w.name(ds), t),
                          ident="view:%s:%s:%s" % (short(fn), w.name(ds), t))
                elif k == "call":
                    f = x.get("f") or {}
                    # assignment of a typed buffer to a pointer that becomes an array
                    if x.get("op") == "=" and "shared_ptr<void>" in tstr(strip(x["c"][0]), fn):
                        dst = fl.canon(x["c"][0])
                        exprs = bufs.get(("n", dst))
                        if exprs:
                            ts = el.of(fn, x["c"][1])
                            ds = None
                            for e in exprs:
                                d1 = const_set(fl, facts, e)
                                ds = d1 if ds is None or d1 is None else ds | d1
                                if d1 is None:
                                    break
                            if ts and ds is not None and exact(w, ds):
                                ck.count("typed buffers that become arrays")
                                ck.ob(all(ok_type(w, t, ds) for t in ts), loc(fn, x), "%s: a buffer of %s elements becomes an array of %s"
                                      % (short(fn), "/".join(sorted(ts)), w.name(ds)), ident="buf:%s:%s" % (short(fn), w.name(ds)))
                    if f.get("ta") and not x.get("op"):
                        sites.append((fn, fl, facts, x))
        for node, cls, a in cons:
            construction(ck, w, el, fn, fl, node, cls, a)
    templates(ck, w, sites)
    requirements(ck, w, need)


def is_numpy(o, cast, fn):
    """the owner expression denotes a NumpyArray"""
    n = strip(cast["c"][0])
    for _ in range(8):
        if n["k"] == "call":
            f = n.get("f") or {}
            if f.get("cls") == "awkward::NumpyArray":
                return True
            n = strip(n["obj"]) if n.get("obj") else (strip(n["c"][0]) if n.get("c") else {"k": "?"})
        elif n["k"] == "mem":
            return n.get("q", "").startswith("awkward::NumpyArray::")
        elif n["k"] in ("bin", "un") and n.get("c"):
            n = strip(n["c"][0])
        elif n["k"] == "ref":
            sd = single_defs(fn)
            if n.get("d") in sd:
                n = strip(sd[n["d"]])
            else:
                return False
        else:
            return False
    return False


def templates(ck, w, sites):
    """explicit or deduced element types of template calls made for one element type"""
    seen = set()
    for fn, fl, facts, x in sites:
        ts = [t for t in split_ta((x["f"]).get("ta")) if t in ELEM]
        if not ts or id(x) in seen:
            continue
        if x["f"].get("cls") != "awkward::NumpyArray" and not x["f"].get("q", "").startswith("awkward::kernel::"):
            continue
        own = own_types(fn)
        ts = [t for t in ts if t not in own]
        if not ts:
            continue
        ex = {s: ds for s, ds in facts.sets.items() if exact(w, ds) and fl.universe(s, None if s.endswith("dtype_") else DT) and is_dtype_subject(fl, s)}
        if not ex:
            continue
        seen.add(id(x))
        ck.count("template calls made for one element type")
        ok = any(ok_type(w, t, ds) for t in ts for ds in ex.values())
        ck.ob(ok, loc(fn, x), "%s: in the branch for %s, %s is used with %s" % (
            short(fn), ", ".join("%s=%s" % (s, w.name(d)) for s, d in sorted(ex.items())), x["f"]["q"].split("::")[-1], ", ".join(ts)),
            ident="tmpl:%s:%s:%s" % (short(fn), x["f"]["q"].split("::")[-1], "/".join(w.name(d) for d in ex.values())))


_MANGLED = {"b": "bool", "a": "signed char", "s": "short", "i": "int", "l": "long", "h": "unsigned char", "t": "unsigned short",
            "j": "unsigned int", "m": "unsigned long", "f": "float", "d": "double"}


def own_types(fn):
    """element types the function itself was instantiated for"""
    k = fn.get("key", "")
    out = set()
    for m in re.finditer(r"I((?:[basilhtjmfd]|St7complexI[fd]E)+)E", k):
        for p in re.findall(r"St7complexI[fd]E|[basilhtjmfd]", m.group(1)):
            out.add(_MANGLED[p] if p in _MANGLED else "std::complex<%s>" % _MANGLED[p[-2]])
    return out


def is_dtype_subject(fl, s):
    if s.endswith("dtype_"):
        return True
    return s in dtype_vars(fl)


def dtype_vars(fl):
    if not hasattr(fl, "_dv"):
        fl._dv = set()
        fn = fl.fn
        for i, p in enumerate(fn["ps"]):
            if re.sub(r"\bconst\b|&", "", fn["u"].types[p["t"]]).strip() == DT:
                fl._dv.add(fl.canon.par[p["d"]])
        for x in walk_nolambda(fn["body"]):
            if x.get("k") == "decl":
                for v in x["v"]:
                    if re.sub(r"\bconst\b|&", "", fn["u"].types[v["t"]]).strip() == DT:
                        fl._dv.add("v%s:%s" % (v["d"], v["n"]))
    return fl._dv


def requirements(ck, w, need):
    """a function that views its own array's buffer as T must only be called when the dtype is T's"""
    byname = {}
    for fn in own_functions(w.prog):
        for x in walk_nolambda(fn["body"]):
            if x.get("k") == "call" and (x.get("f") or {}).get("m") in need:
                byname.setdefault(x["f"]["m"], []).append((fn, x))
    done = set()
    work = list(need)
    while work:
        k = work.pop()
        if k in done:
            continue
        done.add(k)
        g = w.prog.funcs[k] if k in w.prog.funcs else None
        if g is None:
            continue
        ts = {t for t, _ in need[k]}
        if len(ts) != 1:
            continue
        t = list(ts)[0]
        for fn, x in byname.get(k, []):
            if fn["key"] == k:
                continue
            fl = w.flow(fn)
            o = fl.canon(x["obj"]) if x.get("obj") else None
            if o is None:
                continue
            for node, facts in fl.nodes():
                if any(y is x for y in walk_nolambda(node.ast)):
                    ds = facts.sets.get(o + ".dtype_") or facts.sets.get(dtype_root(o) + ".dtype_")
                    if ds is not None and exact(w, ds):
                        ck.count("calls of typed helpers")
                        ck.ob(ok_type(w, t, ds), loc(fn, x), "%s: an array of %s is handed to %s, which reads it as %s"
                              % (short(fn), w.name(ds), g["q"].split("::")[-1], t), ident="helper:%s:%s:%s" % (short(fn), w.name(ds), t))
                    break


def construction(ck, w, el, fn, fl, node, cls, a):
    facts = Facts()
    for n, f in fl.nodes():
        if any(y is node for y in walk_nolambda(n.ast)):
            facts = f
            break
    ck.count("typed arrays and forms constructed")
    name = cls.split("::")[-1]
    ds = const_set(fl, facts, a["dtype"])
    cd = fl.canon(a["dtype"])
    # buffer element type
    if "ptr" in a:
        n = deconv(a["ptr"])
        t = shared_elem(tstr(n, fn))
        if t is not None and t != "void" and t in ELEM and ds is not None and exact(w, ds):
            ck.count("construction agreements")
            ck.ob(ok_type(w, t, ds), loc(fn, node), "%s: an array of %s is made from a buffer of %s" % (short(fn), w.name(ds), t),
                  ident="make:%s:%s:%s" % (short(fn), w.name(ds), t))
    # item size
    if "itemsize" in a:
        i = a["itemsize"]
        c = size_const(fl, i)
        ci = fl.canon(i)
        if c is not None and ds is not None and len(ds) == 1:
            n = w.names[list(ds)[0]]
            if n in SIZE:
                ck.count("construction agreements")
                ck.ob(SIZE[n] == c, loc(fn, node), "%s: the item size of a %s of %s is given as %d" % (short(fn), name, n, c), ident="isize:%s:%s" % (short(fn), n))
        else:
            agree(ck, w, fn, fl, node, name, "item size", cd, i, "itemsize_", "dtype_to_itemsize", ds, facts)
    if "format" in a:
        f = strip(a["format"])
        while f["k"] == "ctor" and len(f["c"]) >= 1:
            f = strip(f["c"][0])
        if f["k"] == "str" and ds is not None and len(ds) == 1:
            fm = util_fn(w, "format_to_dtype")
            n = w.names[list(ds)[0]]
            if fm and n in SIZE:
                b = evaluate(w, fm, [("k", f["v"]), ("k", SIZE[n])])
                if b is not None and len(b) == 1:
                    ck.count("construction agreements")
                    ck.ob(b == set(ds), loc(fn, node), "%s: the format of a %s of %s is given as %r" % (short(fn), name, n, f["v"]), ident="ifmt:%s:%s" % (short(fn), n))
        else:
            agree(ck, w, fn, fl, node, name, "format", cd, a["format"], "format_", "dtype_to_format", ds, facts)


def size_const(fl, n):
    n = strip(n)
    if n["k"] == "int":
        return n["v"]
    if n["k"] in ("sizeof", "sizeof_"):
        return n.get("v")
    if n["k"] == "ref" and n.get("d") in fl.canon.sd:
        return size_const(fl, fl.canon.sd[n["d"]])
    return None


def through(fl, n):
    n = strip(n)
    for _ in range(6):
        if n["k"] == "ref" and n.get("d") in fl.canon.sd:
            n = strip(fl.canon.sd[n["d"]])
        elif n["k"] == "ctor" and len(n["c"]) == 1:
            n = strip(n["c"][0])
        else:
            break
    return n


def source_of(fl, node, field, table):
    """what a dtype / format / item size expression is derived from"""
    n = through(fl, node)
    c = fl.canon(n)
    if n["k"] == "call" and (n.get("f") or {}).get("q", "").split("::")[-1] == table and n["c"]:
        s = fl.canon(n["c"][0])
        return "obj:" + dtype_root(s[:-len(".dtype_")]) if s.endswith(".dtype_") else "expr:" + s
    if c.endswith("." + field):
        return "obj:" + dtype_root(c[:-len(field) - 1])
    return None


def agree(ck, w, fn, fl, node, name, what, cd, cx, field, table, ds, facts):
    sx = source_of(fl, cx, field, table)
    cxnode = cx
    cx = fl.canon(cx)
    sd = "obj:" + dtype_root(cd[:-len(".dtype_")]) if cd.endswith(".dtype_") else "expr:" + cd
    if sx is None:
        return
    if sx.startswith("expr:") and sd.startswith("expr:"):
        ok = sx == sd
        # equal constants
        try:
            if ds is not None and len(ds) == 1 and re.fullmatch(r"\d+", sx[5:]):
                ok = int(sx[5:]) in ds
        except ValueError:
            pass
        if sx[5:] in facts.sets and ds is not None:
            ok = ok or facts.sets[sx[5:]] == ds
    elif sx.startswith("obj:") and sd.startswith("obj:"):
        ok = sx == sd
    elif sx.startswith("obj:") and sd.startswith("expr:"):
        n = through(fl, cxnode)
        if not (n["k"] == "call" and (n.get("f") or {}).get("q", "").split("::")[-1] == table):
            return
        ca = fl.canon(n["c"][0])
        ok = ca == cd or (ds is not None and facts.sets.get(ca) == ds and len(ds) == 1) or possibly_same(fl, cd, ca)
    else:
        return
    ck.count("construction agreements")
    ck.ob(ok, loc(fn, node), "%s: a %s takes its type from %s but its %s from %s" % (short(fn), name, cd, what, cx),
          ident="agree:%s:%s" % (short(fn), what))


def possibly_same(fl, a, b):
    """whether the dtype expression a may be a copy of b (a variable with several definitions)"""
    m = re.match(r"[pv](\d+):", a)
    return bool(m) and "(" not in a


# ----------------------------------------------------- allocation of items
def allocations(ck, w):
    """a buffer of T holding n items is allocated with n times the size of T"""
    for fn in own_functions(w.prog):
        for x in walk_nolambda(fn["body"]):
            f = x.get("f") or {}
            if x.get("k") != "call" or f.get("q") not in ("awkward::kernel::malloc",) or len(x["c"]) != 2:
                continue
            t = norm((split_ta(f.get("ta")) or [""])[0])
            if t not in CSIZE:
                continue
            arg = through(w.flow(fn), x["c"][1])
            sz = [y["v"] for y in walk_nolambda(arg) if y.get("k") == "sizeof" and "v" in y]
            if not sz:
                continue
            p = 1
            for v in sz:
                p *= v
            ck.count("typed allocations")
            ck.ob(p == CSIZE[t], loc(fn, x), "%s allocates items of %s (%d bytes each) with %d bytes for each" % (short(fn), t, CSIZE[t], p),
                  ident="alloc:%s:%s" % (short(fn), t))


# ------------------------------------------------- neutral elements
def neutral(ck, w):
    """the value a minimum or maximum starts from is neutral for the type"""
    for fn in own_functions(w.prog):
        for x in walk_nolambda(fn["body"]):
            f = x.get("f") or {}
            q = f.get("q", "").split("::")[-1]
            if x.get("k") != "call" or not re.match(r"reduce_(min|max)\w*_64$", q) or not f.get("q", "").startswith("awkward::kernel"):
                continue
            ts = [norm(t) for t in split_ta(f.get("ta"))]
            if not ts:
                continue
            t = {"std::complex<float>": "float", "std::complex<double>": "double"}.get(ts[0], ts[0])
            ismin = "min" in q
            for v in values_of(fn, x["c"][-1]):
                neg = False
                while True:
                    v = strip(v)
                    if v.get("k") == "un" and v.get("op") == "-":
                        neg = not neg
                        v = v["c"][0]
                    elif v.get("k") in ("cast", "icast", "paren") and v.get("c"):
                        v = v["c"][0]
                    else:
                        break
                if v.get("k") == "mem" and re.match(r"initial_(u64|i64|f64)_$", v.get("n", "")):
                    kind = {"f": "f64", "d": "f64", "u": "u64"}.get(t[0], "i64")
                    ck.count("neutral elements")
                    ck.ob(v["n"][8:11] == kind, loc(fn, x), "%s starts from the initial value kept as %s for a %s" % (short(fn), v["n"], t),
                          ident="initial:%s" % short(fn))
                    continue
                g = v.get("f") or {}
                m = re.match(r"std::numeric_limits<(.*)>$", g.get("cls") or "") if v.get("k") == "call" else None
                what = g.get("q", "").split("::")[-1]
                if not m or what not in ("max", "min", "lowest", "infinity"):
                    continue
                lt = norm(m.group(1))
                if t in ("float", "double"):
                    ok = what == "infinity" and neg == (not ismin)
                else:
                    ok = lt == t and not neg and (what == "max" if ismin else what in ("min", "lowest"))
                ck.count("neutral elements")
                ck.ob(ok, loc(fn, x), "%s starts a %s of %s from %snumeric_limits<%s>::%s()" % (short(fn), "minimum" if ismin else "maximum", t, "-" if neg else "", lt, what),
                      ident="neutral:%s" % short(fn))


def values_of(fn, n, depth=0):
    """the expressions a local variable may hold"""
    n = strip(n)
    while n.get("k") in ("cast", "icast", "paren") and n.get("c"):
        n = strip(n["c"][0])
    if n.get("k") == "cond" and len(n["c"]) == 3:
        return values_of(fn, n["c"][1], depth + 1) + values_of(fn, n["c"][2], depth + 1)
    if n.get("k") == "ctor" and len(n["c"]) == 1:
        return values_of(fn, n["c"][0], depth)
    if n.get("k") != "ref" or n.get("dk") == "enum" or depth > 5:
        return [n]
    out = []
    for x in walk_nolambda(fn["body"]):
        if x.get("k") == "decl":
            for v in x["v"]:
                if v["d"] == n["d"] and v.get("init"):
                    out += values_of(fn, v["init"], depth + 1)
        elif x.get("k") == "bin" and x["op"] == "=":
            t = strip(x["c"][0])
            if t["k"] == "ref" and t.get("d") == n["d"]:
                out += values_of(fn, x["c"][1], depth + 1)
    return out


# ------------------------------------------------------------- reducers
def find_method(w, cls, name):
    seen = set()
    while cls and cls not in seen:
        seen.add(cls)
        for f in w.prog.funcs.values():
            if f.get("cls") == cls and f["q"].split("::")[-1] == name and f.get("body"):
                return f
        b = (w.prog.recs.get(cls) or {}).get("bases") or []
        cls = b[0] if b and isinstance(b[0], str) else None
    return None


def reducer_methods(w):
    """dtype -> name of the method every reducer is asked to apply"""
    out = {}
    for fn in own_functions(w.prog):
        if not any(x.get("k") == "call" and "Reducer" in (x.get("f") or {}).get("cls", "") for x in walk_nolambda(fn["body"])):
            continue
        if "Reducer" in fn["q"]:
            continue
        fl = w.flow(fn)
        for node, facts in fl.nodes():
            for x in walk_nolambda(node.ast):
                f = x.get("f") or {}
                if x.get("k") == "call" and f.get("cls") == "awkward::Reducer" and f["q"].split("::")[-1].startswith("apply_"):
                    ds = facts.sets.get("this.dtype_")
                    if ds and len(ds) == 1:
                        out.setdefault(list(ds)[0], set()).add((f["q"].split("::")[-1], fn["path"], x["l"]))
    return out


def apply_elems(w, el, cls, name, depth=0):
    """(element types of the returned buffer, whether it always raises)"""
    f = find_method(w, cls, name)
    if f is None:
        return None, None
    if w.nr.func(f):
        return set(), f
    out = set()
    for x in walk_nolambda(f["body"]):
        if x.get("k") == "return" and x.get("v"):
            v = deconv(x["v"])
            if v["k"] == "call" and (v.get("f") or {}).get("q", "").split("::")[-1].startswith("apply_") and depth < 4:
                o = strip(v["obj"]) if v.get("obj") else None
                if o is not None and o["k"] == "this":
                    s, _ = apply_elems(w, el, cls, v["f"]["q"].split("::")[-1], depth + 1)
                    out |= s or set()
                    continue
            out |= el.of(f, x["v"])
    return out, f


class ReducerHooks(TableHooks):
    def inline(self, g, name, obj, args):
        return True


def reducers(ck, w):
    el = Elems(w)
    ms = reducer_methods(w)
    val = {n: v for v, n in w.names.items()}
    subs = sorted({f["cls"] for f in w.prog.funcs.values() if f.get("cls", "") and f["q"].endswith("::apply_int64")
                   and f["cls"] != "awkward::Reducer" and f.get("body")})
    for cls in subs:
        rd = find_method(w, cls, "return_dtype")
        for d in sorted(ms):
            for name, path, line in sorted(ms[d]):
                ts, f = apply_elems(w, el, cls, name)
                if not ts or rd is None:
                    continue
                try:
                    r = consts_of(Mini(w.prog, ReducerHooks(), maxpaths=200).run(rd, None, [("k", d)]))
                except Exception:
                    r = None
                if r is None or len(r) != 1:
                    ck.count("reducer results not understood")
                    continue
                out = w.names.get(list(r)[0], "?")
                ck.count("reducer results")
                ck.ob(all(ok_type(w, t, r) for t in ts), loc(f), "%s of %s is declared to give %s but computes a buffer of %s"
                      % (cls.split("::")[-1], w.names[d], out, "/".join(sorted(ts))), ident="reduce:%s:%s" % (cls.split("::")[-1], w.names[d]))
                # the input type
                p = norm((elem_of_ptr(f["u"].types[f["ps"][0]["t"]]) or "") if f["ps"] else "")
                if p:
                    ck.ob(ok_type(w, p, [d]), loc(f), "%s reads %s through a pointer to %s" % (cls.split("::")[-1], w.names[d], p),
                          ident="reduce-in:%s:%s" % (cls.split("::")[-1], w.names[d]))
    return len(subs)


# --------------------------------------------------------- sibling branches
def siblings(ck, w):
    """calls of the same function in the branches of one type switch get the same arguments"""
    for fn in own_functions(w.prog):
        if not any(x.get("k") == "switch" for x in walk_nolambda(fn["body"])):
            continue
        fl = w.flow(fn)
        for sw in walk_nolambda(fn["body"]):
            if sw.get("k") != "switch":
                continue
            subj = fl.canon(sw["cond"])
            if not (subj.endswith("dtype_") or subj in dtype_vars(fl)):
                continue
            groups = {}
            for ival, body in branches(sw):
                for st in body:
                    for x in walk_nolambda(st):
                        if x.get("k") == "call" and not x.get("op") and (x.get("f") or {}).get("q"):
                            q = x["f"]["q"]
                            if q.startswith("std::") or len(x["c"]) < 2:
                                continue
                            base = re.sub(r"apply_\w+$", "apply", q)
                            groups.setdefault((base, len(x["c"])), []).append((ival, x))
                    if any(x.get("k") == "switch" for x in walk_nolambda(st)):
                        break
            for (q, n), calls in sorted(groups.items(), key=lambda kv: kv[0]):
                if len({i for i, _ in calls}) < 4:
                    continue
                for pos in range(n):
                    by = {}
                    for i, x in calls:
                        by.setdefault(arg_form(fl, x["c"][pos]), []).append((i, x))
                    ck.count("argument positions compared across type branches")
                    top = max(by.values(), key=len)
                    if len(by) == 1:
                        ck.ob(True, loc(fn, calls[0][1]), "", ident=None)
                        continue
                    if len(top) < 0.75 * len(calls):
                        ck.count("argument positions that legitimately vary")
                        continue
                    for form, xs in by.items():
                        if xs is top:
                            continue
                        for i, x in xs:
                            ck.ob(False, loc(fn, x), "%s: the branch for %s passes %s to %s where the other types pass %s" % (
                                short(fn), w.names.get(i, i), form, q.split("::")[-1], arg_form(fl, top[0][1]["c"][pos])),
                                ident="sib:%s:%s:%s:%d" % (short(fn), q.split("::")[-1], w.names.get(i, i), pos))


def arg_form(fl, n):
    c = fl.canon(n)
    c = re.sub(r"sizeof\(\w*\)", "sizeof", c)
    return c


def branches(sw):
    """(label, [statements]) of a switch"""
    out = []
    cur = None
    def add(n):
        nonlocal cur
        while n is not None and n["k"] in ("case", "default"):
            cur = (n.get("ival") if n["k"] == "case" else None, [])
            if cur[0] is not None:
                out.append(cur)
            n = n.get("body")
        if n is not None and cur is not None:
            cur[1].append(n)
    b = sw["body"]
    for s in b["c"] if b["k"] == "block" else [b]:
        add(s)
    return out


# ------------------------------------------------------------- promotion
def promote(a, b):
    """NumPy's result type"""
    if a == b:
        return a
    if a == "boolean":
        return b
    if b == "boolean":
        return a
    def kind(n):
        return "u" if n.startswith("uint") else "i" if n.startswith("int") else "f" if n.startswith("float") else "c"
    ka, kb = kind(a), kind(b)
    if "c" in (ka, kb):
        def need(n, k):
            if k == "c":
                return SIZE[n]
            if k == "f":
                return {2: 8, 4: 8, 8: 16, 16: 32}[SIZE[n]]
            return 8 if SIZE[n] <= 2 else 16
        return {8: "complex64", 16: "complex128", 32: "complex256"}[max(need(a, ka), need(b, kb))]
    if "f" in (ka, kb):
        def need(n, k):
            return SIZE[n] if k == "f" else {1: 2, 2: 4, 4: 8, 8: 8}[SIZE[n]]
        return {2: "float16", 4: "float32", 8: "float64", 16: "float128"}[max(need(a, ka), need(b, kb))]
    if ka == kb:
        return a if SIZE[a] >= SIZE[b] else b
    s, u = (a, b) if ka == "i" else (b, a)
    if SIZE[s] > SIZE[u]:
        return s
    if SIZE[u] == 8:
        return "float64"
    return "int%d" % (SIZE[u] * 16)


class PromoteHooks(TableHooks):
    def __init__(self, that):
        self.that = that

    def call(self, m, node, fr, name, obj, args, st):
        n = name.split("::")[-1]
        if n == "dtype" and obj is not None and not args:
            return ("k", self.that)
        return TableHooks.call(self, m, node, fr, name, obj, args, st)

    def field(self, base, name, st):
        return None

    def inline(self, g, name, obj, args):
        t = g["u"].types[g["rt"]] if g.get("rt") is not None else ""
        return g["path"].endswith(("/util.cpp", "/util.h")) or re.sub(r"\bconst\b|&", "", t).strip() == DT


def promotion(ck, w):
    """merging two primitive types gives the type NumPy gives"""
    val = {n: v for v, n in w.names.items()}
    prim = [n for n in SIZE if n in val and n not in ("datetime64", "timedelta64")]
    done = 0
    for fn in own_functions(w.prog):
        if fn["q"] != "awkward::NumpyArray::mergemany":
            continue
        fl = w.flow(fn)
        for loop in walk_nolambda(fn["body"]):
            if loop.get("k") not in ("rfor", "for"):
                continue
            # a dtype variable declared outside that the loop updates
            inner = {v["d"] for x in walk_nolambda(loop["body"]) if x.get("k") == "decl" for v in x["v"]}
            targets = set()
            for x in walk_nolambda(loop["body"]):
                if x.get("k") == "bin" and x["op"] == "=":
                    t = strip(x["c"][0])
                    if t["k"] == "ref" and t.get("d") not in inner and re.sub(r"\bconst\b|&", "", tstr(t, fn)).strip() == DT:
                        targets.add(t["d"])
            if len(targets) != 1:
                continue
            d = targets.pop()
            var = [v for v in dtype_vars(fl) if v.startswith("v%s:" % d)]
            if not var:
                continue
            results = {}
            for a in prim:
                for b in prim:
                    r = run_body(w, fn, loop, d, val[a], val[b])
                    if r is not None and len(r) == 1:
                        results[(a, b)] = w.names.get(list(r)[0], "?")
            if len(results) < 100:
                ck.count("promotion loops not understood")
                continue
            done += 1
            for (a, b), r in sorted(results.items()):
                ck.count("pairs of types merged")
                ck.ob(r == promote(a, b), loc(fn, loop), "merging %s with %s gives %s instead of %s" % (a, b, r, promote(a, b)),
                      ident="promote:%s:%s" % (a, b))
    return done


def run_body(w, fn, loop, d, a, b):
    m = Mini(w.prog, PromoteHooks(b), maxpaths=500)
    fr = m.frame(fn, ("this",))
    st = St()
    try:
        st.env[(fr.n, d)] = ("k", a)
        out = set()
        for r in m.block(fr, loop["body"], [st]):
            s = r[1] if isinstance(r, tuple) and not isinstance(r, St) and len(r) > 1 and isinstance(r[1], St) else r
            if isinstance(r, tuple):
                s = [y for y in r if isinstance(y, St)][0]
            v = s.env.get((fr.n, d))
            if v is None or v[0] != "k":
                return None
            out.add(v[1])
        return out
    except Exception:
        return None


# ---------------------------------------------- tables kept by other parts
NPCODE = {"boolean": ("bool", "?", "b1"), "int8": ("i1", "b"), "int16": ("i2", "h"), "int32": ("i4",), "int64": ("i8",), "uint8": ("u1",),
          "uint16": ("u2",), "uint32": ("u4",), "uint64": ("u8",), "float16": ("f2",), "float32": ("f4",), "float64": ("f8",),
          "float128": ("f16",), "complex64": ("c8",), "complex128": ("c16",), "complex256": ("c32",), "datetime64": ("M8",),
          "timedelta64": ("m8",)}
NPALL = {c for cs in NPCODE.values() for c in cs if len(c) > 1} | {"?"}
DLKIND = {"kDLInt": "i", "kDLUInt": "u", "kDLFloat": "f", "kDLBfloat": "bf"}


def literal(n):
    n = deconv(strip(n))
    while n is not None and n.get("k") in ("ctor", "icast", "cast", "init", "tmp", "paren") and n.get("c"):
        n = strip(n["c"][0])
    if n is not None and n.get("k") == "str":
        return n.get("v")
    return None


def numpy_codes(ck, w):
    """NumPy type codes chosen for a dtype"""
    for fn in own_functions(w.prog):
        if not any(x.get("k") == "str" and x.get("v") in NPALL for x in walk_nolambda(fn["body"])):
            continue
        if not any(x.get("k") == "ref" and x.get("dk") == "enum" and x.get("q", "").startswith(DT + "::") for x in walk_nolambda(fn["body"])):
            continue
        fl = w.flow(fn)
        for node, facts in fl.nodes():
            x = node.ast
            lits = []
            if x.get("k") == "return" and x.get("v"):
                lits.append(literal(x["v"]))
            elif x.get("k") == "call" and x.get("op") == "=" and len(x["c"]) == 2:
                lits.append(literal(x["c"][1]))
            elif x.get("k") == "call" and x.get("op") in ("=", 1) and x.get("c"):
                lits.append(literal(x["c"][-1]))
            for s in lits:
                if s not in NPALL:
                    continue
                for c, ds in facts.sets.items():
                    if not is_dtype_subject(fl, c) or len(ds) > 3:
                        continue
                    ck.count("NumPy type codes")
                    bad = [w.names[d] for d in sorted(ds) if w.names[d] in NPCODE and s not in NPCODE[w.names[d]]]
                    ck.ob(not bad, loc(fn, x), "%s gives %s the NumPy type code %r" % (short(fn), "/".join(bad), s), ident="npcode:%s:%s" % (short(fn), "/".join(bad)))


def dlpack(ck, w):
    """the DLPack type of every dtype"""
    for fn in own_functions(w.prog):
        rt = fn["u"].types[fn["rt"]] if fn.get("rt") is not None else ""
        if "DLDataType" not in rt:
            continue
        fl = w.flow(fn)
        for node, facts in fl.nodes():
            x = node.ast
            if x.get("k") != "return" or not x.get("v"):
                continue
            vals = []
            for y in walk_nolambda(x["v"]):
                if y.get("k") == "ref" and y.get("dk") == "enum" and y.get("n") in DLKIND:
                    vals.append(DLKIND[y["n"]])
                elif y.get("k") == "int":
                    vals.append(int(y["v"]))
            if len(vals) != 3 or not isinstance(vals[0], str):
                continue
            for c, ds in facts.sets.items():
                if not is_dtype_subject(fl, c) or len(ds) > 4:
                    continue
                for d in sorted(ds):
                    n = w.names[d]
                    if n not in SIZE:
                        continue
                    k = {"i": "i", "u": "u", "f": "f", "b": "u", "c": "c", "d": "i", "t": "i"}[n[0]]
                    ck.count("DLPack types")
                    ck.ob(vals[0] == k and vals[1] == 8 * SIZE[n] and vals[2] == 1, loc(fn, x),
                          "%s is exported through DLPack as %s%d with %d lanes" % (n, vals[0], vals[1], vals[2]), ident="dlpack:" + n)


class BuilderHooks(TableHooks):
    def call(self, m, node, fr, name, obj, args, st):
        if name in ("std::to_string", "to_string") and args:
            a = deref(args[0])
            if a is not None and a[0] == "k":
                return ("k", str(a[1]))
        return TableHooks.call(self, m, node, fr, name, obj, args, st)

    def inline(self, g, name, obj, args):
        return True


def builder_tables(ck, w):
    """the codes LayoutBuilder generates its Forth program from"""
    val = {n: v for v, n in w.names.items()}
    def fnd(q):
        c = [f for f in w.prog.funcs.values() if f["q"] == q and f.get("body")]
        return c[0] if c else None
    def ev(f, v):
        try:
            r = consts_of(Mini(w.prog, BuilderHooks(), maxpaths=200).run(f, None, [("k", v)]))
        except Exception:
            return None
        return list(r)[0] if r is not None and len(r) == 1 else None
    CODE = {"boolean": "?", "int8": "b", "int16": "h", "int32": "i", "int64": "q", "uint8": "B", "uint16": "H", "uint32": "I",
            "uint64": "Q", "float32": "f", "float64": "d"}
    f = fnd("awkward::dtype_to_vm_format")
    if f:
        for n, c in sorted(CODE.items()):
            r = ev(f, val[n])
            if r is not None:
                ck.count("layout builder codes")
                ck.ob(r.strip() == c or (r.strip(), c) in (("l", "q"), ("L", "Q")), loc(f), "LayoutBuilder reads %s items with the Forth code %r" % (n, r), ident="vm:" + n)
    states = dict(w.prog.enums.get("awkward::state", {}).get("v", []))
    f = fnd("awkward::dtype_to_state")
    if f and states:
        seen = {}
        for n in sorted(CODE) + ["complex64", "complex128"]:
            r = ev(f, val[n])
            if r is not None and n in states:
                ck.count("layout builder codes")
                ck.ob(r.strip() == str(states[n]), loc(f), "LayoutBuilder announces a value of %s with state %s, which is not the state named %s (%s)"
                      % (n, r, n, states[n]), ident="state:" + n)
                seen.setdefault(r, []).append(n)
    forms = dict(w.prog.enums.get("awkward::Index::Form", {}).get("v", []))
    NM = {"i8": ("int8", "b"), "u8": ("uint8", "B"), "i32": ("int32", "i"), "u32": ("uint32", "I"), "i64": ("int64", "q")}
    for q, i in (("awkward::index_form_to_name", 0), ("awkward::index_form_to_vm_format", 1)):
        f = fnd(q)
        if not f:
            continue
        for k, v in sorted(forms.items()):
            if k in NM:
                r = ev(f, v)
                if r is not None:
                    ck.count("layout builder codes")
                    ck.ob(r.strip() == NM[k][i] or (r.strip(), NM[k][i]) == ("l", "q"), loc(f), "LayoutBuilder calls an index of %s %r" % (NM[k][0], r),
                          ident="index-form:%s:%d" % (k, i))


def run():
    ck = Check("C10", "typestate dataflow of dtype facts over the CFG of the type-checked program, exhaustive evaluation of the type tables",
               "every typed view of a buffer, template instantiation, kernel and reducer choice under a known dtype uses that dtype's "
               "C++ type; constructed arrays take item size, format and dtype from the same type; the branches of one type switch "
               "pass the same arguments; name, format, size, kind, promotion, DLPack, NumPy and Forth code tables agree for every dtype")
    w = World()
    tables(ck, w)
    accesses(ck, w)
    allocations(ck, w)
    neutral(ck, w)
    n = reducers(ck, w)
    siblings(ck, w)
    p = promotion(ck, w)
    numpy_codes(ck, w)
    dlpack(ck, w)
    builder_tables(ck, w)
    ck.floor("table entries", ck.cov.get("table entries", 0), 100)
    ck.floor("reducers", n, 5)
    ck.assumptions += ["LP64 data model (long is 64 bits) as in this build", "float16, float128 and complex256 have no C++ element type here and must not be read through one"]
    return ck.finish()
