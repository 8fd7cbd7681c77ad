"""C14: virtual arrays are checked against what they declare, and their slices, copies and holders keep the generator and
the cache they belong to.

The functions of ArrayGenerator, SliceGenerator, PyArrayGenerator, VirtualArray and PyArrayCache are interpreted path by
path (vlib/mini.py).  (1) generate() is called by generate_and_check() alone; every path of generate_and_check that
returns has established that the declared length (if any) does not exceed the generated one and that the declared form
(if any) equals the generated form, and returns the generated array; without a declared form the generated one is
recorded.  (2) VirtualArray::array() returns the cache entry of its own key if there is one and the checked array
otherwise, and stores exactly what it returns under that key; peek_array() only reads that entry.  (3) Every operation of
a VirtualArray is the same operation with the same arguments on array() (or on a non-null peek_array()), or a new
VirtualArray whose generator slices a copy of this one by exactly the requested item, with the length and form that slice
has; a copy keeps generator, cache and key.  Depths remembered for unmaterialised arrays are written and read in the same
order.  (4) SliceGenerator and PyArrayGenerator generate from their own content, slice, callable and arguments, and
with_* / shallow_copy change only what they name.  (5) Caches are held weakly, so every holder collects them: caches() of
every node class visits every child, records are given the caches of their fields, the bindings list all of them, and
every assignment of a layout in the high-level classes is followed by find_caches of that layout.
"""
import ast
from vlib.core import *
from vlib.mini import *
from vlib.mini import short
from checks import C08
from checks.C16 import THIS, fld, poly, same, known, has, ge, gt, equal, nm, ln, Hk, fam

GEN, CACHE, KEY = fld("generator_"), fld("cache_"), fld("cache_key_")
VA, AG = "awkward::VirtualArray", "awkward::ArrayGenerator"
LAZY = {"getitem_range_nowrap", "getitem_field", "getitem_fields", "carry", "getitem"}
SELF = {"getitem_at_nowrap", "getitem_range_nowrap", "getitem_field", "getitem_fields", "shallow_copy"}
STOP14 = {"generate", "generate_and_check", "form", "forward_parameters", "purelist_parameter", "add_to_cache_depths", "length", "get", "set", "mutablemapping"}


def cname(t):
    return nm(t)


def isnull(facts, t, want):
    """the path knows that pointer t is (want) null"""
    for f, b in facts.items():
        while f[0] == "op" and f[1] == "!":
            f, b = f[2], not b
        if f == t and not b and want or f == t and b and not want:
            return True
        if f[0] == "op" and len(f) == 4 and f[1] in ("==", "!=") and {f[2], f[3]} == {t, ("k", None)}:
            if (f[1] == "==") == b:
                return want
            return not want
    return False


class H14(Hk):
    def call(self, m, node, fr, q, obj, args, st):
        n = short(q).split("<")[0]
        if n in ("copy_to",) and obj is not None and cname(obj) in ("get", "generate_and_check", "array", "copy_to"):
            return obj
        r = super().call(m, node, fr, q, obj, args, st)
        if r is None and n in ("generate", "generate_and_check", "set", "get", "set_cache_depths_from", "add_to_cache_depths", "caches"):
            st.event(n, obj, tuple(args))
        return r

    def inline(self, g, name, obj, args):
        s = short(name).split("<")[0]
        if s in STOP14 or s == "caches" or s in SELF and obj == THIS:
            return False
        return super().inline(g, name, obj, args)

    def field(self, base, name, st):
        if base == THIS and name == "ptr_lib_":
            return ("k", 0)
        return super().field(base, name, st)


def go(prog, cls, name, args, hook=H14):
    f = C08.method(prog, cls, name, len(args))
    if f is None or "body" not in f:
        return None, [], None
    h = hook(prog, cls)
    m = Mini(prog, h, maxpaths=6000)
    return f, m.run(f, THIS, args), m


def fields_of(v):
    return dict(v[2]) if v[0] == "new" else {}


def events(st, *names):
    return [e for e in st.events if e[0] in names]


def run():
    chk = Check("C14", "path-wise abstract interpretation of virtual arrays, generators and caches; call-site and holder rules over the whole library", __doc__.strip().replace("\n", " "))
    prog = Program().load("libawkward")
    pyprog = Program().load("python", only=lambda p: p in ("src/python/virtual.cpp", "src/python/content.cpp") or p.startswith("include/awkward/"))
    from checks import C14x
    callers(chk, prog, pyprog)
    generate_and_check(chk, prog)
    arrays(chk, prog)
    delegations(chk, prog)
    copies(chk, prog)
    depths(chk, prog)
    C14x.generators(chk, prog, pyprog)
    C14x.caches(chk, prog)
    C14x.records(chk, prog)
    C14x.pycache(chk, pyprog)
    C14x.python(chk)
    C14x.makers(chk)
    return chk.finish()


# ------------------------------------------------------------------ 1
def callers(chk, prog, pyprog):
    seen = set()
    for p in (prog, pyprog):
        gens = set(p.derived(AG)) | {AG}
        for fn in p.funcs.values():
            if "body" not in fn or fn["key"] in seen:
                continue
            seen.add(fn["key"])
            for x in walk(fn["body"]):
                if x.get("k") == "call" and x.get("f") and x["f"].get("q", "").endswith("::generate") and (x["f"].get("cls") in gens or x["f"]["q"].rsplit("::", 1)[0] in gens):
                    chk.count("generate_calls")
                    chk.ob(fn["q"] == AG + "::generate_and_check" or fn["q"].endswith("::generate"), loc(fn, x), "%s: generated data goes through generate_and_check" % fn["q"])


def generate_and_check(chk, prog):
    f, res, m = go(prog, AG, "generate_and_check", [])
    if f is None:
        return chk.count("generate_and_check_not_found")
    LEN, FORM = fld("length_"), fld("form_")
    for st, v in res:
        chk.count("generate_and_check_paths")
        gens = events(st, "generate")
        k = known(st.facts)
        chk.ob(len(gens) == 1 and gens[0][1] == THIS and cname(v) == "generate" and v[2] == THIS, loc(f), "generate_and_check returns the array that it generated and compared")
        glen = ln(v)
        none = has(k, gt(("k", 0), LEN))
        chk.ob(none or has(k, ge(glen, LEN)), loc(f), "generate_and_check returns only if no length was declared or the generated array is not shorter than declared")
        eq = [t for t, b in st.facts.items() if b and cname(t) == "equal"]
        ok = isnull(st.facts, FORM, True)
        for t in eq:
            a, b, flags = t[2], t[3], t[4:]
            forms = {a, b}
            g = [x for x in forms if cname(x) == "form" and x[2] == v and (len(x) < 4 or x[3] == ("k", True))]
            ok = ok or FORM in forms and bool(g) and flags[:2] == (("k", True), ("k", True)) and flags[3:4] == (("k", True),)
        chk.ob(ok, loc(f), "generate_and_check returns only if no form was declared or the generated array's full form (identities and parameters included) conforms to it")
        stores = [e for e in st.events if e[0] == "store" and e[2] in ("form_", "inferred_form_", "length_")]
        for e in stores:
            chk.ob(e[2] == "inferred_form_" and isnull(st.facts, FORM, True) and cname(e[3]) == "form" and e[3][2] == v, loc(f), "generate_and_check records the generated form only where none was declared, and never changes the declaration")
    # the recorded form never overrides a declared one
    f, res, m = go(prog, AG, "form", [])
    for st, v in res:
        ok = v == FORM or v == fld("inferred_form_") and isnull(st.facts, FORM, True)
        chk.ob(ok, loc(f), "ArrayGenerator::form is the declared form, or the inferred one if none was declared")
    f, res, m = go(prog, AG, "length", [])
    for st, v in res:
        chk.ob(v == LEN, loc(f), "ArrayGenerator::length is the declared length")


# ------------------------------------------------------------------ 2
def arrays(chk, prog):
    f, res, m = go(prog, VA, "array", [])
    for st, v in res:
        chk.count("array_paths")
        gets, gens, sets = events(st, "get"), events(st, "generate_and_check"), events(st, "set")
        hit = cname(v) == "get" and v[2:] == (CACHE, KEY)
        made = cname(v) == "generate_and_check" and v[2] == GEN
        chk.ob(hit or made, loc(f), "VirtualArray::array is the cache entry under its own key or the checked array of its generator")
        hascache = not isnull(st.facts, CACHE, True)
        if hit:
            chk.ob(not gens and isnull(st.facts, v, False), loc(f), "VirtualArray::array does not generate again what is in the cache, and ignores a missing entry")
        if made:
            chk.ob(len(gens) == 1, loc(f), "VirtualArray::array generates once")
            if hascache:
                chk.ob(any(e[1] == CACHE and e[2] == (KEY,) for e in gets), loc(f), "VirtualArray::array looks in its cache before generating")
                chk.ob(any(e[1] == CACHE and e[2] == (KEY, v) for e in sets), loc(f), "VirtualArray::array stores what it generated under its own key")
        for e in sets:
            chk.ob(e[1] == CACHE and e[2] == (KEY, v) and isnull(st.facts, CACHE, False), loc(f), "VirtualArray::array stores in its cache, under its own key, only what it returns")
        for e in gets:
            chk.ob(isnull(st.facts, CACHE, False) and e[1] == CACHE and e[2] == (KEY,), loc(f), "VirtualArray::array reads only its own entry of a cache that exists")
    f, res, m = go(prog, VA, "peek_array", [])
    for st, v in res:
        ok = v == ("k", None) or cname(v) == "get" and v[2:] == (CACHE, KEY) and isnull(st.facts, CACHE, False)
        chk.ob(ok and not events(st, "generate_and_check", "generate", "set"), loc(f), "VirtualArray::peek_array only reads its own cache entry")
        if v == ("k", None):
            br = [t for t in st.facts if cname(t) == "is_broken"]
            chk.ob(isnull(st.facts, CACHE, True) or any(st.facts[t] for t in br), loc(f), "VirtualArray::peek_array misses the entry only without a usable cache")


# ------------------------------------------------------------------ 3
def is_self(v):
    return cname(v) == "shallow_copy" and v[2] == THIS or v == THIS


def slice_items(v):
    """items appended to a Slice term"""
    if v[0] == "coll":
        return [x for x in v[1:] if not (x[0] == "new" and x[1].endswith("::Slice"))]
    return None


def lazy(chk, f, name, ps, st, v):
    fs = fields_of(v)
    g = fs.get("generator_")
    if g is None or g[0] != "new":
        chk.ob(g == GEN, loc(f), "VirtualArray::%s: the new virtual array uses this array's generator" % name)
        if g == GEN:
            keeps = fs.get("cache_") == CACHE and fs.get("cache_key_") == KEY
            chk.ob(keeps, loc(f), "VirtualArray::%s: a virtual array with this array's generator shares its cache and key" % name)
        return
    chk.count("lazy_paths")
    gs = fields_of(g)
    chk.ob(g[1].endswith("SliceGenerator") and is_self(gs.get("content_", ("k", 0))), loc(f), "VirtualArray::%s: the result is a slice of a copy of this array" % name)
    chk.ob(not (fs.get("cache_") != ("k", None) and fs.get("cache_key_") == KEY), loc(f), "VirtualArray::%s: a slice does not share the cache entry of the whole" % name)
    L, F, S = gs.get("length_"), gs.get("form_"), gs.get("slice_")
    genlen = ln(GEN)
    genform = ("call", AG + "::form", GEN)
    item = slice_items(S) if S is not None else None
    dep = [e for e in events(st, "set_cache_depths_from")]
    adds = events(st, "add_to_cache_depths")

    def formok(method, args):
        if F == ("k", None):
            return True
        return cname(F) == method and cname(F[2]) == "form" and F[2][2] == GEN and F[3:] == tuple(args)

    def one(cls, **want):
        if item is None:
            return True
        if len(item) != 1 or item[0][0] != "new" or not item[0][1].split("<")[0].endswith(cls):
            return False
        d = fields_of(item[0])
        return all(k not in d or d[k] == w or same(d[k], w) for k, w in want.items())
    msg = "VirtualArray::%s: " % name
    if name == "getitem_range_nowrap":
        a, b = ps
        chk.ob(one("SliceRange", start_=a, stop_=b, step_=("k", 1)), loc(f), msg + "the generator takes the requested range")
        chk.ob(same(L, ("op", "-", b, a)), loc(f), msg + "the declared length is stop - start")
        chk.ob(formok("getitem_range", []), loc(f), msg + "the declared form is the form of a range of this array")
        chk.ob(all(e[2] == (THIS,) for e in dep), loc(f), msg + "depths are those of this array")
    elif name in ("getitem_field", "getitem_fields"):
        chk.ob(one("SliceField" if name == "getitem_field" else "SliceFields", key_=ps[0], keys_=ps[0]), loc(f), msg + "the generator takes the requested fields")
        chk.ob(same(L, genlen), loc(f), msg + "the declared length is that of this array")
        chk.ob(formok(name, ps[:1]), loc(f), msg + "the declared form is that of the requested fields")
        chk.ob(all(e[2] == (F,) for e in dep), loc(f), msg + "depths are those of the requested fields")
    elif name == "carry":
        chk.ob(one("SliceArrayOf", index_=ps[0]), loc(f), msg + "the generator takes the requested elements")
        chk.ob(same(L, ln(ps[0])), loc(f), msg + "the declared length is the number of requested elements")
        chk.ob(F == ("k", None), loc(f), msg + "no form is declared")
        chk.ob(all(e[2] == (THIS,) for e in dep), loc(f), msg + "depths are those of this array")
    elif name == "getitem":
        where(chk, f, ps[0], st, L, F, S, dep, adds)


def where(chk, f, w, st, L, F, S, dep, adds):
    msg = "VirtualArray::getitem: "
    chk.ob(S == w, loc(f), msg + "the generator takes the requested slice")
    chk.ob(F == ("k", None), loc(f), msg + "no form is declared for a slice of unknown form")
    chk.ob(all(e[2] == (THIS,) for e in dep), loc(f), msg + "depths start from this array's")
    head = ("call", "awkward::Slice::head", w)
    isa = {t[2].split("::")[-1].split("<")[0] for t, b in st.facts.items() if t[0] == "isa" and b and t[1] == head}
    nots = {t[2].split("::")[-1].split("<")[0] for t, b in st.facts.items() if t[0] == "isa" and not b and t[1] == head}
    one = equal(st.facts, ln(w), ("k", 1))
    chk.ob(one and len(isa) == 1, loc(f), msg + "only slices of one item of a known kind are taken lazily")
    kind = next(iter(isa), None)
    if kind != "SliceNewAxis":
        chk.ob(not adds, loc(f), msg + "depths change only with a new axis")
    if kind == "SliceEllipsis":
        chk.ob(same(L, ln(GEN)), loc(f), msg + "the declared length of [...] is that of this array")
    elif kind == "SliceNewAxis":
        chk.ob(L == ("k", 1), loc(f), msg + "the declared length of [np.newaxis] is one")
        chk.ob(len(adds) == 1 and adds[0][2] == (("k", 1),), loc(f), msg + "a new axis adds one to the depths")
    elif kind == "SliceArrayOf" or kind == "SliceArray64":
        chk.ob(same(L, ln(head)), loc(f), msg + "the declared length of an array slice is that of the slice")
    elif kind == "SliceRange":
        rangelen(chk, f, head, st, L)
    else:
        chk.ob(False, loc(f), msg + "a slice by %s is not taken lazily" % kind)


def rangelen(chk, f, head, st, L):
    """number of elements of start:stop:step: 0, or |start - stop| divided by |step|, rounded up"""
    msg = "VirtualArray::getitem: the declared length of a range is its number of elements"
    k = known(st.facts)
    step = ("call", "awkward::SliceRange::step", head)
    regs = {t[1]: t for t in deps(L, lambda t: t[0] == "reg")}
    for t in list(st.facts):
        for r in deps(t, lambda t: t[0] == "reg"):
            regs[r[1]] = r
    if L == ("k", 0) and not has(k, gt(step, ("k", 0))) and not has(k, gt(("k", 0), step)):
        return                          # neither sign: the step is zero, and that raises
    if set(regs) != {"start", "stop"}:
        return chk.count("range_lengths_not_understood")
    a, b = regs["start"], regs["stop"]
    for r in (a, b):
        chk.ob(r[2] == ("call", "awkward::SliceRange::start", head) and r[3] == ("call", "awkward::SliceRange::stop", head) and same(r[7], ln(GEN)), loc(f),
               "VirtualArray::getitem: a range is regularised with its own start, stop and the declared length")
        pos = r[4]
        chk.ob(pos == ("op", ">", step, ("k", 0)) or pos == ("k", True) and has(k, gt(step, ("k", 0))) or pos == ("k", False) and has(k, gt(("k", 0), step)), loc(f), "VirtualArray::getitem: a range is regularised with the sign of its step")
    up, down = has(k, gt(step, ("k", 0))), has(k, gt(("k", 0), step))
    nonempty = up and has(k, gt(b, a)) or down and has(k, gt(a, b))
    if L == ("k", 0):
        chk.ob(not nonempty, loc(f), msg)
        return
    chk.ob(nonempty, loc(f), msg + " (zero if empty)")
    p = poly(L)
    divs = [mn[0] for mn, c in p.items() if len(mn) == 1 and mn[0][0] == "op" and mn[0][1] == "/" and c == 1]
    rest = {mn: c for mn, c in p.items() if not (len(mn) == 1 and mn[0] in divs)}
    if len(divs) != 1 or any(mn for mn in rest):
        return chk.count("range_lengths_not_understood")
    n, d = divs[0][2], divs[0][3]
    c = rest.get((), 0)

    def absolute(t, x, y=None):
        diff = ("op", "-", x, y) if y is not None else x
        q = list(poly(t).items())
        if len(q) == 1 and q[0][1] == 1 and len(q[0][0]) == 1:
            t = q[0][0][0]
        if t[0] == "call" and cname(t) == "abs":
            t = t[2]
            return same(t, diff) or same(("op", "neg", t), diff)
        if same(t, diff):
            return has(k, ge(diff)) or has(k, gt(diff, ("k", 0)))
        if same(("op", "neg", t), diff):
            return has(k, gt(("k", 0), diff))
        return None
    if not absolute(d, step):
        return chk.count("range_lengths_not_understood") if absolute(d, step) is None else chk.ob(False, loc(f), msg)
    if absolute(n, a, b):
        rem = ("op", "%", n, d)
        nz = any(t[0] == "op" and len(t) == 4 and {t[2], t[3]} == {rem, ("k", 0)} and ((t[1] == "!=") == v) for t, v in st.facts.items() if t[1] in ("!=", "==")) or has(k, gt(rem, ("k", 0)))
        z = any(t[0] == "op" and len(t) == 4 and {t[2], t[3]} == {rem, ("k", 0)} and ((t[1] == "==") == v) for t, v in st.facts.items() if t[1] in ("!=", "==")) or has(k, ge(("k", 0), rem))
        chk.ob(c == 1 and nz or c == 0 and z, loc(f), msg)
    else:
        m2 = ("op", "-", ("op", "+", n, ("k", 1)), d)
        chk.ob(c == 0 and bool(absolute(m2, a, b)), loc(f), msg)


FORMS = {"purelist_depth", "minmax_depth", "branch_depth", "numfields", "fieldindex", "key", "haskey", "keys", "type", "purelist_isregular", "purelist_parameter"}
OWN = {"array", "peek_array", "generator", "cache", "cache_key", "ptr_lib", "classname", "form", "kernels", "length", "shallow_copy", "copy_to", "referentially_equal", "caches",
       "tostring_part", "nbytes_part", "check_for_iteration", "forward_parameters", "set_cache_depths_from", "add_to_cache_depths", "setidentities", "getitem_at", "VirtualArray", "~VirtualArray"}


def delegations(chk, prog):
    fns = {}
    for fn in prog.funcs.values():
        if fn.get("cls") == VA and "body" in fn and not fn.get("ctor") and not fn.get("dtor"):
            fns[(fn["q"], tuple(fn["pt"]) if isinstance(fn.get("pt"), (list, tuple)) else len(fn["ps"]))] = fn
    for fn in fns.values():
        name = fn["q"].split("::")[-1]
        if name in OWN:
            continue
        ps = [("sym", p.get("n") or "arg%d" % i) for i, p in enumerate(fn["ps"])]
        h = H14(prog, VA)
        m = Mini(prog, h, maxpaths=6000)
        try:
            res = m.run(fn, THIS, ps)
        except TooManyPaths:
            chk.count("beyond_path_bound")
            continue
        chk.count("operations")
        for st, v in res:
            operation(chk, fn, name, ps, st, v)


def operation(chk, f, name, ps, st, v):
    msg = "VirtualArray::%s: " % name
    if v[0] == "new" and v[1] == VA:
        if name in LAZY:
            lazy(chk, f, name, ps, st, v)
        else:
            chk.ob(False, loc(f), msg + "is not a lazy operation")
        return
    if v[0] != "call":
        if v in (("void",), None):
            deleg = [e for e in st.events if e[0] == name]
        if v == ("k", None) or v[0] == "k":
            chk.ob(False, loc(f), msg + "is answered by the array, not by a constant")
        elif name not in ("purelist_depth", "minmax_depth", "branch_depth"):
            chk.count("returns_not_understood")
        return
    cn, obj, args = cname(v), v[2] if len(v) > 2 else None, v[3:]
    if is_self(v):
        ok = False
        if name == "carry":
            ok = equal(st.facts, ln(ps[0]), ("call", VA + "::length", THIS)) or equal(st.facts, ln(ps[0]), ln(THIS)) or equal(st.facts, ln(ps[0]), ln(GEN))
            ok = ok and any(b and cname(t) == "iscontiguous" and t[2] == ps[0] for t, b in st.facts.items())
        elif name == "getitem_range_nowrap":
            ok = equal(st.facts, ps[0], ("k", 0)) and equal(st.facts, ps[1], ln(GEN))
        elif name == "getitem_next":
            ok = isnull(st.facts, ps[0], True)
        chk.ob(ok, loc(f), msg + "the whole array is returned only where the whole was asked for")
        return
    if obj == THIS:
        if cn == name and args == tuple(ps):
            return
        if cn in ("array", "peek_array"):
            chk.ob(False, loc(f), msg + "the operation is applied to the generated array")
            return
        if cn == "getitem_range_nowrap" and name == "getitem_range":
            return                      # positions: decided in C16
        if cn == "getitem_range_nowrap" and name == "carry":
            con = any(b and cname(t) == "iscontiguous" and t[2] == ps[0] for t, b in st.facts.items())
            chk.ob(con and args[0] == ("k", 0) and same(args[1], ln(ps[0])), loc(f), msg + "a contiguous carry is the range of its length")
            return
        if name == "getitem" and cn in ("getitem_field", "getitem_fields"):
            head = ("call", "awkward::Slice::head", ps[0])
            want = {"getitem_field": "key", "getitem_fields": "keys"}[cn]
            isa = [t[2].split("::")[-1] for t, b in st.facts.items() if t[0] == "isa" and b and t[1] == head]
            chk.ob(isa == [{"getitem_field": "SliceField", "getitem_fields": "SliceFields"}[cn]] and cname(args[0]) == want and args[0][2] == head and equal(st.facts, ln(ps[0]), ("k", 1)), loc(f),
                   msg + "fields of the slice's head are taken")
            return
        chk.count("returns_not_understood")
        return
    src = cname(obj) if obj is not None else None
    if src in ("array", "peek_array") and obj[2] == THIS:
        chk.ob(cn == name, loc(f), msg + "is the same operation on the generated array (%s)" % cn)
        a = tuple(args)
        ok = a == tuple(ps)
        if name == "validityerror":
            ok = len(a) == 1 and bool(deps(a[0], lambda t: t == ps[0]))
        chk.ob(ok, loc(f), msg + "the generated array gets the same arguments in the same order")
        if src == "peek_array":
            chk.ob(isnull(st.facts, obj, False), loc(f), msg + "a cached array is used only if there is one")
        return
    if name in FORMS and src == "form":
        chk.ob(cn == name and args == tuple(ps), loc(f), msg + "is answered by the array's form")
        return
    chk.count("returns_not_understood")


def copies(chk, prog):
    for name, args in (("shallow_copy", []), ("copy_to", [("sym", "ptr_lib")])):
        f, res, m = go(prog, VA, name, args)
        for st, v in res or []:
            fs = fields_of(v)
            if not fs:
                chk.count("returns_not_understood")
                continue
            for k, w in (("generator_", GEN), ("cache_", CACHE), ("cache_key_", KEY)):
                chk.ob(fs.get(k) == w, loc(f), "VirtualArray::%s keeps %s" % (name, k))
            if name == "copy_to":
                chk.ob(fs.get("ptr_lib_") == args[0], loc(f), "VirtualArray::copy_to is on the requested device")
            for e in events(st, "set_cache_depths_from"):
                chk.ob(e[2] == (THIS,), loc(f), "VirtualArray::%s keeps the depths" % name)
    # the generator's own length and the generated one
    f, res, m = go(prog, VA, "form", [("sym", "materialize")])
    for st, v in res or []:
        fs = fields_of(v)
        fm = fs.get("form_")
        gf = ("call", AG + "::form", GEN)
        ok = fm is not None and (cname(fm) == "form" and (fm[2] == GEN or cname(fm[2]) == "array" and isnull(st.facts, gf, True)))
        chk.ob(ok or fm is None, loc(f), "VirtualArray::form is the declared form, or the generated array's")
        hl = fs.get("has_length_")
        chk.ob(hl is None or hl in (("op", ">=", ("call", AG + "::length", GEN), ("k", 0)),) or hl[0] == "k" and (has(known(st.facts), ge(ln(GEN))) == bool(hl[1])) or hl[0] not in ("op", "k"), loc(f), "VirtualArray::form has a length if one was declared")
    f = C08.method(prog, VA, "referentially_equal", 1)


# ------------------------------------------------------------------ depths
def depths(chk, prog):
    """order in which depths are written and read"""
    want = [("purelist_depth", None), ("minmax_depth", "first"), ("minmax_depth", "second"), ("branch_depth", "first"), ("branch_depth", "second")]

    def what(t):
        if t[0] == "fld" and t[2] in ("first", "second") and cname(t[1]):
            return cname(t[1]), t[2]
        return cname(t), None
    writer = None
    for fn in prog.funcs.values():
        if fn.get("cls") == VA and fn["q"].endswith("::set_cache_depths_from") and fn["ps"] and "Form" in fn["u"].types[fn["ps"][0]["t"]]:
            writer = fn
    if writer is None:
        return chk.count("depths_not_understood")
    m = Mini(prog, H14(prog, VA), maxpaths=200)
    got = []
    for st, v in m.run(writer, THIS, [("sym", "form")]):
        items = [x for e in st.events if e[0] == "mutate" for x in e[2] if what(x)[0] in ("purelist_depth", "minmax_depth", "branch_depth")]
        items += [x for e in st.events if e[0] == "store" and e[2] == "cache_depths_" and e[3][0] == "coll" for x in e[3][1:] if what(x)[0] in ("purelist_depth", "minmax_depth", "branch_depth")]
        if items:
            got.append((st, [what(x) for x in items], items))
    if not got:
        return chk.count("depths_not_understood")
    for st, ws, items in got:
        chk.count("depths_written")
        chk.ob(sorted(map(str, ws)) == sorted(map(str, want)), loc(writer), "the remembered depths are the pure-list depth and both members of the minimum/maximum and branch depths")
        pos = {w: i for i, w in enumerate(ws)}
        for name in ("purelist_depth", "minmax_depth", "branch_depth"):
            f, res, m2 = go(prog, VA, name, [])
            for s2, v in res or []:
                if cname(v) == name:
                    continue
                parts = [x for _, x in v[2]] if v[0] == "new" else list(v[2:]) if v[0] == "call" else [v]
                ats = [t[2][1] if t[0] == "at" and t[2][0] == "k" else None for t in parts]
                exp = [pos[w] for w in want if w[0] == name]
                if None in ats:
                    chk.count("depths_not_understood")
                    continue
                chk.ob(ats == exp, loc(f), "VirtualArray::%s reads the slots in which it was remembered" % name)
        f, res, m2 = go(prog, VA, "add_to_cache_depths", [("sym", "delta")])
        for fn in prog.funcs.values():
            if fn.get("cls") == VA and fn["q"].endswith("::add_to_cache_depths") and "body" in fn:
                slots = set()
                odd = False
                for x in walk(fn["body"]):
                    if x.get("k") == "bin" and x.get("op") == "+=":
                        lhs = strip(x["c"][0])
                        idx = [y for y in walk(lhs) if y.get("k") in ("int", "lit", "num")]
                        vals = [y.get("v") for y in idx if isinstance(y.get("v"), int)]
                        if len(vals) == 1:
                            slots.add(vals[0])
                        else:
                            odd = True
                if odd or not slots:
                    chk.count("depths_not_understood")
                else:
                    exp = {i for w, i in pos.items() if w != ("branch_depth", "first")}
                    chk.ob(slots == exp, loc(fn), "a new axis adds to every remembered depth and not to the flag")
