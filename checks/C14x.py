"""C14, second part: generators, caches and their holders."""
import ast
from vlib.core import *
from vlib.mini import *
from vlib.mini import short
from checks import C08
from checks.C16 import THIS, fld, same, nm, ln, Hk, fam
from checks.C14 import H14, go, fields_of, events, isnull, cname, GEN, CACHE, KEY, AG
from vlib import pymini


def generators(chk, prog, pyprog):
    # SliceGenerator::generate
    f, res, m = go(prog, "awkward::SliceGenerator", "generate", [])
    C, S = fld("content_"), fld("slice_")
    head = ("call", "awkward::Slice::head", S)
    for st, v in res or []:
        chk.count("slice_generate_paths")
        obj = v[2] if v[0] == "call" and len(v) > 2 else None
        base = obj == C or obj is not None and cname(obj) == "array" and obj[2] == C
        chk.ob(base, loc(f), "SliceGenerator::generate takes the slice of its own content")
        if cname(v) == "getitem":
            chk.ob(v[3:] == (S,), loc(f), "SliceGenerator::generate takes its own slice")
        elif cname(v) in ("getitem_range",):
            isr = any(b and t[0] == "isa" and t[1] == head and t[2].endswith("SliceRange") for t, b in st.facts.items())
            one = any(b and t[0] == "op" and t[1] == "==" and ("k", 1) in t[2:] and any(cname(x) == "length" and x[2] == S for x in t[2:]) for t, b in st.facts.items())
            step = any(b and t[0] == "op" and t[1] == "==" and ("k", 1) in t[2:] and any(cname(x) == "step" and x[2] == head for x in t[2:]) for t, b in st.facts.items())
            ends = len(v) == 5 and cname(v[3]) == "start" and v[3][2] == head and cname(v[4]) == "stop" and v[4][2] == head
            chk.ob(isr and one and step and ends, loc(f), "SliceGenerator::generate takes a plain range only if the slice is one range of step 1, with its start and stop")
        else:
            chk.ob(False, loc(f), "SliceGenerator::generate applies its slice (%s)" % cname(v))
    # copies with one thing changed
    for p, cls, names in ((prog, "awkward::SliceGenerator", ("shallow_copy", "with_form", "with_length")),
                          (pyprog, "PyArrayGenerator", ("shallow_copy", "with_form", "with_length", "with_callable", "with_args", "with_kwargs"))):
        for name in names:
            ps = [] if name == "shallow_copy" else [("sym", name[5:])]
            f, res, m = go(p, cls, name, ps)
            for st, v in res or []:
                fs = fields_of(v)
                if not fs and v[0] == "call" and v[1] == "make:" + cls:
                    c = m.pick_ctor(cls, len(v) - 2)
                    fs = m.ctor_fields(c, list(v[2:]), st) if c is not None else {}
                    if "#base" in fs and len(fs["#base"]) == 4:      # the base class: its form and length, in its own order
                        fs["form_"], fs["length_"] = fs["#base"][2:]
                if not fs:
                    chk.count("returns_not_understood")
                    continue
                chk.count("generator_copies")
                for k, w in fs.items():
                    if k in ("inferred_form_", "#base"):
                        continue
                    exp = ps[0] if ps and k == name[5:] + "_" else fld(k)
                    chk.ob(w == exp, loc(f), "%s::%s: %s is %s" % (short(cls), name, k, "the given one" if exp != fld(k) else "kept"))
    # PyArrayGenerator::generate
    for fn in pyprog.funcs.values():
        if fn["q"].endswith("PyArrayGenerator::generate") and "body" in fn:
            mems = {x.get("n") for x in walk(fn["body"]) if x.get("k") == "mem"}
            calls = [x for x in walk(fn["body"]) if x.get("k") == "call"]
            called = any((x.get("op") == "()" and any(y.get("n") == "callable_" for y in walk(x))) for x in calls)
            chk.count("python_generate")
            if called:
                inv = [x for x in calls if x.get("op") == "()" and any(y.get("n") == "callable_" for y in walk(x))]
                used = {y.get("n") for x in inv for y in walk(x) if y.get("k") == "mem"}
                chk.ob({"args_", "kwargs_"} <= used, loc(fn), "PyArrayGenerator::generate calls its callable with its own arguments")
            unb = any((x.get("f") or {}).get("q", "").endswith("unbox_content") for x in calls)
            chk.ob(unb, loc(fn), "PyArrayGenerator::generate hands back an array node")


# ------------------------------------------------------------------ caches() of every class
def caches(chk, prog):
    for cls in sorted(set(prog.derived("awkward::Content")) - {"awkward::Content"}) + ["awkward::SliceGenerator"]:
        if fam(cls) in ("None", "RawArrayOf"):
            continue
        f = C08.method(prog, cls, "caches", 1)
        if f is None or "body" not in f:
            continue
        kids = []
        for n, t in C08_fields(prog, cls):
            if "Content" in t and "shared_ptr" in t or "RecordArray" in t and "shared_ptr" in t or "ArrayGenerator" in t or t.endswith("ArrayCache>") or "ArrayCachePtr" in t or "std::shared_ptr<awkward::ArrayCache>" in t:
                kids.append((n, t))
        h = H14(prog, cls)
        m = Mini(prog, h, maxpaths=500)
        out = ("sym", "out")
        try:
            res = m.run(f, THIS, [out])
        except TooManyPaths:
            chk.count("beyond_path_bound")
            continue
        holds = {n for n, t in kids if "ArrayCache" in t and "vector" in t}
        for n, t in kids:
            if holds and n not in holds:
                continue                # the record's own list stands for its contents
            chk.count("children_with_caches")
            if "ArrayCache" in t:
                ok = any(x.get("k") == "mem" and x.get("n") == n for x in walk(f["body"])) and grows(f)
                chk.ob(ok, loc(f), "%s::caches reports its own %s" % (short(cls), n))
                continue
            bad = 0
            for st, v in res:
                es = [e for e in events(st, "caches") if e[2] == (out,)]
                hit = any(deps(e[1], lambda t: t == fld(n)) and not deps(e[1], lambda t: t[0] == "at" and t[1] == fld(n) and t[2][0] == "k") for e in es)
                if not hit and not (isvec(t_of(kids, n)) and loops_over(f, n)):
                    bad += 1
            chk.ob(not bad, loc(f), "%s::caches visits %s on every path" % (short(cls), n))


def t_of(kids, n):
    return dict(kids)[n]


def isvec(t):
    return "vector" in t


def loops_over(f, n):
    for x in walk(f["body"]):
        if x.get("k") in ("for", "forrange", "rangefor", "while", "do"):
            sub = list(walk(x))
            if any(y.get("k") == "mem" and y.get("n") == n for y in sub) and any(y.get("k") == "call" and (y.get("f") or {}).get("q", "").endswith("::caches") for y in sub):
                return True
    return False


def grows(f):
    return any(x.get("k") == "call" and (x.get("f") or {}).get("q", "").split("::")[-1] in ("push_back", "insert", "emplace_back") for x in walk(f["body"]))


def C08_fields(prog, cls):
    out = []
    seen = set()
    todo = [cls]
    while todo:
        c = todo.pop()
        r = prog.recs.get(c)
        if r is None or c in seen:
            continue
        seen.add(c)
        for x in r["fields"]:
            out.append((x["n"], r["u"].types[x["t"]]))
        for b in r.get("bases", []):
            todo.append(r["u"].types[b] if isinstance(b, int) else b)
    return out


# ------------------------------------------------------------------ records are given their fields' caches
def records(chk, prog):
    """a RecordArray made with an explicit list of caches has the caches of everything put into it"""
    for fn in prog.funcs.values():
        if "body" not in fn or not fn["q"].startswith("awkward::"):
            continue
        sites = []
        for x in walk(fn["body"]):
            if x.get("k") not in ("call", "ctor", "new", "construct"):
                continue
            t = tstr(x, fn) or ""
            if "RecordArray" not in t:
                continue
            args = x.get("c") or []
            ca = [a for a in args if "ArrayCache" in (tstr(strip(a), fn) or "") and "vector" in (tstr(strip(a), fn) or "")]
            if ca:
                sites.append((x, args, strip(ca[0])))
        for x, args, a in sites:
            chk.count("records_with_caches")
            where = loc(fn, x)
            if a.get("k") == "mem":
                chk.ob(a.get("n") == "caches_", where, "%s: the record gets this record's caches" % fn["q"])
                continue
            while a.get("k") in ("ctor", "construct") and len(a.get("c") or []) == 1:
                a = strip(a["c"][0])
            if a.get("k") != "ref" or a.get("dk") == "parm":
                continue
            # a local list: what was put into it
            init = None
            for y in walk(fn["body"]):
                if y.get("k") == "decl":
                    for v in y["v"]:
                        if v["d"] == a["d"]:
                            init = v.get("init")
            own = init is not None and any(y.get("k") == "mem" and y.get("n") == "caches_" for y in walk(init))
            collected = False
            for y in walk(fn["body"]):
                if y.get("k") == "call" and (y.get("f") or {}).get("q", "").split("::")[-1] in ("caches", "fillcache", "insert", "push_back") and any(z.get("k") == "ref" and z.get("d") == a["d"] for z in walk(y)):
                    collected = True
            outside = holds_others(fn, args)
            if outside == "unknown":
                chk.count("records_not_understood")
                continue
            if outside == "own":
                chk.ob(own or collected, where, "%s: the record is given the caches of the fields it keeps" % fn["q"])
            elif outside == "given":
                chk.ob(collected, where, "%s: the record is given the caches of what is put into it" % fn["q"])
                chk.ob(own or not keeps_own(fn, args), where, "%s: the record is given the caches of the fields it keeps" % fn["q"])
            else:
                chk.ob(True, where, "%s: nothing in this record can be virtual" % fn["q"])


def pushed(fn, args):
    """expressions put into the ContentPtrVec argument"""
    out = []
    for a in args:
        a = strip(a)
        while a.get("k") in ("ctor", "construct") and len(a.get("c") or []) == 1:
            a = strip(a["c"][0])
        t = tstr(a, fn) or ""
        if a.get("k") == "ref" and "vector" in t and "Content" in t:
            for y in walk(fn["body"]):
                if y.get("k") == "call" and (y.get("f") or {}).get("q", "").split("::")[-1] in ("push_back", "emplace_back", "insert"):
                    o = y.get("obj")
                    if o is not None and any(z.get("k") == "ref" and z.get("d") == a["d"] for z in walk(o)):
                        out += y.get("c") or []
                if y.get("k") == "decl":
                    for v in y["v"]:
                        if v["d"] == a["d"] and v.get("init") is not None:
                            out.append(v["init"])
    return out


def sources(fn, node, depth=0):
    """what an expression is made of: members, parameters, calls"""
    out = set()
    for y in walk(node):
        if y.get("k") == "mem":
            out.add(("mem", y.get("n")))
        if y.get("k") == "call":
            out.add(("call", (y.get("f") or {}).get("q", "").split("::")[-1]))
        if y.get("k") == "ref" and depth < 4:
            if y.get("dk") == "parm" or any(p.get("d") == y.get("d") for p in fn["ps"]):
                out.add(("parm", tstr(y, fn) or ""))
            else:
                for z in walk(fn["body"]):
                    if z.get("k") == "decl":
                        for v in z["v"]:
                            if v["d"] == y.get("d") and v.get("init") is not None:
                                out |= sources(fn, v["init"], depth + 1)
                    if z.get("k") in ("forrange", "rangefor") and any(q.get("d") == y.get("d") for q in (z.get("v") if isinstance(z.get("v"), list) else [z.get("v") or {}])):
                        r = z.get("range") or z.get("r")
                        if r is not None:
                            out |= sources(fn, r, depth + 1)
    return out


def holds_others(fn, args):
    ps = pushed(fn, args)
    if not ps:
        return "unknown"
    s = set()
    for p in ps:
        s |= sources(fn, p)
    if any(k == "parm" and "Content" in v for k, v in s):
        return "given"
    names = {v for k, v in s if k == "call"}
    if "snapshot" in names:
        return "given"
    if "empty" in names and not any(k == "mem" and v == "contents_" for k, v in s):
        return "none"
    if any(k == "mem" and v == "contents_" for k, v in s) and names & {"getitem_range_nowrap", "carry", "shallow_copy", "field", "getitem_range", "numbers_to_type", "at"} or names & {"field"}:
        return "own"
    return "none"


def keeps_own(fn, args):
    s = set()
    for p in pushed(fn, args):
        s |= sources(fn, p)
    return any(k == "mem" and v == "contents_" for k, v in s)


# ------------------------------------------------------------------ bindings
def pycache(chk, pyprog):
    for fn in pyprog.funcs.values():
        if "body" not in fn:
            continue
        n = fn["q"].split("::")
        if n[0] == "PyArrayCache" and n[-1] in ("get", "set"):
            calls = [x for x in walk(fn["body"]) if x.get("k") == "call"]
            txt = [s for x in calls for s in strings(x)]
            want = "__getitem__" if n[-1] == "get" else "__setitem__"
            chk.count("cache_methods")
            chk.ob(want in txt, loc(fn), "PyArrayCache::%s uses the mapping" % n[-1])
            keys = [p for p in fn["ps"] if "string" in fn["u"].types[p["t"]]]
            for p in keys:
                used = any(x.get("k") == "ref" and x.get("d") == p["d"] for x in walk(fn["body"]))
                chk.ob(used, loc(fn), "PyArrayCache::%s uses the key it is given" % n[-1])
            if n[-1] == "set":
                p = [p for p in fn["ps"] if "Content" in fn["u"].types[p["t"]]]
                for q in p:
                    boxed = any((x.get("f") or {}).get("q", "").endswith("box") and any(y.get("k") == "ref" and y.get("d") == q["d"] for y in walk(x)) for x in calls)
                    chk.ob(boxed, loc(fn), "PyArrayCache::set stores the array it is given")


def strings(x):
    return [y.get("v") for y in walk(x) if y.get("k") in ("str", "lit") and isinstance(y.get("v"), str)]


# ------------------------------------------------------------------ Python holders
def python(chk):
    path = os.path.join(REPO, "src/awkward/highlevel.py")
    tree = ast.parse(open(path).read())
    for cls in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        fns = [n for n in cls.body if isinstance(n, ast.FunctionDef)]
        uses = any(is_self_attr(x, "_caches") for x in ast.walk(cls))
        if not uses:
            continue
        helpers = {f.name: f for f in fns}
        setter = next((f for f in fns if f.name == "layout" and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in f.decorator_list)), None)
        for f in fns:
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and any(is_self_attr(t, "_layout") for t in x.targets):
                    chk.count("layout_assignments")
                    ok = followed(f, x, helpers)
                    chk.ob(ok, "src/awkward/highlevel.py:%d" % x.lineno, "%s.%s: the caches of the new layout are held" % (cls.name, f.name))


def is_self_attr(x, name):
    return isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == "self"


def sets_caches(stmt, helpers, depth=0):
    for y in ast.walk(stmt):
        if isinstance(y, ast.Assign) and any(is_self_attr(t, "_caches") for t in y.targets):
            return any(isinstance(z, ast.Call) and ast.unparse(z.func).endswith("find_caches") for z in ast.walk(y.value))
        if depth < 2 and isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == "self" and y.func.attr in helpers:
            if any(sets_caches(s, helpers, depth + 1) for s in helpers[y.func.attr].body):
                return True
    return False


def followed(f, assign, helpers):
    """a later statement of the same or an enclosing block, not inside a conditional, takes the caches"""
    def search(body):
        for i, s in enumerate(body):
            inside = s is assign or any(y is assign for y in ast.walk(s))
            if not inside:
                continue
            if s is not assign:
                for name in ("body", "orelse", "finalbody"):
                    sub = getattr(s, name, None)
                    if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt) and any(y is assign for t in sub for y in ast.walk(t)):
                        if search(sub):
                            return True
            for t in body[i + 1:]:
                if isinstance(t, (ast.Return, ast.Raise)):
                    return False
                if not isinstance(t, (ast.If, ast.For, ast.While, ast.Try)) and sets_caches(t, helpers):
                    return True
            return False
        return False
    return search(f.body)


# ------------------------------------------------------------------ Python makers of virtual arrays
def makers(chk):
    """what is declared to a generator is what the generating function is told to make"""
    for rel in ("operations/convert.py", "operations/structure.py", "_util.py", "highlevel.py", "partition.py"):
        path = os.path.join(REPO, "src/awkward", rel)
        if not os.path.exists(path):
            continue
        tree = ast.parse(open(path).read())
        top = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        calls = {n.name: f for n in tree.body if isinstance(n, ast.ClassDef) for f in n.body if isinstance(f, ast.FunctionDef) and f.name == "__call__"}
        for fn, cls in functions(tree):
            for x in own_nodes(fn):
                if isinstance(x, ast.Call) and ast.unparse(x.func) in ("ak.layout.ArrayGenerator", "awkward.layout.ArrayGenerator"):
                    maker(chk, "src/awkward/" + rel, tree, fn, cls, x, top, calls)
                if isinstance(x, ast.Call) and ast.unparse(x.func) in ("ak.layout.VirtualArray",):
                    rewrap(chk, "src/awkward/" + rel, fn, x)


def functions(tree):
    out = []

    def go(body, cls):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                out.append((n, cls))
                go(n.body, cls)
            elif isinstance(n, ast.ClassDef):
                go(n.body, n)
            elif hasattr(n, "body") and isinstance(n.body, list):
                go(n.body, cls)
                go(getattr(n, "orelse", []) or [], cls)
    go(tree.body, None)
    return out


def own_nodes(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, ast.FunctionDef):
                todo.append(c)


def single(fn, name):
    """the only value ever assigned to a local name"""
    vals = []
    for n in own_nodes(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    vals.append(n.value)
                elif not isinstance(t, ast.Name) and any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store) for y in ast.walk(t)):
                    vals.append(None)
        elif isinstance(n, (ast.AugAssign, ast.For, ast.With)) and any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store) for y in ast.walk(n.target if not isinstance(n, ast.With) else n)):
            vals.append(None)
    return vals[0] if len(vals) == 1 else None


def before(fn, name, at):
    """the value of the last assignment to name in the statements that lead to the node `at`"""
    best = None

    def go(body):
        nonlocal best
        for s in body:
            inside = any(y is at for y in ast.walk(s))
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and not inside:
                best = s.value
            elif not inside and any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store) for y in ast.walk(s)):
                best = False
            if inside:
                for part in ("body", "orelse", "finalbody"):
                    sub = getattr(s, part, None)
                    if isinstance(sub, list) and any(y is at for t in sub if isinstance(t, ast.AST) for y in ast.walk(t)):
                        go(sub)
                return
    go(fn.body)
    return best if best is not False else None


def tuple_items(fn, node, depth=0, at=None):
    if isinstance(node, ast.Tuple):
        return list(node.elts)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        a, b = tuple_items(fn, node.left, depth, at), tuple_items(fn, node.right, depth, at)
        return a + b if a is not None and b is not None else None
    if isinstance(node, ast.Name) and depth < 3:
        v = before(fn, node.id, at) if at is not None else single(fn, node.id)
        return tuple_items(fn, v, depth + 1, at) if v is not None else None
    return None


def key_of(fn, node, depth=0, at=None):
    """a text that is the same for two expressions with the same value"""
    for n in own_nodes(fn):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == "enumerate" and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and at is not None and any(y is at for y in ast.walk(n)):
            i, e = n.target.elts
            if isinstance(node, ast.Name) and isinstance(e, ast.Name) and node.id == e.id:
                return "%s[%s]" % (ast.unparse(n.iter.args[0]), ast.unparse(i))
    if isinstance(node, ast.Name) and depth < 3 and at is not None:
        v = before(fn, node.id, at)
        if v is not None and isinstance(v, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)):
            return key_of(fn, v, depth + 1, at)
    return ast.unparse(node)


def maker(chk, rel, tree, fn, cls, x, top, calls):
    kws = {k.arg: k.value for k in x.keywords}
    pos = dict(zip(("callable", "args", "kwargs", "form", "length"), x.args))
    pos.update(kws)
    where = "%s:%d" % (rel, x.lineno)
    chk.count("python_generators")
    target = pos.get("callable")
    g = None
    if isinstance(target, ast.Name):
        g = top.get(target.id)
        if target.id == "self" and cls is not None:
            g = next((f for f in cls.body if isinstance(f, ast.FunctionDef) and f.name == "__call__"), None)
    skip = 0
    if g is None and isinstance(target, ast.Name):
        params = [a.arg for a in fn.args.args]
        if target.id in params and len(calls) == 1 and target.id != "generate":
            g = list(calls.values())[0]
    if g is not None:
        names = [a.arg for a in g.args.args]
        if names and names[0] == "self":
            names = names[1:]
        items = tuple_items(fn, pos.get("args"), at=x) if pos.get("args") is not None else []
        if items is None or len(items) > len(names):
            chk.count("python_generators_not_understood")
            return
        bound = dict(zip(names, items))
        for n in ("form", "length"):
            if n in names and n in bound and pos.get(n) is not None:
                chk.ob(key_of(fn, bound[n], at=x) == key_of(fn, pos[n], at=x), where, "%s: the declared %s is the one that the generating function is given" % (fn.name, n))
            elif n in names and n in bound:
                chk.ob(False, where, "%s: the %s of the array to be generated is declared" % (fn.name, n))
        return
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    if isinstance(target, ast.Name) and target.id in params:
        for n in ("args", "form", "length"):
            if n in params:
                v = pos.get(n)
                chk.ob(v is not None and any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(v)), where, "%s: the generator is given the caller's %s" % (fn.name, n))
        return
    chk.count("python_generators_not_understood")


def rewrap(chk, rel, fn, x):
    """a virtual array made from another one's generator keeps its key, identities and parameters"""
    pos = dict(zip(("generator", "cache", "cache_key", "identities", "parameters"), x.args))
    pos.update({k.arg: k.value for k in x.keywords})
    g = pos.get("generator")
    where = "%s:%d" % (rel, x.lineno)
    if isinstance(g, ast.Attribute) and g.attr == "generator":
        base = ast.unparse(g.value)
        for n in ("cache_key", "identities", "parameters"):
            v = pos.get(n)
            chk.ob(v is not None and any(isinstance(y, ast.Attribute) and y.attr in (n, "_" + n) and ast.unparse(y.value) == base or isinstance(y, ast.Name) and y.id == n for y in ast.walk(v)), where, "%s: the rewrapped virtual array keeps its %s" % (fn.name, n))
        chk.ob(pos.get("cache") is not None, where, "%s: the rewrapped virtual array has a cache" % fn.name)
    else:
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        for n in ("cache_key", "parameters"):
            if n in params and "generate" in params:
                v = pos.get(n)
                chk.ob(v is not None and any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(v)), where, "%s: the virtual array is given the caller's %s" % (fn.name, n))
