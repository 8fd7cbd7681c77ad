"""C17: operations leave no shared mutable state behind.

Rules.  C++ (library, kernels, bindings): (1) a variable with static storage that is not constant is only read, or is an
atomic counter, or is one of the documented registries; a constant one does not lead to mutable data; (2) no class has
mutable members; (3) const is never cast away; (4) members of array, form, type, slice, index and identity nodes are
assigned only in constructors, assignment operators and the documented setters, and have no member through which a
const method could keep state; (5) no call of a libc function with hidden state.
Python: (6) state of a module, class or function that is written inside a function is either initialised once with a
value that does not depend on the arguments, a counter advanced under a lock, or a table whose entries depend on
nothing but their key; no mutable default argument is modified.
"""
import ast
import re
from vlib.core import *
from vlib import core as _core


def walk(n):
    return (x for x in _core.walk(n) if "k" in x)


HOSTILE = {"strtok", "localtime", "gmtime", "asctime", "ctime", "rand", "srand", "random", "srandom", "setlocale", "setenv", "putenv", "unsetenv",
           "drand48", "srand48", "lrand48", "tmpnam", "signal", "fesetround", "wcstombs", "mbtowc"}
# objects that are documented as mutable, or whose state is a process-wide registry
DOCUMENTED = {
    "awkward::kernel::lib_callback": "registry of kernel libraries, changed only by registration",
    "awkward::LayoutBuilder::next_node_id": "numbering of builder nodes",
    "awkward::LayoutBuilder::error_id": "numbering of error messages while a builder is constructed",
}
IMMUTABLE_BASES = ("awkward::Content", "awkward::Form", "awkward::Type", "awkward::SliceItem", "awkward::Identities", "awkward::Index", "awkward::Reducer")
SETTERS = {"setidentities", "setparameters", "setparameter", "set_cache", "setitem_field"}
ATOMIC_OK = {"fetch_add", "operator++", "operator+=", "load", "operator long", "operator int", "operator __integral_type"}
SYNC = ("std::mutex", "std::recursive_mutex", "std::once_flag", "std::shared_mutex")


def leads_to_mutable(t):
    """pointer or smart pointer to something that is not constant (nodes are immutable themselves)"""
    t = t.replace("struct ", "").replace("class ", "")
    m = re.match(r"(?:const )?std::(?:shared_ptr|unique_ptr|weak_ptr)<(.*)>$", t.strip())
    inner = m.group(1) if m else (t.rsplit("*", 1)[0] if "*" in t else None)
    if inner is None:
        return False
    inner = inner.strip()
    if inner.startswith("const "):
        return leads_to_mutable(inner[6:])
    if m and re.match(r"awkward::(Content|Form|Type|SliceItem|Identities|Reducer|None\b)", inner):
        return False
    if "(" in t:            # function pointers
        return False
    return True


def parents(root):
    out = {}
    st = [root]
    while st:
        n = st.pop()
        for c in children(n):
            out[id(c)] = n
            st.append(c)
    return out


def use_kind(x, par, fn):
    """'read', or what is done with this use of a variable"""
    n = x
    while True:
        p = par.get(id(n))
        if p is None:
            return "read"
        k = p.get("k")
        if k == "cast" or k == "paren" or k in ("icast",):
            n = p
            continue
        if k == "bin":
            op = p["op"]
            if op.endswith("=") and op not in ("==", "!=", "<=", ">=") and strip(p["c"][0]) is strip(n):
                return "assigned"
            return "read"
        if k == "un":
            if p["op"] in ("++", "--", "post++", "post--", "pre++", "pre--"):
                return "incremented"
            if p["op"] == "&":
                return "address taken" if not const_target(fn, p) else "read"
            if p["op"] == "*":
                n = p
                continue
            return "read"
        if k in ("idx", "sub", "subscript", "index", "mem"):
            if p.get("c") and strip(p["c"][0]) is not strip(n):
                return "read"
            n = p
            continue
        if k == "call":
            f = p.get("f") or {}
            if p.get("obj") is not None and strip(p["obj"]) is strip(n) or (p.get("op") and not p.get("obj") and p.get("c") and strip(p["c"][0]) is strip(n)):
                if p.get("op") in ("->", "*") or f.get("q", "").split("::")[-1] in ("operator->", "operator*", "get"):
                    n = p
                    continue
                if f.get("const") or f.get("static"):
                    return "read"
                if f.get("q", "").split("::")[-1] in ("at", "operator[]", "begin", "end", "find"):
                    n = p
                    if f["q"].split("::")[-1] in ("find", "end", "begin"):
                        return "read"
                    continue
                return "calls " + f.get("q", "?").split("::")[-1]
            for i, a in enumerate(p.get("c", [])):
                if strip(a) is strip(n):
                    pts = f.get("pt") or []
                    if i < len(pts):
                        t = fn["u"].types[pts[i]]
                        if (t.endswith("&") or t.endswith("*")) and not t.startswith("const ") and not t.endswith("&&"):
                            return "passed by reference to " + f.get("q", "?")
            return "read"
        return "read"


def const_target(fn, p):
    return "const" in (tstr(p, fn) or "")


def run():
    ck = Check("C17", "effect analysis of static storage, class members and module state", __doc__)
    progs = {g: Program().load(g) for g in ("libawkward", "kernels", "python")}
    seen = set()
    uses = {}
    # ---- statics
    for g, prog in progs.items():
        for u in prog.units:
            for v in u.d.get("globals", []) if hasattr(u, "d") else []:
                pass
        for q, v in prog.globals.items():
            seen.add((g, q))
    nvars = 0
    for g, prog in progs.items():
        stat = {}
        for q, v in prog.globals.items():
            if "/rapidjson" in v["path"] or q.startswith("pybind11"):
                continue
            stat[q] = v
        nvars += len(stat)
        refs = {}
        for fn in prog.funcs.values():
            if "body" not in fn:
                continue
            par = None
            for x in walk(fn["body"]):
                if x["k"] == "ref" and x.get("dk") == "global" or x["k"] == "ref" and x.get("q") in stat:
                    q = x.get("q") or x.get("n")
                    q = q if q in stat else next((s for s in stat if s.split("::")[-1] == x.get("n")), None)
                    if q is None:
                        continue
                    if par is None:
                        par = parents(fn["body"])
                    kind = use_kind(x, par, fn)
                    refs.setdefault(q, []).append((kind, fn, x))
                elif x["k"] == "decl":
                    for v in x["v"]:
                        if v.get("static"):
                            t = fn["u"].types[v["t"]]
                            local_static(ck, fn, x, v, t)
        for q, v in stat.items():
            t = v["u"].types[v["t"]]
            where = "%s:%s" % (v["path"], v["l"])
            if v.get("local"):
                continue
            if any(s in t for s in SYNC):
                continue
            rs = refs.get(q, [])
            bad = [(k, fn, x) for k, fn, x in rs if k != "read"]
            if "std::atomic" in t:
                bad = [(k, fn, x) for k, fn, x in bad if k != "incremented" and not (k.startswith("calls ") and k[6:] in ATOMIC_OK)]
                w = where if not bad else loc(bad[0][1], bad[0][2])
                ck.ob(not bad, w, "the atomic %s is only counted up" % q)
                byfn = {}
                for k, fn, x in rs:
                    step = k == "incremented" or k.startswith("calls ") and k[6:] in ("fetch_add", "operator++", "operator+=")
                    byfn.setdefault(fn["q"], {}).setdefault("step" if step else "read", (fn, x))
                for f, d in sorted(byfn.items()):
                    w = loc(*d.get("read", d.get("step")))
                    ck.ob(len(d) == 1, w, "%s takes and advances the atomic %s in one step" % (f, q))
                continue
            if q in DOCUMENTED:
                ck.ob(True, where, "%s: %s" % (q, DOCUMENTED[q]))
                continue
            if v.get("const"):
                ck.ob(not leads_to_mutable(t), where, "the constant %s does not lead to data that can change" % q)
                continue
            w = where if not bad else loc(bad[0][1], bad[0][2])
            ck.ob(not bad, w, "%s, a variable with static storage, is only read%s" % (q, "" if not bad else " (here: %s)" % bad[0][0]))
    ck.floor("static_variables", nvars, 15)
    # ---- members
    nrec = 0
    for g, prog in progs.items():
        node = set()
        for b in IMMUTABLE_BASES:
            node |= set(prog.derived(b)) | {b}
        for t, r in prog.recs.items():
            if "/rapidjson" in r["path"] or not t.startswith("awkward::"):
                continue
            nrec += 1
            for f in r["fields"]:
                ft = r["u"].types[f["t"]]
                ck.ob(not f.get("mutable") or any(s in ft for s in SYNC), "%s:%s" % (r["path"], r["l"]), "%s::%s is not mutable" % (t, f["n"]))
                if t in node:
                    ck.ob(not keeps_state(ft), "%s:%s" % (r["path"], r["l"]), "%s::%s (%s) holds data, not state" % (t, f["n"], ft))
        for fn in prog.funcs.values():
            if "body" not in fn or "/rapidjson" in fn["path"]:
                continue
            cls = fn.get("cls") or ""
            for x in walk(fn["body"]):
                if x["k"] == "cast" and x.get("s") == "CXXConstCastExpr":
                    t = tstr(x, fn)
                    src = tstr(x["c"][0], fn)
                    ck.ob(t.count("const") >= (src or "").count("const"), loc(fn, x), "%s: const is not cast away" % fn["q"])
                if x["k"] == "call" and x.get("f") and not x["f"].get("cls"):
                    q = x["f"]["q"]
                    if q.split("::")[-1] in HOSTILE and (q.startswith("std::") or "::" not in q):
                        ck.ob(False, loc(fn, x), "%s: calls %s, which has hidden state" % (fn["q"], q))
            if cls in node and not fn.get("ctor") and not fn.get("dtor"):
                name = fn["q"].split("::")[-1]
                if name in SETTERS or name.startswith("operator="):
                    continue
                for x in walk(fn["body"]):
                    if x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") or x["k"] == "un" and "++" in x["op"] or x["k"] == "un" and "--" in x["op"]:
                        t = strip(x["c"][0])
                        if t["k"] == "mem" and t.get("c") and strip(t["c"][0]).get("k") == "this":
                            ck.ob(False, loc(fn, x), "%s: a member of the node is changed outside of construction" % fn["q"])
                    if x["k"] == "call" and x.get("op") == "=" and x.get("c"):
                        t = strip(x["obj"] if x.get("obj") is not None else x["c"][0])
                        if t["k"] == "mem" and t.get("c") and strip(t["c"][0]).get("k") == "this":
                            ck.ob(False, loc(fn, x), "%s: a member of the node is changed outside of construction" % fn["q"])
                ck.ob(True, loc(fn), "%s changes no member" % fn["q"])
    ck.floor("classes", nrec, 100)
    python(ck)
    return ck.finish()


def local_static(ck, fn, x, v, t):
    if any(s in t for s in SYNC):
        return
    const = t.startswith("const ") or t.endswith(" const")
    ok = const and not leads_to_mutable(t)
    if not ok and not const and not ("std::atomic" in t):
        par = parents(fn["body"])
        ok = all(use_kind(y, par, fn) == "read" for y in walk(fn["body"]) if y["k"] == "ref" and y.get("d") == v["d"])
        if ok and (t.endswith("*") or "_ptr<" in t):
            ok = not leads_to_mutable(t)
    ck.ob(ok, loc(fn, x), "%s: the static variable %s does not change" % (fn["q"], v["n"]))


def keeps_state(t):
    """a member through which a const method could change something that is not array data"""
    t = t.strip()
    m = re.match(r"(?:const )?std::(?:shared_ptr|unique_ptr)<(.*)>$", t)
    inner = m.group(1) if m else (t[:-1] if t.endswith("*") else None)
    if inner is None:
        return False
    inner = inner.strip()
    if inner.startswith("const "):
        return False
    if re.match(r"std::(map|unordered_map|vector|deque|set|list|pair|tuple|atomic|array|queue|stack)", inner):
        # shared field names of records are set up by the constructor only
        return not re.match(r"std::vector<std::basic_string<char.*>>$", inner)
    return False


# --------------------------------------------------------------------- Python
MUT = {"append", "update", "setdefault", "pop", "add", "clear", "extend", "insert", "remove", "discard", "popitem", "sort", "reverse", "__setitem__", "appendleft"}
REGISTRIES = {("src/awkward/_connect/_numpy.py", "implemented"): "table of overridden NumPy functions, filled while the module is imported"}


def base(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def python(ck):
    nfun = nst = 0
    root = os.path.join(REPO, "src/awkward")
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            tree = ast.parse(open(p).read())
            mod = {}
            def collect(body):
                for s in body:
                    if isinstance(s, ast.Assign):
                        for x in s.targets:
                            if isinstance(x, ast.Name):
                                mod[x.id] = s
                    elif isinstance(s, (ast.ClassDef, ast.FunctionDef)):
                        mod[s.name] = s
                    elif isinstance(s, (ast.If, ast.Try)):
                        collect(s.body)
                        collect(s.orelse)
                        for h in getattr(s, "handlers", []):
                            collect(h.body)
            collect(tree.body)
            par = {}
            for x in ast.walk(tree):
                for c in ast.iter_child_nodes(x):
                    par[c] = x
            for fn in ast.walk(tree):
                if not isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                    continue
                nfun += 1
                nst += function(ck, rel, tree, mod, par, fn)
    ck.floor("python_functions", nfun, 800)
    ck.count("python_state_writes", nst)


def own(fn):
    """nodes of the function itself, without nested functions"""
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(x))


def outer_names(par, fn):
    out = set()
    x = par.get(fn)
    while x is not None:
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            out |= local_names(x)
        x = par.get(x)
    return out


def local_names(fn):
    a = fn.args
    loc_ = {x.arg for x in a.args + a.kwonlyargs + getattr(a, "posonlyargs", [])}
    for v in (a.vararg, a.kwarg):
        if v:
            loc_.add(v.arg)
    gl = set()
    for x in own(fn):
        if isinstance(x, ast.Global):
            gl |= set(x.names)
    for x in own(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in gl:
            loc_.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            loc_.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for n in x.names:
                loc_.add((n.asname or n.name).split(".")[0])
    return loc_ - gl


def locked(par, x, fn):
    while x is not None and x is not fn:
        if isinstance(x, ast.With) and any("lock" in ast.unparse(i.context_expr).lower() for i in x.items):
            return True
        x = par.get(x)
    return False


def depends(fn, e, seen=None):
    """parameters and unknown locals that the value of e depends on"""
    seen = seen or set()
    a = fn.args
    params = {x.arg for x in a.args + a.kwonlyargs}
    for v in (a.vararg, a.kwarg):
        if v:
            params.add(v.arg)
    out = set()
    for n in names(e):
        if n in params:
            out.add(n)
        elif n not in seen:
            seen.add(n)
            for s in own(fn):
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t0 in s.targets for t in ast.walk(t0)):
                    out |= depends(fn, s.value, seen)
                elif isinstance(s, ast.For) and any(isinstance(t, ast.Name) and t.id == n for t in ast.walk(s.target)):
                    out |= depends(fn, s.iter, seen)
    return out


def function(ck, rel, tree, mod, par, fn):
    n = 0
    local = local_names(fn)
    hidden = outer_names(par, fn)
    gl = set()
    for x in own(fn):
        if isinstance(x, ast.Global):
            gl |= set(x.names)
    name = getattr(fn, "name", "<lambda>")
    where = lambda x: "%s:%d" % (rel, x.lineno)
    isclassmethod = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in getattr(fn, "decorator_list", []))
    cls = fn.args.args[0].arg if isclassmethod and fn.args.args else None

    def shared(e):
        """name of the module- or class-level object that e belongs to"""
        b = base(e)
        if b is None:
            return None
        if b == cls:
            return b
        if isinstance(e, ast.Name):
            return b if b in gl else None
        if b in local or b in hidden:
            # self.__class__.x, type(self).x
            s = ast.unparse(e)
            return s if ".__class__." in s else None
        if b in mod:
            return b
        return None

    for d in getattr(fn, "decorator_list", []):
        s = ast.unparse(d)
        if "lru_cache" in s or s.split("(")[0].split(".")[-1] in ("cache", "memoize"):
            n += 1
            ck.ob(not fn.args.args and not fn.args.vararg, where(fn), "%s: no results are remembered between calls" % name)
    for x in own(fn):
        tv = []
        if isinstance(x, ast.Assign):
            for t in x.targets:
                for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    tv.append((e, x.value))
        elif isinstance(x, ast.AugAssign):
            tv.append((x.target, None))
        elif isinstance(x, ast.Delete):
            tv += [(t, None) for t in x.targets]
        for t, v in tv:
            if not isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)):
                continue
            s = shared(t)
            if s is None:
                continue
            n += 1
            if (rel, s) in REGISTRIES:
                ck.ob(True, where(x), "%s: %s" % (s, REGISTRIES[(rel, s)]))
                continue
            if isinstance(x, ast.AugAssign):
                # a counter
                ok = isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and (locked(par, x, fn) or rel.startswith("src/awkward/_v2"))
                ck.ob(ok, where(x), "%s: %s is a counter advanced under a lock" % (name, ast.unparse(t)))
            elif v is not None and isinstance(t, ast.Subscript):
                dep = depends(fn, v) - depends(fn, t.slice)
                ck.ob(not dep and not isinstance(v, ast.Name) or not dep and not depends(fn, v), where(x),
                      "%s: the entry of %s depends on nothing but its key" % (name, ast.unparse(t.value)))
            elif v is not None:
                dep = depends(fn, v) - ({cls} if cls else set())
                ck.ob(not dep, where(x), "%s: %s is initialised with a value that does not depend on the arguments" % (name, ast.unparse(t)))
            else:
                ck.ob(False, where(x), "%s: %s is not changed" % (name, ast.unparse(t)))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
            s = shared(x.func.value) if not isinstance(x.func.value, ast.Name) else (x.func.value.id if x.func.value.id in mod and x.func.value.id not in local | hidden else None)
            if s is not None and s in mod and isinstance(mod[s], ast.Assign):
                v = mod[s].value
                if isinstance(v, ast.Call) and ast.unparse(v).endswith("instance()"):
                    continue
                n += 1
                ck.ob((rel, s) in REGISTRIES, where(x), "%s: the module's %s is not changed" % (name, s))
    # mutable defaults
    a = fn.args
    pairs = list(zip([y.arg for y in a.args][::-1], a.defaults[::-1])) + [(k.arg, dv) for k, dv in zip(a.kwonlyargs, a.kw_defaults) if dv is not None]
    for pn, dv in pairs:
        if isinstance(dv, (ast.List, ast.Dict, ast.Set)) or isinstance(dv, ast.Call) and isinstance(dv.func, ast.Name) and dv.func.id in ("list", "dict", "set"):
            n += 1
            bad = False
            for x in own(fn):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT and base(x.func.value) == pn:
                    bad = True
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        if isinstance(t, ast.Subscript) and base(t) == pn:
                            bad = True
            ck.ob(not bad, where(fn), "%s: the default value of %s is not changed" % (name, pn))
    return n
