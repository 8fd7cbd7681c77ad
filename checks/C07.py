"""C07: no C++ exception escapes the C interface, and compiled callers see every failure.

Rules.  (1) In every function with C linkage defined in libawkward, every call, allocation or throw is guarded by a
catch-all handler or cannot raise (transitively); every path through a handler returns a nonzero constant, the path
without an exception returns zero.  (2) Each function hands its own arguments, in order, to the builder method of its
name.  (3) The foreign-function declarations have the number, order and types of the exported function.  (4) Compiled
call sites pass the declared number and kinds of arguments, and the status is compared with zero and raised on.
(5) No function declared noexcept lets an exception raised by the library escape.
"""
import ast
from vlib.core import *
from vlib.cfg import single_defs
from vlib import core as _core
from vlib.pyeval import PyEval, Obj


def walk(n):
    return (x for x in _core.walk(n) if "k" in x)


# ------------------------------------------------------------------ raising
class Raises:
    """does a statement let an exception escape?  only: None = any, or explicit throws alone"""

    def __init__(self, prog, explicit):
        self.p, self.explicit, self.memo = prog, explicit, {}

    def fn(self, fn):
        k = fn.get("key") or fn["m"]
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        r = None
        for i in fn.get("inits") or []:
            if i.get("v"):
                r = r or self.node(i["v"], fn)
        r = r or self.node(fn["body"], fn)
        self.memo[k] = r
        return r

    def node(self, n, fn):
        """first unguarded raising construct below n, or None"""
        k = n.get("k")
        if k == "try":
            all_ = any("t" not in h for h in n["h"])
            r = None if all_ else self.node(n["body"], fn)
            for h in n["h"]:
                r = r or self.node(h["body"], fn)
            return r
        if k == "lambda":
            return None
        if k == "throw":
            return n
        if k == "call" or k == "ctor":
            f = n.get("f")
            if f is None or not f.get("ne"):
                lam = self.lambda_of(n, fn)
                if lam is not None:
                    r = self.node(lam["body"], fn)
                    if r:
                        return n
                else:
                    g = self.p.callee(n, fn["u"]) if f else None
                    if g is not None and "body" in g and not (f.get("virt") and n.get("obj") is not None and not self.explicit):
                        if self.fn(g):
                            return n
                        if f.get("virt"):
                            for o in self.p.overriders().get(f["m"], []) if self.explicit else []:
                                o = self.p.funcs.get(o, None) if isinstance(o, str) else o
                                if o and "body" in o and not o.get("ne") and self.fn(o):
                                    return n
                    elif not self.explicit and (k == "call" or (f and not self.harmless_ctor(f))):
                        return n
        if k == "new" and not self.explicit:
            return n
        for c in children(n):
            r = self.node(c, fn)
            if r:
                return r
        return None

    def lambda_of(self, n, fn):
        o = n.get("obj")
        if o is None:
            return None
        o = strip(o)
        if o.get("k") == "lambda":
            return o
        if o.get("k") == "ref" and o.get("d"):
            d = single_defs(fn).get(o["d"])
            d = strip(d) if d else None
            if d and d.get("k") == "lambda":
                return d
        return None

    def harmless_ctor(self, f):
        return f["q"].split("::")[-1] in ("unique_ptr", "nullopt_t")


def constant(e, env):
    e = strip(e)
    if e["k"] in ("int", "bool"):
        return int(e["v"])
    if e["k"] == "ref":
        if e.get("dk") == "enum":
            return e.get("v")
        return env.get(e.get("d"))
    if e["k"] == "cond":
        a, b = constant(e["c"][1], env), constant(e["c"][2], env)
        return a if a == b else None
    return None


class Status:
    """constant status values on every path, with and without an exception"""

    def __init__(self, fn, helper=None):
        self.fn, self.out, self.helper = fn, [], helper      # (caught, value, node)
        ends = self.stmt(fn["body"], [({}, False)])
        self.falls = [c for _, c in ends]

    def stmt(self, s, states):
        k = s.get("k")
        if k == "block":
            for c in s["c"]:
                states = self.stmt(c, states)
            return states
        if k == "return":
            for env, caught in states:
                v = s.get("v")
                c = constant(v, env) if v else None
                if c is None and v and self.helper and self.helper(v):
                    c = "helper"
                self.out.append((caught, c, s))
            return []
        if k == "if":
            return self.stmt(s["then"], self.eff(s["cond"], states)) + (self.stmt(s["else"], states) if s.get("else") else states)
        if k == "try":
            after = self.stmt(s["body"], states)
            wr = self.written(s["body"])
            res = list(after)
            for h in s["h"]:
                st = [({d: (v if d not in wr else None) for d, v in env.items()}, True) for env, _ in states]
                # a value written in the try block may or may not have been
                res += self.stmt(h["body"], st)
            return res
        if k in ("while", "for", "do", "forrange", "switch"):
            wr = self.written(s)
            st = [({d: (v if d not in wr else None) for d, v in env.items()}, c) for env, c in states]
            for c in children(s):
                if c.get("k") in ("block", "return", "if", "try"):
                    self.stmt(c, st)
            return st
        if k == "decl":
            out = []
            for env, c in states:
                env = dict(env)
                for v in s["v"]:
                    env[v["d"]] = constant(v["init"], env) if v.get("init") else None
                out.append((env, c))
            return out
        if k == "throw":
            return []
        return self.eff(s, states)

    def written(self, s):
        out = set()
        for x in walk(s):
            if x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                t = strip(x["c"][0])
                if t["k"] == "ref":
                    out.add(t["d"])
        return out

    def eff(self, s, states):
        out = []
        for env, c in states:
            for x in walk(s):
                if x["k"] == "bin" and x["op"] == "=":
                    t = strip(x["c"][0])
                    if t["k"] == "ref":
                        env = dict(env)
                        env[t["d"]] = constant(x["c"][1], env)
            out.append((env, c))
        return out


CT = {"c_uint8": ("u", 1), "c_bool": ("u", 1), "c_int8": ("i", 1), "c_ubyte": ("u", 1), "c_byte": ("i", 1),
      "c_uint16": ("u", 2), "c_int16": ("i", 2), "c_uint32": ("u", 4), "c_int32": ("i", 4), "c_uint64": ("u", 8),
      "c_int64": ("i", 8), "c_longlong": ("i", 8), "c_ulonglong": ("u", 8), "c_long": ("i", 8), "c_ulong": ("u", 8), "c_int": ("i", 4), "c_uint": ("u", 4),
      "c_size_t": ("u", 8), "c_ssize_t": ("i", 8), "c_float": ("f", 4), "c_double": ("f", 8)}
CXX = {"bool": ("u", 1), "unsigned char": ("u", 1), "signed char": ("i", 1), "char": ("i", 1), "unsigned short": ("u", 2), "short": ("i", 2),
       "unsigned int": ("u", 4), "int": ("i", 4), "unsigned long": ("u", 8), "long": ("i", 8), "unsigned long long": ("u", 8), "long long": ("i", 8),
       "float": ("f", 4), "double": ("f", 8)}


def ckind(t):
    t = t.replace("const ", "").replace(" const", "").strip()
    if t.endswith("*"):
        inner = CXX.get(t[:-1].strip())
        return ("p",) + (inner or ())
    return CXX.get(t)


def pkind(v):
    """kind of a ctypes type value"""
    if isinstance(v, Obj) and v.path and v.path[0] == "ctypes":
        n = v.path[1]
        if n in ("c_voidp", "c_void_p", "c_char_p"):
            return ("p",)
        if n == "POINTER" and v.args is not None:
            return ("p",) + (pkind(v.args[0]) or ())
        return CT.get(n)
    return None


def compatible(a, b):
    if a is None or b is None:
        return a == b
    if a[0] == "p" and b[0] == "p":
        return len(a) == 1 or len(b) == 1 or a == b
    return a == b


# names of exported functions whose builder method has another name
def method_names(name):
    base = name.split("ArrayBuilder_")[-1]
    out = {base}
    if base.endswith("_length"):
        out.add(base[:-len("_length")])
    return out


def run():
    ck = Check("C07", "exception-escape and status dataflow over the clang AST; abstract evaluation of the ctypes declarations and Numba lowerings", __doc__)
    prog = Program().load("libawkward")
    anyexc = Raises(prog, False)
    exported = {}
    for fn in prog.funcs.values():
        if fn.get("externc") and "body" in fn and fn["path"].startswith("src/libawkward"):
            exported[fn["n"]] = fn
    for name, fn in sorted(exported.items()):
        r = anyexc.fn(fn)
        ck.ob(r is None, loc(fn, r or None), "%s: no exception can leave the function" % name)
        rt = fn["u"].types[fn["rt"]]
        if rt == "void":
            continue
        helper = lambda v: strip(v).get("k") == "call" and status_helper(prog, fn, strip(v), ck)
        st = Status(fn, helper)
        ok = [c for caught, c, n in st.out if not caught]
        for caught, c, n in st.out:
            if caught:
                ck.ob(c is None or c == "helper" or c != 0, loc(fn, n), "%s: an exception gives a nonzero status" % name)
        ck.ob(not st.falls, loc(fn), "%s: every path returns a status" % name)
        ck.ob(any(c in (0, None, "helper") for c in ok), loc(fn), "%s: success gives the status zero" % name)
        # forwarding
        forward(ck, prog, fn, name)
    ck.floor("exported_functions", len(exported), 20)

    # (5)
    thrown = Raises(prog, True)
    n = 0
    for fn in prog.funcs.values():
        if fn.get("ne") and "body" in fn:
            n += 1
            r = thrown.fn(fn)
            ck.ob(r is None, loc(fn, r or None), "%s is declared noexcept and raises nothing itself" % fn["q"])
    ck.count("noexcept_functions", n)

    decls = declarations(ck, exported)
    numba(ck, decls)
    return ck.finish()


def status_helper(prog, fn, call, ck):
    """a call of a helper that itself turns exceptions into a nonzero status"""
    g = prog.callee(call, fn["u"]) if call.get("f") else None
    if g is None or "body" not in g:
        return False
    st = Status(g)
    return all(c is None or c != 0 for caught, c, n in st.out if caught) and not st.falls


def forward(ck, prog, fn, name):
    ps = [p["d"] for p in fn["ps"]]
    defs = single_defs(fn)

    def root(e):
        e = strip(e)
        seen = 0
        while seen < 10:
            seen += 1
            if e["k"] == "ref" and e.get("d") in ps:
                return e["d"]
            if e["k"] == "ref" and e.get("d") in defs and defs[e["d"]] is not None:
                e = strip(defs[e["d"]])
            elif e["k"] == "un" and e["op"] in ("*", "&"):
                e = strip(e["c"][0])
            elif e["k"] == "ctor" and len(e.get("c", [])) >= 1:
                e = strip(e["c"][0])
            else:
                return None
        return None

    calls = []
    for x in walk(fn["body"]):
        if x["k"] == "call" and x.get("f") and (x["f"].get("cls") or "").split("::")[-1] == "ArrayBuilder" and x.get("obj") is not None:
            calls.append(x)
    if not calls:
        return
    ck.ob(len(calls) == 1, loc(fn), "%s calls one builder method" % name)
    x = calls[0]
    m = x["f"]["q"].split("::")[-1]
    overl = method_names(name)
    known = any((g.get("cls") or "").split("::")[-1] == "ArrayBuilder" and g["q"].split("::")[-1] in overl for g in prog.funcs.values())
    if known:
        ck.ob(m in overl, loc(fn, x), "%s calls the builder method of its name (it calls %s)" % (name, m))
    got = [root(a) for a in x["c"] if a.get("k") != "defarg"]
    if None not in got:
        scal = [p for p in ps[1:] if not nonconst_ptr(fn, p)]
        ck.ob(got == scal, loc(fn, x), "%s hands over its arguments in order" % name)
    for i, p in enumerate(fn["ps"]):
        if nonconst_ptr(fn, p["d"]) and i > 0:
            # an output: written with the method's result
            ok = False
            for y in walk(fn["body"]):
                if y["k"] == "bin" and y["op"] == "=" and root(y["c"][0]) == p["d"]:
                    v = strip(y["c"][1])
                    if v["k"] == "ref" and defs.get(v.get("d")):
                        v = strip(defs[v["d"]])
                    ok = ok or v is x or any(z is x for z in walk(v))
            ck.ob(ok, loc(fn), "%s stores the method's result in %s" % (name, p["n"]))


def nonconst_ptr(fn, d):
    for p in fn["ps"]:
        if p["d"] == d:
            t = fn["u"].types[p["t"]]
            return t.endswith("*") and "const" not in t and "void" not in t
    return False


# -------------------------------------------------------------- declarations
def declarations(ck, exported):
    path = os.path.join(REPO, "src/awkward/_libawkward.py")
    rel = "src/awkward/_libawkward.py"
    ev = PyEval(path)
    ev.run()
    out = {}
    n = 0
    for var, o in sorted(ev.env.items()):
        if not (isinstance(o, Obj) and o.attrs is not None and o.path and len(o.path) >= 2 and o.path[-1].startswith("awkward_")):
            continue
        sym = o.path[-1]
        fn = exported.get(sym)
        ck.ob(fn is not None, "%s:%s" % (rel, o.line), "%s is exported by the library" % sym)
        if fn is None:
            continue
        if var.startswith("ArrayBuilder_"):
            ck.ob(sym == "awkward_" + var, "%s:%s" % (rel, o.line), "%s is bound to the function of its name" % var)
        at, rt = o.attrs.get("argtypes"), o.attrs.get("restype")
        n += 1
        ck.ob(at is not None, "%s:%s" % (rel, o.line), "%s declares its argument types" % var)
        if isinstance(at, (list, tuple)):
            want = [ckind(fn["u"].types[p["t"]]) for p in fn["ps"]]
            got = [pkind(a) for a in at]
            if None not in got:
                ck.ob(len(got) == len(want) and all(compatible(a, b) for a, b in zip(got, want)), "%s:%s" % (rel, o.line),
                      "%s: argument types agree with the exported function" % var)
                out[var] = got
        # ctypes' default result type is int, four bytes wide
        want = ckind(fn["u"].types[fn["rt"]])
        got = pkind(rt) if rt is not None else ("i", 4)
        if rt is None or got is not None:
            ck.ob(got == want, "%s:%s" % (rel, o.line), "%s: result type agrees with the exported function" % var)
    ck.floor("foreign_function_declarations", n, 15)
    return out


# --------------------------------------------------------------------- Numba
def dotted(e):
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        out.append(e.id)
        return out[::-1]
    return None


def numba(ck, decls):
    rel = "src/awkward/_connect/_numba/builder.py"
    tree = ast.parse(open(os.path.join(REPO, rel)).read())
    funcs = {f.name: f for f in ast.walk(tree) if isinstance(f, ast.FunctionDef)}
    pos = lambda n: "%s:%d" % (rel, n.lineno)

    # functions that call through a function pointer
    callers = {}
    for f in funcs.values():
        for c in ast.walk(f):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "call_function_pointer":
                callers.setdefault(f.name, []).append(c)
    ck.floor("compiled_call_helpers", len(callers), 1)
    for name, cs in callers.items():
        f = funcs[name]
        for c in cs:
            ck.ob(checked(f, c), pos(c), "%s: the status of the call is compared with zero and a failure raised" % name)
    # which functions pass a foreign function on to such a helper, and how
    roles = {}
    for name in callers:
        f = funcs[name]
        ps = [a.arg for a in f.args.args]
        c = callers[name][0]
        fcn = args = None
        args = c.args[2].id if len(c.args) > 2 and isinstance(c.args[2], ast.Name) and c.args[2].id in ps else None
        for y in ast.walk(f):
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "get_pointer" and y.args and isinstance(y.args[0], ast.Name):
                fcn = y.args[0].id
        if fcn in ps and args in ps:
            roles[name] = (ps.index(fcn), ps.index(args))
    n = 0
    seen = set()
    for f in funcs.values():
        used = {}
        for c in ast.walk(f):
            if not isinstance(c, ast.Call):
                continue
            nm = c.func.id if isinstance(c.func, ast.Name) else None
            if nm in roles:
                fi, ai = roles[nm]
                if max(fi, ai) >= len(c.args):
                    continue
                fnexp = c.args[fi]
                d = dotted(fnexp)
                if isinstance(fnexp, ast.Name):
                    d = dotted(defof(f, fnexp)) if defof(f, fnexp) is not None else None
                if not d or "_libawkward" not in d:
                    continue
                seen.add(id(fnexp))
                n += 1
                target = d[-1]
                ck.ob(target in decls, pos(c), "%s: %s is declared" % (f.name, target))
                a = c.args[ai]
                if isinstance(a, ast.Name) and defof(f, a) is not None:
                    a = defof(f, a)
                if target in decls and isinstance(a, (ast.Tuple, ast.List)):
                    ck.ob(len(a.elts) == len(decls[target]), pos(c), "%s: %s is called with %d arguments" % (f.name, target, len(decls[target])))
                    for e, k in zip(a.elts, decls[target]):
                        for g in kinds(f, e):
                            if g is not None:
                                ck.ob(compat_arg(g, k), pos(e), "%s: argument of %s has the declared kind" % (f.name, target))
                used.setdefault(target, c)
        # the lowering of a method calls the function of that method
        for dec in f.decorator_list:
            if isinstance(dec, ast.Call) and (dotted(dec.func) or [""])[-1] == "lower_builtin" and dec.args:
                a = dec.args[0]
                m = a.value if isinstance(a, ast.Constant) else (a.id if isinstance(a, ast.Name) else None)
                if m in ("append", "extend") or m is None or not used:
                    continue
                base = m.replace("_", "").replace("len", "length")
                ok = all(t.split("ArrayBuilder_")[-1].split("_")[0] == base for t in used)
                ck.ob(ok, pos(f), "the lowering of %s calls the function for it (%s)" % (m, ", ".join(sorted(used))))
    ck.floor("compiled_call_sites", n, 15)
    # no foreign function is used any other way
    for x in ast.walk(tree):
        d = dotted(x) if isinstance(x, ast.Attribute) else None
        if d and "_libawkward" in d and d[-1].startswith("ArrayBuilder_") and id(x) not in seen:
            inassign = any(isinstance(y, ast.Assign) and y.value is x for y in ast.walk(tree))
            inarg = any(isinstance(y, ast.Call) and x in y.args for y in ast.walk(tree))
            ck.ob(inassign or inarg, pos(x), "%s is called only through the checking helper" % d[-1])


def defof(f, name):
    ds = [s.value for s in ast.walk(f) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name.id]
    return ds[0] if len(ds) == 1 else None


def kinds(f, e):
    """kinds an LLVM value expression can have; None = unknown"""
    if isinstance(e, ast.Name):
        ds = [s.value for s in ast.walk(f) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == e.id]
        # the last conversion wins in straight-line code; alternatives in branches all have to agree
        top = [s.value for s in f.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == e.id]
        if len(top) == len(ds) and top:
            ds = top[-1:]
        return [k for d in ds for k in (kinds(f, d) if not (isinstance(d, ast.Name)) else [None])]
    if isinstance(e, ast.Attribute):
        return [("p",)] if e.attr in ("rawptr",) else [None]
    if isinstance(e, ast.Call):
        n = (dotted(e.func) or [""])[-1]
        if n == "castint" and len(e.args) >= 4:
            return [numba_type(e.args[3])]
        if n in ("sitofp", "uitofp", "fpext", "fptrunc", "zext", "sext", "trunc", "inttoptr", "bitcast") and len(e.args) >= 2:
            if n in ("inttoptr",):
                return [("p",)]
            t = e.args[1]
            if isinstance(t, ast.Call) and (dotted(t.func) or [""])[-1] == "get_value_type" and t.args:
                return [numba_type(t.args[0])]
            return [None]
        if n == "globalstring":
            return [("p",)]
        if n == "alloca_once" and len(e.args) >= 2:
            t = e.args[1]
            if isinstance(t, ast.Call) and (dotted(t.func) or [""])[-1] == "get_value_type" and t.args:
                k = numba_type(t.args[0])
                return [("p",) + k if k else None]
    return [None]


def numba_type(e):
    n = (dotted(e) or [""])[-1]
    if n == "voidptr":
        return ("p",)
    for p, k in (("uint", "u"), ("int", "i"), ("float", "f")):
        if n.startswith(p) and n[len(p):].isdigit():
            return (k, int(n[len(p):]) // 8)
    if n == "intp":
        return ("i", 8)
    return None


def compat_arg(g, k):
    if g[0] in "ui" and k[0] in "ui":
        return g[1] == k[1]
    return compatible(g, k)


def checked(f, call):
    """status of call != 0  =>  return_user_exc"""
    names = set()
    for s in ast.walk(f):
        if isinstance(s, ast.Assign) and s.value is call:
            names |= {t.id for t in s.targets if isinstance(t, ast.Name)}

    def isstatus(e):
        return e is call or isinstance(e, ast.Name) and e.id in names

    def iszero(e):
        if isinstance(e, ast.Name) and defof(f, e) is not None:
            e = defof(f, e)
        return isinstance(e, ast.Call) and any(isinstance(a, ast.Constant) and a.value == 0 for a in e.args) and \
            not any(isinstance(a, ast.Constant) and a.value not in (0, None) for a in e.args) or isinstance(e, ast.Constant) and e.value == 0

    def failed(e):
        """+1 if e is true exactly on failure, -1 on success"""
        if isinstance(e, ast.Name) and defof(f, e) is not None:
            e = defof(f, e)
        if isinstance(e, ast.Call):
            n = (dotted(e.func) or [""])[-1]
            if n.startswith("icmp") and len(e.args) == 3 and isinstance(e.args[0], ast.Constant):
                op = e.args[0].value
                a, b = e.args[1], e.args[2]
                if isstatus(b) and iszero(a):
                    a, b = b, a
                    op = {"<": ">", ">": "<"}.get(op, op)
                if isstatus(a) and iszero(b):
                    if op == "!=" or op == ">" and n == "icmp_unsigned":
                        return 1
                    if op == "==":
                        return -1
            if n in ("is_not_null", "is_true") and any(isstatus(a) for a in e.args):
                return 1
            if n in ("is_null",) and any(isstatus(a) for a in e.args):
                return -1
            if n == "not_" and e.args:
                return -failed(e.args[0])
        return 0

    def raises(body):
        return any(isinstance(y, ast.Call) and (dotted(y.func) or [""])[-1] in ("return_user_exc", "return_errcode_propagate") for s in body for y in ast.walk(s))

    for w in ast.walk(f):
        if isinstance(w, ast.With):
            for it in w.items:
                e = it.context_expr
                if isinstance(e, ast.Call):
                    n = (dotted(e.func) or [""])[-1]
                    if n == "if_then" and e.args and failed(e.args[0]) == 1 and raises(w.body):
                        return True
                    if n == "if_unlikely" and e.args and failed(e.args[0]) == 1 and raises(w.body):
                        return True
                    if n == "if_else" and e.args and failed(e.args[0]) in (1, -1) and isinstance(it.optional_vars, ast.Tuple):
                        want = it.optional_vars.elts[0 if failed(e.args[0]) == 1 else 1].id
                        for w2 in w.body:
                            if isinstance(w2, ast.With) and any(isinstance(i.context_expr, ast.Name) and i.context_expr.id == want for i in w2.items) and raises(w2.body):
                                return True
    # Python-level test of nothing: no
    return False
