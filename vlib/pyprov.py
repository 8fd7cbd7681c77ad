"""Storage provenance for the Python layer.

Abstract interpretation of each function: every expression gets the set of
places its NumPy buffer (or node) may come from.  Values are (S, E): S the
origins of the object itself, E the origins of the elements of a Python
container built here (None for anything else).

Origins: 'fresh' (allocated by this function), ('param', i), 'existing' (a
buffer or node reached through an argument, self or a global), 'unknown'."""
import ast
import os

VIEW = {"asarray", "ascontiguousarray", "asanyarray", "asfortranarray", "view", "reshape", "ravel", "squeeze", "transpose",
        "swapaxes", "broadcast_to", "atleast_1d", "frombuffer", "from_dlpack", "to_numpy", "to_layout", "from_numpy", "raw",
        "broadcast_arrays", "getattr", "require", "array_split", "split", "diagonal", "newbyteorder", "filled", "asfarray"}
FRESH = {"empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like", "full_like", "arange", "copy", "deepcopy",
         "deep_copy", "cumsum", "unique", "argsort", "where", "nonzero", "repeat", "concatenate", "hstack", "vstack", "stack",
         "add", "subtract", "multiply", "maximum", "minimum", "logical_not", "logical_and", "logical_or", "bitwise_or",
         "bitwise_and", "count_nonzero", "tolist", "tostring", "tobytes", "unpackbits", "packbits", "isnan", "isinf", "len",
         "int", "str", "bool", "float", "sum", "max", "min", "any", "all", "abs", "range", "type", "isinstance", "sorted",
         "parameters", "keys", "items", "values", "getvalue", "join", "split", "format", "frame", "meshgrid", "searchsorted",
         "tile", "sort", "invert", "equal", "not_equal", "less", "greater", "floor", "ceil", "diff"}
INPLACE = {"fill", "itemset", "put", "setfield"}            # x.fill(v)
INPLACE_FN = {"copyto", "place", "putmask", "put", "fill_diagonal", "shuffle"}  # np.copyto(x, ..)
NODESET = {"setparameter", "setidentities"}
NODEATTR = {"identities", "parameters"}
FRESHATTR = {"parameters", "contents", "shape", "dtype", "strides", "purelist_parameters", "form", "keys"}
COPYCALLS = {"array": True, "astype": True, "nan_to_num": True}   # copy unless copy=False


def isexisting(s):
    return any(o == "existing" or isinstance(o, tuple) for o in s)


def V(s, e=None):
    return (frozenset(s), None if e is None else frozenset(e))


F = V(["fresh"])
U = V(["unknown"])


def join(a, b):
    e = None if a[1] is None and b[1] is None else (a[1] or frozenset()) | (b[1] or frozenset())
    return (a[0] | b[0], e)


def name_of(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


class Func:
    def __init__(self, mod, node, parent, cls):
        self.mod, self.node, self.parent, self.cls = mod, node, parent, cls
        a = node.args
        self.params = [x.arg for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs]
        if a.vararg:
            self.params.append(a.vararg.arg)
        if a.kwarg:
            self.params.append(a.kwarg.arg)
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.qual = (parent.qual + "." if parent else (cls + "." if cls else "")) + self.name
        self.env = {}            # final environment, for closures
        self.pwrites = {}        # param index -> (line, text)
        self.ret = None
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None


class Module:
    def __init__(self, path, rel):
        self.rel = rel
        self.tree = ast.parse(open(path, encoding="utf8").read())
        self.funcs = []
        self.collect(self.tree, None, None)
        self.byname = {}
        for f in self.funcs:
            self.byname.setdefault(f.name, []).append(f)
        self.bynode = {f.node: f for f in self.funcs}

    def collect(self, node, parent, cls):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                f = Func(self, c, parent, cls)
                self.funcs.append(f)
                self.collect(c, f, cls)
            elif isinstance(c, ast.ClassDef):
                self.collect(c, parent, c.name)
            else:
                self.collect(c, parent, cls)


class Analysis:
    """runs over one module; self.writes: list of (func, line, text, kind, origins)"""

    def __init__(self, mod):
        self.mod = mod
        for _ in range(4):
            self.writes = []
            self.called = set()
            self.sites = 0
            before = [(dict(f.pwrites), f.ret) for f in mod.funcs]
            for f in mod.funcs:
                self.run(f)
            if before == [(dict(f.pwrites), f.ret) for f in mod.funcs]:
                break

    def run(self, f):
        env = {}
        if f.parent is not None:
            env.update({k: (frozenset("existing" if isinstance(o, tuple) else o for o in v[0]), v[1]) for k, v in f.parent.env.items()})
        for i, p in enumerate(f.params):
            if p == f.vararg or p == f.kwarg:
                env[p] = V(["fresh"], [("param", i)])
            else:
                env[p] = V([("param", i)])
        self.f = f
        f.env = None
        self.rets = None
        if isinstance(f.node, ast.Lambda):
            self.rets = self.ev(f.node.body, env)
        else:
            env = self.block(f.node.body, env)
        f.env = self.merge(f.env, env) or {}
        f.ret = self.rets

    # ---------------------------------------------------------- statements
    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: (join(a[k], b[k]) if k in a and k in b else a.get(k, b.get(k))) for k in set(a) | set(b)}

    def block(self, stmts, env):
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global,
                          ast.Nonlocal)):
            if isinstance(s, ast.FunctionDef):
                env = dict(env)
                env[s.name] = V(["unknown"])
                cur = self.f
                g = self.mod.bynode.get(s)
                if g is not None:
                    cur.env = self.merge(cur.env, env)
            return env
        if isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value is not None else F
            self.rets = v if self.rets is None else join(self.rets, v)
            self.f.env = self.merge(self.f.env, env)
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            self.pend = self.merge(getattr(self, "pend", None), env)
            return None
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return env
        if isinstance(s, ast.Assign):
            env = dict(env)
            if (len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple)
                    and len(s.targets[0].elts) == len(s.value.elts)):
                vs = [self.ev(e, env) for e in s.value.elts]
                for t, v in zip(s.targets[0].elts, vs):
                    self.assign(t, v, env, s)
                return env
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s)
            return env
        if isinstance(s, ast.AnnAssign):
            env = dict(env)
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s)
            return env
        if isinstance(s, ast.AugAssign):
            env = dict(env)
            self.ev(s.value, env)
            if isinstance(s.target, ast.Name):
                v = env.get(s.target.id, U)
                if v[1] is None and self.arrayish(s.target.id):
                    self.write(v, s, "augmented assignment")
            elif isinstance(s.target, ast.Subscript):
                self.write(self.ev(s.target.value, env), s, "augmented element store")
            return env
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            if self.onceflag(s):
                return self.block(s.body, dict(env))
            return self.merge(self.block(s.body, dict(env)), self.block(s.orelse, dict(env)))
        if isinstance(s, (ast.For, ast.While)):
            old = getattr(self, "pend", None)
            cur = dict(env)
            for _ in range(3):
                self.pend = None
                if isinstance(s, ast.For):
                    it = self.ev(s.iter, cur)
                    e2 = dict(cur)
                    self.assign(s.target, self.elem(it), e2, s, loop=True)
                else:
                    self.ev(s.test, cur)
                    e2 = dict(cur)
                out = self.block(s.body, e2)
                out = self.merge(out, self.pend)
                nxt = self.merge(cur, out)
                if nxt == cur:
                    break
                cur = nxt
            self.pend = old
            if s.orelse:
                return self.block(s.orelse, cur)
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value is True:
                return cur
            return cur
        if isinstance(s, ast.With):
            env = dict(env)
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, U, env, s)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            out = self.block(s.body, dict(env))
            start = self.merge(env, out)
            if s.orelse and out is not None:
                out = self.block(s.orelse, out)
            for h in s.handlers:
                out = self.merge(out, self.block(h.body, dict(start)))
            if s.finalbody:
                out = self.block(s.finalbody, out if out is not None else start)
            return out
        return env

    def onceflag(self, s):
        """'if not done: done = True; x = copy of x' -- afterwards the body has been executed"""
        t = s.test
        if s.orelse or not (isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Name)):
            return False
        n = t.operand.id
        own = {id(x) for b in s.body for x in ast.walk(b)}
        sets = [x for x in ast.walk(self.f.node) if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == n for y in x.targets)]
        if n in self.f.params or not any(isinstance(x.value, ast.Constant) and x.value.value is True and id(x) in own for x in sets):
            return False
        return all(id(x) in own or (isinstance(x.value, ast.Constant) and x.value.value is False) for x in sets)

    def arrayish(self, n):
        """the name is subscripted or handed to a NumPy function somewhere: an augmented
        assignment then works in place"""
        for x in ast.walk(self.f.node):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == n:
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                if x.func.value.id in ("nplike", "numpy", "np") and any(isinstance(a, ast.Name) and a.id == n for a in x.args):
                    return True
        return False

    def elem(self, v):
        if v[1] is not None:
            return (v[1], None)
        return v

    def assign(self, t, v, env, s, loop=False):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x, self.elem(v), env, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            if b[1] is not None:
                if isinstance(t.value, ast.Name):
                    env[t.value.id] = (b[0], b[1] | v[0])
                if isexisting(b[0]):
                    self.write(b, s, "item store")
            else:
                self.write(b, s, "element store")
        elif isinstance(t, ast.Attribute):
            if t.attr in NODEATTR:
                self.nodewrite(t.value, env, s, "assignment to ." + t.attr)

    # --------------------------------------------------------- write sites
    def write(self, v, node, kind):
        self.sites += 1
        S = v[0]
        if not (isinstance(node, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and "np" not in S):
            S = S | {"sure"}
        self.record(S, node, kind)

    def record(self, origins, node, kind):
        for o in origins:
            if isinstance(o, tuple):
                old = self.f.pwrites.get(o[1])
                if old is None or (not old[2] and "sure" in origins):
                    self.f.pwrites[o[1]] = (node.lineno, kind, "sure" in origins)
        self.writes.append((self.f, node.lineno, kind, origins))

    def nodewrite(self, recv, env, node, kind):
        self.sites += 1
        v = self.ev(recv, env)
        self.record(v[0] | {"sure"}, node, kind)

    # --------------------------------------------------------- expressions
    def ev(self, e, env):
        if e is None or isinstance(e, ast.Constant):
            return F
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            f = self.f.parent
            while f is not None:
                if e.id in f.env:
                    v = f.env[e.id]
                    return (frozenset("existing" if isinstance(o, tuple) else o for o in v[0]), v[1])
                f = f.parent
            return V(["unknown"])
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value, env)
            if e.attr in FRESHATTR:
                return V(["fresh"], ["existing"]) if e.attr == "contents" and isexisting(v[0]) else F
            if any(isinstance(o, tuple) for o in v[0]):
                return (frozenset("existing" if isinstance(o, tuple) else o for o in v[0]), None)
            return (v[0], None)
        if isinstance(e, (ast.BinOp, ast.UnaryOp, ast.Compare)):
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, env)
            return F
        if isinstance(e, ast.BoolOp):
            v = self.ev(e.values[0], env)
            for x in e.values[1:]:
                v = join(v, self.ev(x, env))
            return v
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return join(self.ev(e.body, env), self.ev(e.orelse, env))
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            E = frozenset()
            for x in e.elts:
                E |= self.ev(x, env)[0]
            return (F[0], E)
        if isinstance(e, ast.Dict):
            E = frozenset()
            for x in e.values:
                E |= self.ev(x, env)[0]
            return (F[0], E)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env)
            for g in e.generators:
                self.assign(g.target, self.elem(self.ev(g.iter, env2)), env2, e)
                for c in g.ifs:
                    self.ev(c, env2)
            v = self.ev(e.value if isinstance(e, ast.DictComp) else e.elt, env2)
            return (F[0], v[0])
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, env)
            self.ev(e.slice, env)
            if v[1] is not None:
                if isinstance(e.slice, ast.Slice):
                    return (F[0], v[1])
                return (v[1], None)
            # fancy indexing copies; only slices, integers and unknown indices give views
            i = e.slice
            if isinstance(i, (ast.Compare, ast.List)) or (isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.Invert)):
                return F
            if "np" in v[0] and isinstance(i, (ast.Name, ast.Call, ast.Attribute, ast.BinOp)):
                return F
            return v
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env)
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x, env)
            return F
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Lambda):
            return U
        return U

    def call(self, e, env):
        n = name_of(e.func)
        args = [self.ev(a, env) for a in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        recv = None
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, env)
        modcall = isinstance(e.func, ast.Attribute) and self.ismodule(e.func.value)
        # writes
        if "out" in kw and not self.inplace_operator(e):
            v = kw["out"]
            self.write(v if v[1] is None else (v[1], None), e, "out= of %s" % n)
        if n in INPLACE and recv is not None and not modcall:
            self.write(recv, e, ".%s()" % n)
        if n == "sort" and recv is not None and not modcall and not e.args and recv[1] is None and self.isnumpy(e.func.value):
            self.write(recv, e, ".sort() in place")
        if n in INPLACE_FN and modcall and args:
            self.write(args[0], e, "%s()" % n)
        if n == "setflags" and recv is not None:
            self.write(recv, e, ".setflags()")
        if n in NODESET and isinstance(e.func, ast.Attribute):
            self.nodewrite(e.func.value, env, e, ".%s()" % n)
        if n == "nan_to_num" and args and self.falsekw(e, "copy"):
            self.write(args[0], e, "nan_to_num(copy=False)")
        # functions of this module: parameter writes
        target = self.resolve(e.func)
        if target is not None:
            shift = 1 if target.cls and not target.parent and isinstance(e.func, ast.Attribute) and target.params[:1] == ["self"] else 0
            sub = {}
            for i, a in enumerate(args):
                if not isinstance(e.args[i], ast.Starred):
                    sub[i + shift] = a
            for k, a in kw.items():
                if k in target.params:
                    sub[target.params.index(k)] = a
            self.called.add(target)
            for i, (line, kind, sure) in target.pwrites.items():
                if i in sub and (sub[i][1] is None or isexisting(sub[i][0])):
                    self.sites += 1
                    k = kind.split(" in ")[0]
                    self.record(sub[i][0] | ({"sure"} if sure or "np" in sub[i][0] else set()), e, "%s in %s()" % (k, target.name))
            if target.ret is not None:
                S = frozenset()
                for o in target.ret[0]:
                    if isinstance(o, tuple):
                        S |= sub[o[1]][0] if o[1] in sub else frozenset(["unknown"])
                    else:
                        S |= {o if o != "existing" else "unknown"}
                E = target.ret[1]
                if E is not None:
                    E2 = frozenset()
                    for o in E:
                        if isinstance(o, tuple):
                            E2 |= sub[o[1]][0] if o[1] in sub else frozenset(["unknown"])
                        else:
                            E2 |= {o if o != "existing" else "unknown"}
                    E = E2
                return (S, E)
            return U
        # results
        if n in COPYCALLS:
            if self.falsekw(e, "copy"):
                v = recv if not modcall and recv is not None else args[0] if args else U
                return (v[0] | {"np"}, v[1])
            return F
        if n in ("list", "tuple", "dict", "set", "zip", "enumerate", "reversed", "iter", "next", "map", "filter"):
            E = frozenset()
            for a in args:
                E |= a[1] if a[1] is not None else frozenset(o for o in a[0] if o != "fresh")
            return (F[0], E) if E else F if n not in ("list", "dict", "tuple", "set") else (F[0], frozenset())
        if n in VIEW:
            if modcall or recv is None:
                v = args[0] if args else U
                return (v[0] | {"np"}, v[1]) if n != "to_layout" and n != "getattr" else v
            return (recv[0] | {"np"}, None)
        if n in FRESH:
            return F
        if recv is not None and not modcall:
            if recv[1] is not None and n in ("pop", "get", "setdefault"):
                return (recv[1], None)
            if isexisting(recv[0]):
                return V(["existing"] + (["np"] if "np" in recv[0] else []))      # may share storage with the receiver
            return (recv[0] if recv[0] - {"np"} == F[0] else frozenset(["unknown"]), None)
        return U

    def inplace_operator(self, e):
        """ufunc(self, other, out=(self,)): the body of x += y"""
        for k in e.keywords:
            if k.arg == "out" and isinstance(k.value, ast.Tuple) and len(k.value.elts) == 1 and isinstance(k.value.elts[0], ast.Name):
                return self.f.params[:1] == [k.value.elts[0].id] and e.args and ast.dump(e.args[0]) == ast.dump(k.value.elts[0])
        return False

    def violations(self):
        for f, line, kind, o in self.writes:
            yield f, line, kind, self.bad(f, o)

    def bad(self, f, o):
        if "existing" in o and "sure" in o:
            return "a buffer or node of an existing array"
        for x in o:
            if isinstance(x, tuple):
                pub = f.parent is None and not f.name.startswith("_")
                callback = "sure" in o and f not in self.called
                if (pub or callback) and not (f.params[x[1]] in ("self", "cls") and "sure" not in o):
                    return "its argument %s" % f.params[x[1]]
        return None

    def ismodule(self, x):
        if isinstance(x, ast.Name):
            return x.id in ("nplike", "numpy", "np", "ak", "pandas", "pyarrow", "copy", "numba", "jax", "cupy", "awkward0", "math", "os", "re", "json")
        if isinstance(x, ast.Attribute):
            return self.ismodule(x.value) and not (isinstance(x.value, ast.Name) and x.value.id == "self") or x.attr == "_module"
        return False

    def isnumpy(self, x):
        """the expression is visibly a NumPy array (asarray/..., or a name assigned from one)"""
        if isinstance(x, ast.Call):
            return name_of(x.func) in VIEW | {"array"} and name_of(x.func) not in ("to_layout",)
        if isinstance(x, ast.Name):
            for n in ast.walk(self.f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in n.targets):
                    if isinstance(n.value, ast.Call) and self.isnumpy(n.value):
                        return True
        return False

    def falsekw(self, e, k):
        return any(x.arg == k and isinstance(x.value, ast.Constant) and x.value.value is False for x in e.keywords)

    def resolve(self, f):
        n = name_of(f)
        if n is None:
            return None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
                c = [g for g in self.mod.byname.get(n, []) if g.cls == self.f.cls and g.parent is None]
                return c[0] if len(c) == 1 else None
            return None
        g = self.f
        while g is not None:
            for h in self.mod.byname.get(n, []):
                if h.parent is g:
                    return h
            g = g.parent
        c = [h for h in self.mod.byname.get(n, []) if h.parent is None and h.cls is None]
        return c[-1] if c else None
