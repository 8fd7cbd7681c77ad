"""Path-wise abstract interpreter of Python functions over value provenance (the Python counterpart of mini.py).

Values are terms: ("k", const), ("sym", ...), ("glob", dotted name), ("attr", base, name), ("call", callee, args...),
("kw", name, value) inside a call, ("tuple"|"list"|"set", items...), ("dict", (k, v)...), ("comp", element, iterable),
("elem", iterable), ("item", base, index), ("op", operator, a, b), ("fn", frame, node index), ("str", parts...).
Each undecided condition is followed both ways and its outcome remembered, so that the same condition is decided the same
way along a path.  Loops over unknown iterables run zero times or once with an arbitrary element."""
import ast, os


class TooManyPaths(Exception):
    pass


NONE = ("k", None)
TRUE = ("k", True)
FALSE = ("k", False)
BINOP = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|",
         ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">", "is": "is not", "is not": "is", "in": "not in", "not in": "in"}


def deps(v, pred, out=None):
    if out is None:
        out = []
    if isinstance(v, tuple):
        if pred(v):
            out.append(v)
        for x in v:
            if isinstance(x, tuple):
                deps(x, pred, out)
    return out


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.tree = ast.parse(open(path).read())
        self.funcs, self.classes, self.assigns, self.imports = {}, {}, {}, {}
        self.collect(self.tree.body)

    def collect(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(s.value)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    nm = a.name
                    if nm == "awkward" or nm.startswith("awkward."):
                        nm = "ak" + nm[7:]
                    self.imports[a.asname or a.name.split(".")[0]] = nm if a.asname else nm.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                m = s.module or ""
                if m == "awkward" or m.startswith("awkward."):
                    m = "ak" + m[7:]
                for a in s.names:
                    self.imports[a.asname or a.name] = m + "." + a.name
            elif isinstance(s, (ast.If, ast.Try)):
                self.collect(s.body)
                for h in getattr(s, "handlers", []):
                    self.collect(h.body)
                self.collect(s.orelse)


class Package:
    """the Python package of the repository, parsed"""
    def __init__(self, repo):
        self.root = os.path.join(repo, "src", "awkward")
        self.mods = {}
        for d, dirs, files in os.walk(self.root):
            for n in sorted(files):
                if n.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, n), self.root)[:-3].replace(os.sep, ".")
                    if rel == "__init__":
                        rel = ""
                    elif rel.endswith(".__init__"):
                        rel = rel[:-9]
                    nm = "ak" + ("." + rel if rel else "")
                    self.mods[nm] = Module(nm, os.path.join(d, n))
        self.public = {}
        for m in ("ak.highlevel", "ak.operations.convert", "ak.operations.describe", "ak.operations.structure", "ak.operations.reducers"):
            for n in list(self.mods[m].funcs) + list(self.mods[m].classes):
                self.public.setdefault("ak." + n, m + "." + n)
            for n, im in self.mods[m].imports.items():
                if im.startswith("ak._connect"):
                    self.public.setdefault("ak." + n, im)

    def lookup(self, dotted):
        """-> (module, node) for a function or class, following public aliases"""
        dotted = self.public.get(dotted, dotted)
        m, _, n = dotted.rpartition(".")
        mod = self.mods.get(m)
        if mod is None:
            return None, None
        if n in mod.funcs:
            return mod, mod.funcs[n]
        if n in mod.classes:
            return mod, mod.classes[n]
        if n in mod.imports:
            return self.lookup(mod.imports[n]) if mod.imports[n] != dotted else (None, None)
        return None, None


class St:
    __slots__ = ("frames", "facts", "trace")

    def __init__(self, frames=None, facts=None, trace=()):
        self.frames = frames if frames is not None else {}
        self.facts = facts if facts is not None else {}
        self.trace = trace

    def copy(self):
        return St({k: dict(v) for k, v in self.frames.items()}, dict(self.facts), self.trace)


class Hooks:
    iterations = False     # record in the trace what one pass through a loop has established

    def call(self, m, q, f, args, kws, node, st):
        """-> value, or None for the default"""
        return None

    def isa(self, v, classes, st):
        return None

    def truth(self, v, st):
        return None

    def attr(self, base, name, st):
        return None

    def inline(self, q, fn, args):
        return False


class PyMini:
    def __init__(self, pkg, hooks, maxpaths=2000, maxdepth=12):
        self.pkg, self.hooks, self.maxpaths, self.maxdepth = pkg, hooks, maxpaths, maxdepth
        self.nfid = 0
        self.nodes = []
        self.loadcache = {}
        self.live = {}
        self.frameinfo = {}
        self.depth = 0
        self.paths = 0

    # ---------------------------------------------------------------- calling
    def run(self, mod, fn, args, st=None, parent=None):
        """args: dict of parameter -> value (missing ones take their defaults) -> list of (st, kind, value), kind return|raise"""
        st = st.copy() if st is not None else St()
        return self.enter(mod, fn, args, st, parent)

    def bind(self, fn, pos, kws):
        a = fn.args
        names = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
        out = {}
        for n, v in zip(names, pos):
            out[n] = v
        if len(pos) > len(names):
            if a.vararg is None:
                return None
            out[a.vararg.arg] = ("tuple",) + tuple(pos[len(names):])
        kwn = [x.arg for x in a.kwonlyargs]
        extra = []
        for n, v in kws:
            if n in names or n in kwn:
                if n in out:
                    return None
                out[n] = v
            elif a.kwarg is not None:
                extra.append((("k", n), v))
            else:
                return None
        if a.kwarg is not None:
            out.setdefault(a.kwarg.arg, ("dict",) + tuple(extra))
        return out

    def enter(self, mod, fn, args, st, parent):
        self.depth += 1
        if self.depth > self.maxdepth:
            self.depth -= 1
            raise TooManyPaths("depth")
        try:
            self.nfid += 1
            fid = self.nfid
            local = set()
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    local.add(x.id)
                elif isinstance(x, (ast.Nonlocal, ast.Global)):
                    local -= set(x.names)
            self.frameinfo[fid] = (mod, parent, fn)
            st.frames[fid] = {}
            a = fn.args
            names = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
            defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                names.append(x.arg)
                if d is not None:
                    defaults[x.arg] = d
            states = [st]
            for n in names:
                if n in args:
                    st.frames[fid][n] = args[n]
                elif n in defaults:
                    d = self.ev1(defaults[n], st, parent if parent is not None else fid)
                    st.frames[fid][n] = d
                else:
                    st.frames[fid][n] = ("sym", "param", n)
            if a.vararg is not None:
                st.frames[fid][a.vararg.arg] = args.get(a.vararg.arg, ("tuple",))
            if a.kwarg is not None:
                st.frames[fid][a.kwarg.arg] = args.get(a.kwarg.arg, ("dict",))
            if isinstance(fn, ast.Lambda):
                return [(s, "return", v) for s, v in self.ev(fn.body, st, fid)]
            out = []
            for s, kind, v in self.block(fn.body, st, fid):
                if kind == "fall":
                    out.append((s, "return", NONE))
                else:
                    out.append((s, kind, v))
            return out
        finally:
            self.depth -= 1

    def ev1(self, node, st, fid):
        r = self.ev(node, st.copy(), fid)
        return r[0][1] if len(r) == 1 else ("sym", "expr", getattr(node, "lineno", 0))

    # ---------------------------------------------------------------- statements
    def loads(self, node):
        r = self.loadcache.get(id(node))
        if r is None:
            r = (node, frozenset(x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)))
                 | frozenset(x.target.id for x in ast.walk(node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)))
            self.loadcache[id(node)] = r
        return r[1]

    def captured(self, fn):
        """names used by functions nested in fn"""
        r = self.loadcache.get(("c", id(fn)))
        if r is None:
            s = set()
            for x in ast.walk(fn):
                if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    s |= self.loads(x)
                if isinstance(x, (ast.For, ast.While)):
                    for y in x.body:
                        s |= self.loads(y)
                    if isinstance(x, ast.While):
                        s |= self.loads(x.test)
            r = (fn, frozenset(s))
            self.loadcache[("c", id(fn))] = r
        return r[1]

    def cells(self, fn):
        """variables whose elements a nested function stores into"""
        r = self.loadcache.get(("m", id(fn)))
        if r is None:
            s = set()
            for x in ast.walk(fn):
                if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    own = {a.arg for a in x.args.args} | {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                    for y in ast.walk(x):
                        if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id not in own:
                            s.add(y.value.id)
            r = (fn, frozenset(s))
            self.loadcache[("m", id(fn))] = r
        return r[1]

    def prune(self, states, fid, live):
        keep = live | self.captured(self.frameinfo[fid][2])
        for st, kind, v in states:
            if kind == "fall":
                e = st.frames.get(fid)
                if e and any(isinstance(k, str) and k not in keep for k in e):
                    st.frames[fid] = {k: x for k, x in e.items() if not isinstance(k, str) or k in keep}

    def block(self, body, st, fid):
        outer = self.live.get(fid, frozenset())
        try:
            return self.block2(body, st, fid, outer)
        finally:
            self.live[fid] = outer

    def block2(self, body, st, fid, outer):
        states = [(st, "fall", None)]
        for i, s in enumerate(body):
            rest = outer
            for y in body[i + 1:]:
                rest = rest | self.loads(y)
            self.live[fid] = rest
            nxt = []
            for st, kind, v in states:
                if kind != "fall":
                    nxt.append((st, kind, v))
                else:
                    nxt.extend(self.stmt(s, st, fid))
            self.live[fid] = rest
            if len(nxt) > 8:
                self.prune(nxt, fid, rest)
            states = self.merge(nxt)
            if len(states) > self.maxpaths:
                raise TooManyPaths(len(states))
            if not any(k == "fall" for _, k, _ in states):
                break
        return states

    def merge(self, states):
        """states that cannot be told apart any more are joined (facts kept only where they agree)"""
        if len(states) < 2:
            return states
        groups = {}
        for st, kind, v in states:
            key = (kind, v, st.trace, tuple(sorted((f, tuple(sorted(e.items(), key=lambda t: t[0]))) for f, e in st.frames.items())))
            g = groups.get(key)
            if g is None:
                groups[key] = (st, kind, v)
            else:
                facts = {k: b for k, b in g[0].facts.items() if st.facts.get(k) == b}
                s = St(g[0].frames, facts, g[0].trace)
                groups[key] = (s, kind, v)
        return list(groups.values())

    def stmt(self, s, st, fid):
        H = self.hooks
        if isinstance(s, ast.Return):
            if s.value is None:
                return [(st, "return", NONE)]
            return [(s2, "return", v) for s2, v in self.ev(s.value, st, fid)]
        if isinstance(s, ast.Expr):
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                if s.value.value is None:
                    return [(st, "fall", None)]
                out = []
                for s2, v in self.ev(s.value.value, st, fid):
                    s2.trace = s2.trace + (("yield", v),)
                    out.append((s2, "fall", None))
                return out
            return [(s2, "fall", None) for s2, v in self.ev(s.value, st, fid)]
        if isinstance(s, ast.Assign):
            out = []
            for s2, v in self.ev(s.value, st, fid):
                for t in s.targets:
                    if isinstance(t, ast.Name) and v[0] in ("list", "dict") and t.id in self.cells(self.frameinfo[fid][2]):
                        v = ("sym", "cell", t.id, s.lineno)
                    self.assign(t, v, s2, fid)
                out.append((s2, "fall", None))
            return out
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [(st, "fall", None)]
            out = []
            for s2, v in self.ev(s.value, st, fid):
                self.assign(s.target, v, s2, fid)
                out.append((s2, "fall", None))
            return out
        if isinstance(s, ast.AugAssign):
            out = []
            load = ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target) if isinstance(s.target, ast.Name) else None
            for s2, v in self.ev(s.value, st, fid):
                if load is not None:
                    old = self.ev1(load, s2, fid)
                    self.assign(s.target, self.binop(BINOP[type(s.op)], old, v), s2, fid)
                out.append((s2, "fall", None))
            return out
        if isinstance(s, ast.If):
            out = []
            for s2, b in self.cond(s.test, st, fid):
                out.extend(self.block(s.body if b else s.orelse, s2, fid))
            return out
        if isinstance(s, ast.For):
            return self.loop_for(s, st, fid)
        if isinstance(s, ast.While):
            out = []
            for s2, b in self.cond(s.test, st, fid):
                if not b:
                    out.extend(self.block(s.orelse, s2, fid))
                    continue
                for s3, kind, v in self.block(s.body, s2, fid):
                    if kind in ("fall", "continue", "break"):
                        s3.facts = {}
                        out.append((s3, "fall", None))
                    else:
                        out.append((s3, kind, v))
            return out
        if isinstance(s, ast.FunctionDef):
            self.nodes.append(s)
            st.frames[fid][s.name] = ("fn", fid, len(self.nodes) - 1)
            return [(st, "fall", None)]
        if isinstance(s, ast.ClassDef):
            st.frames[fid][s.name] = ("sym", "class", s.name)
            return [(st, "fall", None)]
        if isinstance(s, ast.Raise):
            if s.exc is None:
                return [(st, "raise", NONE)]
            return [(s2, "raise", v) for s2, v in self.ev(s.exc, st, fid)]
        if isinstance(s, ast.Assert):
            out = []
            for s2, b in self.cond(s.test, st, fid):
                out.append((s2, "fall", None) if b else (s2, "raise", ("call", ("glob", "AssertionError"))))
            return out
        if isinstance(s, ast.Try):
            base = st.copy()
            out = []
            for s2, kind, v in self.block(s.body, st, fid):
                if kind == "fall":
                    out.extend(self.block(s.orelse, s2, fid))
                elif kind == "raise" and s.handlers and self.catches(s.handlers, v) is not False:
                    continue      # covered by the handlers below, entered with the state before the body
                else:
                    out.append((s2, kind, v))
            for h in s.handlers:
                s2 = base.copy()
                if h.name:
                    s2.frames[fid][h.name] = ("sym", "exc", h.name)
                out.extend(self.block(h.body, s2, fid))
            if s.finalbody:
                fin = []
                for s2, kind, v in out:
                    for s3, k3, v3 in self.block(s.finalbody, s2, fid):
                        fin.append((s3, kind, v) if k3 == "fall" else (s3, k3, v3))
                out = fin
            return out
        if isinstance(s, ast.With):
            states = [st]
            for it in s.items:
                nxt = []
                for s2 in states:
                    for s3, v in self.ev(it.context_expr, s2, fid):
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, ("call", ("attr", v, "__enter__")), s3, fid)
                        nxt.append(s3)
                states = nxt
            out = []
            for s2 in states:
                out.extend(self.block(s.body, s2, fid))
            return out
        if isinstance(s, ast.Break):
            return [(st, "break", None)]
        if isinstance(s, ast.Continue):
            return [(st, "continue", None)]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                nm = a.name if isinstance(s, ast.Import) else (s.module or "") + "." + a.name
                if nm == "awkward" or nm.startswith("awkward."):
                    nm = "ak" + nm[7:]
                if isinstance(s, ast.Import) and not a.asname:
                    nm = nm.split(".")[0]
                    st.frames[fid][a.name.split(".")[0]] = ("glob", nm)
                else:
                    st.frames[fid][a.asname or a.name] = ("glob", nm)
            return [(st, "fall", None)]
        if isinstance(s, ast.Delete):
            return [(st, "fall", None)]
        return [(st, "fall", None)]

    def catches(self, handlers, v):
        names = set()
        for h in handlers:
            if h.type is None:
                return True
            for x in ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts):
                names.add(x.id if isinstance(x, ast.Name) else "?")
        if names & {"Exception", "BaseException", "?"}:
            return True
        if v and v[0] == "call" and v[1][0] == "glob":
            return v[1][1] in names
        return None

    def loop_for(self, s, st, fid):
        out = []
        for s2, it in self.ev(s.iter, st, fid):
            items = self.items(it)
            if items is not None and len(items) <= 12:
                states = [(s2, "fall", None)]
                done = []
                for x in items:
                    nxt = []
                    for s3, kind, v in states:
                        self.assign(s.target, x, s3, fid)
                        for s4, k4, v4 in self.block(s.body, s3, fid):
                            if k4 in ("fall", "continue"):
                                nxt.append((s4, "fall", None))
                            else:
                                done.append((s4, k4, v4))
                    states = self.merge(nxt)
                for s3, kind, v in states:
                    out.extend(self.block(s.orelse, s3, fid))
                for s3, kind, v in done:
                    out.append((s3, "fall", None) if kind == "break" else (s3, kind, v))
                continue
            zero = s2.copy()
            r = self.hooks.truth(("nonempty", it), s2)
            if r is not True:
                out.extend(self.block(s.orelse, zero, fid))
            if r is not False:
                self.assign(s.target, ("elem", it), s2, fid)
                for s4, k4, v4 in self.block(s.body, s2, fid):
                    if self.hooks.iterations and k4 in ("fall", "continue", "break"):
                        s4.trace = s4.trace + (("iter", it, k4, tuple((t, b) for t, b in s4.facts.items() if deps(t, lambda x: x == ("elem", it)))),)
                    if k4 in ("fall", "continue"):
                        s4.facts = {t: b for t, b in s4.facts.items() if not deps(t, lambda x: x == ("elem", it))}
                        out.extend(self.block(s.orelse, s4, fid))
                    elif k4 == "break":
                        out.append((s4, "fall", None))
                    else:
                        out.append((s4, k4, v4))
        return out

    def items(self, v):
        if v[0] in ("tuple", "list") and not any(x[0] == "star" for x in v[1:]):
            return list(v[1:])
        if v[0] == "dict":
            return [k for k, x in v[1:]]
        return None

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            fid = self.owner(t.id, fid, st, store=True)
            st.frames[fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.items(v)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, ("item", v, ("k", "%d:" % i)), st, fid)
                elif items is not None and len(items) == len(t.elts):
                    self.assign(x, items[i], st, fid)
                else:
                    self.assign(x, ("item", v, ("k", i)), st, fid)
        elif isinstance(t, ast.Attribute):
            b = self.ev1(t.value, st, fid)
            st.frames.setdefault(0, {})[("attr", b, t.attr)] = v
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            old = self.ev1(t.value, st, fid)
            k = self.ev1(t.slice, st, fid)
            if old[0] == "dict":
                f = self.owner(t.value.id, fid, st)
                if f is not None:
                    st.frames[f][t.value.id] = ("dict",) + tuple((a, b) for a, b in old[1:] if a != k) + ((k, v),)

    def owner(self, name, fid, st, store=False):
        if store:
            fn = self.frameinfo[fid][2]
            if not isinstance(fn, ast.Lambda) and any(isinstance(x, ast.Nonlocal) and name in x.names for x in ast.walk(fn)):
                fid = self.frameinfo[fid][1] or fid
                while name not in st.frames.get(fid, {}) and self.frameinfo[fid][1] is not None:
                    fid = self.frameinfo[fid][1]
            return fid
        while fid is not None:
            if name in st.frames.get(fid, {}):
                return fid
            fid = self.frameinfo[fid][1]
        return None

    # ---------------------------------------------------------------- conditions
    def cond(self, node, st, fid):
        """-> list of (state, bool)"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            out, cur = [], [st]
            for i, x in enumerate(node.values):
                nxt = []
                for s in cur:
                    for s2, b in self.cond(x, s, fid):
                        if b != isand:
                            out.append((s2, b))
                        elif i == len(node.values) - 1:
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.cond(node.operand, st, fid)]
        if isinstance(node, ast.Compare) and len(node.ops) > 1 and all(isinstance(c, (ast.Name, ast.Constant, ast.Attribute)) for c in node.comparators[:-1]):
            # a < b < c: the operands in the middle are plain, so that this is a < b and b < c
            xs = [node.left] + node.comparators
            parts = [ast.copy_location(ast.Compare(left=xs[i], ops=[o], comparators=[xs[i + 1]]), node) for i, o in enumerate(node.ops)]
            key = ("chain", id(node))
            if key not in self.loadcache:
                self.loadcache[key] = ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)
            return self.cond(self.loadcache[key], st, fid)
        out = []
        for s, v in self.ev(node, st, fid):
            b = self.truthval(v, s)
            if b is None:
                neg, w = norm(v)
                self.paths += 1
                if self.paths > self.maxpaths * 50:
                    raise TooManyPaths(self.paths)
                s2 = s.copy()
                s.facts[w] = not neg
                s2.facts[w] = neg
                out.append((s, True))
                out.append((s2, False))
            else:
                out.append((s, b))
        return out

    def truthval(self, v, st):
        neg, w = norm(v)
        if w in st.facts:
            return st.facts[w] != neg
        r = self.hooks.truth(w, st)
        if r is not None:
            return r != neg
        if w[0] == "k":
            return bool(w[1]) != neg
        if w[0] in ("tuple", "list", "set", "dict"):
            if len(w) == 1:
                return False != neg
            if not any(x[0] == "star" for x in w[1:] if isinstance(x, tuple)):
                return True != neg
        if w[0] in ("fn", "glob"):
            return True != neg
        if w[0] == "op" and w[1] in ("==", "is") and len(w) == 4:
            a, b = w[2], w[3]
            if a[0] == "k" and b[0] == "k":
                return ((a[1] == b[1]) if w[1] == "==" else (a[1] is b[1] or a[1] == b[1])) != neg
            if w[1] == "is" and NONE in (a, b):
                x = a if b == NONE else b
                if x[0] in ("tuple", "list", "dict", "set", "fn", "comp", "str") or (x[0] == "k" and x[1] is not None):
                    return False != neg
        if w[0] == "op" and w[1] == "in" and w[2][0] == "k" and self.items(w[3]) is not None and all(x[0] == "k" for x in self.items(w[3])):
            return (w[2] in self.items(w[3])) != neg
        return None

    # ---------------------------------------------------------------- expressions
    def evs(self, nodes, st, fid):
        """evaluate several expressions left to right -> list of (state, [values])"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(n, s, fid):
                    nxt.append((s2, vs + [v]))
            cur = nxt
            if len(cur) > self.maxpaths:
                raise TooManyPaths(len(cur))
        return cur

    def name(self, n, st, fid):
        f = self.owner(n, fid, st)
        if f is not None:
            return st.frames[f][n]
        return self.globalname(self.frameinfo[fid][0], n, st)

    def globalname(self, mod, n, st=None, seen=()):
        if mod is not None:
            if n in mod.funcs or n in mod.classes:
                return ("glob", mod.name + "." + n)
            if n in mod.imports:
                return ("glob", mod.imports[n])
            if n in mod.assigns:
                vals = mod.assigns[n]
                if len(vals) == 1 and isinstance(vals[0], (ast.Tuple, ast.List, ast.Constant, ast.Name, ast.Attribute, ast.Dict, ast.BinOp)):
                    return self.globalvalue(mod, vals[0], seen + (n,))
                return ("glob", mod.name + "." + n)
        if n in ("None", "True", "False"):
            return ("k", {"None": None, "True": True, "False": False}[n])
        return ("glob", n)

    def globalvalue(self, mod, node, seen):
        if isinstance(node, ast.Name):
            if node.id in seen:
                return ("glob", mod.name + "." + node.id)
            return self.globalname(mod, node.id, seen=seen)
        if isinstance(node, ast.Constant):
            return ("k", node.value)
        if isinstance(node, ast.Attribute):
            return self.attribute(self.globalvalue(mod, node.value, seen), node.attr, None)
        if isinstance(node, (ast.Tuple, ast.List)):
            return ("tuple" if isinstance(node, ast.Tuple) else "list",) + tuple(self.globalvalue(mod, x, seen) for x in node.elts)
        if isinstance(node, ast.Dict):
            return ("dict",) + tuple((self.globalvalue(mod, k, seen), self.globalvalue(mod, v, seen)) for k, v in zip(node.keys, node.values) if k is not None)
        if isinstance(node, ast.BinOp):
            return self.binop(BINOP[type(node.op)], self.globalvalue(mod, node.left, seen), self.globalvalue(mod, node.right, seen))
        return ("sym", "glob", mod.name, getattr(node, "lineno", 0))

    def attribute(self, b, name, st):
        if st is not None and ("attr", b, name) in st.frames.get(0, {}):
            return st.frames[0][("attr", b, name)]
        r = self.hooks.attr(b, name, st) if st is not None else None
        if r is not None:
            return r
        if b[0] == "glob":
            q = b[1] + "." + name
            mod = self.pkg.mods.get(b[1])
            if mod is not None and q not in self.pkg.mods and name in mod.assigns:
                return self.globalname(mod, name)
            return ("glob", q)
        return ("attr", b, name)

    def binop(self, op, a, b):
        if a[0] == "k" and b[0] == "k":
            try:
                if op == "+":
                    return ("k", a[1] + b[1])
                if op == "-":
                    return ("k", a[1] - b[1])
                if op == "*":
                    return ("k", a[1] * b[1])
            except Exception:
                pass
        if op == "+" and a[0] in ("tuple", "list") and b[0] == a[0]:
            return a + b[1:]
        return ("op", op, a, b)

    def ev(self, node, st, fid):
        """-> list of (state, value)"""
        if isinstance(node, ast.Constant):
            return [(st, ("k", node.value))]
        if isinstance(node, ast.Name):
            return [(st, self.name(node.id, st, fid))]
        if isinstance(node, ast.Attribute):
            return [(s, self.attribute(b, node.attr, s)) for s, b in self.ev(node.value, st, fid)]
        if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
            k = {ast.Tuple: "tuple", ast.List: "list", ast.Set: "set"}[type(node)]
            out = []
            for s, vs in self.evs(node.elts, st, fid):
                flat = []
                for v in vs:
                    if v[0] == "star" and self.items(v[1]) is not None:
                        flat.extend(self.items(v[1]))
                    else:
                        flat.append(v)
                out.append((s, (k,) + tuple(flat)))
            return out
        if isinstance(node, ast.Starred):
            return [(s, ("star", v)) for s, v in self.ev(node.value, st, fid)]
        if isinstance(node, ast.Dict):
            if any(k is None for k in node.keys):
                return [(s, ("call", ("glob", "dict")) + tuple(vs)) for s, vs in self.evs([v for v in node.values], st, fid)]
            n = len(node.keys)
            return [(s, ("dict",) + tuple((vs[i], vs[n + i]) for i in range(n))) for s, vs in self.evs(list(node.keys) + list(node.values), st, fid)]
        if isinstance(node, ast.BinOp):
            return [(s, self.binop(BINOP[type(node.op)], a, b)) for s, (a, b) in self.evs([node.left, node.right], st, fid)]
        if isinstance(node, ast.UnaryOp):
            if isinstance(node.op, ast.Not):
                out = []
                for s, v in self.ev(node.operand, st, fid):
                    b = self.truthval(v, s)
                    out.append((s, ("k", not b) if b is not None else ("op", "not", v)))
                return out
            op = {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "~"}[type(node.op)]
            out = []
            for s, v in self.ev(node.operand, st, fid):
                if op == "neg" and v[0] == "k" and isinstance(v[1], (int, float)):
                    out.append((s, ("k", -v[1])))
                else:
                    out.append((s, ("op", op, v)))
            return out
        if isinstance(node, ast.BoolOp):
            # value of and/or: decided conditions pick an operand
            isand = isinstance(node.op, ast.And)
            out, cur = [], [st]
            for i, x in enumerate(node.values):
                nxt = []
                for s in cur:
                    for s2, v in self.ev(x, s, fid):
                        if i == len(node.values) - 1:
                            out.append((s2, v))
                            continue
                        b = self.truthval(v, s2)
                        if b is None:
                            neg, w = norm(v)
                            s3 = s2.copy()
                            s2.facts[w] = (not isand) != neg
                            s3.facts[w] = isand != neg
                            out.append((s2, v))
                            nxt.append(s3)
                        elif b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, v))
                cur = nxt
            return out
        if isinstance(node, ast.Compare):
            out = []
            for s, vs in self.evs([node.left] + node.comparators, st, fid):
                if len(vs) == 2:
                    v = ("op", CMP[type(node.ops[0])], vs[0], vs[1])
                    b = self.truthval(v, s)
                    out.append((s, ("k", b) if b is not None else v))
                else:
                    out.append((s, ("op", "chain") + tuple(vs)))
            return out
        if isinstance(node, ast.IfExp):
            out = []
            for s, b in self.cond(node.test, st, fid):
                out.extend(self.ev(node.body if b else node.orelse, s, fid))
            return out
        if isinstance(node, ast.Lambda):
            self.nodes.append(node)
            return [(st, ("fn", fid, len(self.nodes) - 1))]
        if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return self.comprehension(node, st, fid)
        if isinstance(node, ast.Subscript):
            out = []
            for s, (b, i) in self.evs([node.value, node.slice], st, fid):
                out.append((s, self.subscript(b, i)))
            return out
        if isinstance(node, ast.Slice):
            z = [x if x is not None else ast.Constant(None) for x in (node.lower, node.upper, node.step)]
            return [(s, ("slice",) + tuple(vs)) for s, vs in self.evs(z, st, fid)]
        if isinstance(node, ast.Call):
            return self.callexpr(node, st, fid)
        if isinstance(node, ast.JoinedStr):
            return [(st, ("sym", "fstring", node.lineno))]
        if isinstance(node, ast.NamedExpr):
            out = []
            for s, v in self.ev(node.value, st, fid):
                self.assign(node.target, v, s, fid)
                out.append((s, v))
            return out
        if isinstance(node, (ast.Yield, ast.YieldFrom)):
            return [(st, ("sym", "yield", node.lineno))]
        return [(st, ("sym", "expr", type(node).__name__, getattr(node, "lineno", 0)))]

    def subscript(self, b, i):
        it = self.items(b)
        if b[0] in ("tuple", "list") and it is not None and i[0] == "slice" and all(x[0] == "k" for x in i[1:]):
            return (b[0],) + tuple(it[slice(*[x[1] for x in i[1:]])])
        if b[0] != "dict" and it is not None and i[0] == "k" and isinstance(i[1], int) and -len(it) <= i[1] < len(it):
            return it[i[1]]
        if b[0] == "dict":
            for k, v in b[1:]:
                if k == i:
                    return v
        return ("item", b, i)

    def comprehension(self, node, st, fid):
        gens = node.generators
        out = []
        for s, it in self.ev(gens[0].iter, st, fid):
            self.nfid += 1
            f = self.nfid
            self.frameinfo[f] = (self.frameinfo[fid][0], fid, self.frameinfo[fid][2])
            items = self.items(it)
            elts = [node.key, node.value] if isinstance(node, ast.DictComp) else [node.elt]
            if items is not None and len(gens) == 1 and not gens[0].ifs and len(items) <= 8 and not isinstance(node, ast.DictComp):
                cur = [(s, [])]
                for x in items:
                    nxt = []
                    for s2, vs in cur:
                        s2.frames[f] = {}
                        self.assign(gens[0].target, x, s2, f)
                        for s3, v in self.ev(node.elt, s2, f):
                            nxt.append((s3, vs + [v]))
                    cur = nxt
                for s2, vs in cur:
                    s2.frames.pop(f, None)
                    out.append((s2, ("list",) + tuple(vs)))
                continue
            s.frames[f] = {}
            before = dict(s.facts)
            self.assign(gens[0].target, ("elem", it), s, f)
            states = [s]
            for c in gens[0].ifs:
                states = [s2 for s1 in states for s2, b in self.cond(c, s1, f) if b]
            for g in gens[1:]:
                nxt = []
                for s1 in states:
                    for s2, it2 in self.ev(g.iter, s1, f):
                        self.assign(g.target, ("elem", it2), s2, f)
                        cur = [s2]
                        for c in g.ifs:
                            cur = [s4 for s3 in cur for s4, b in self.cond(c, s3, f) if b]
                        nxt.extend(cur)
                states = nxt
            for s1 in states:
                for s2, vs in self.evs(elts, s1, f):
                    s2.frames.pop(f, None)
                    s2.facts = {t: b for t, b in s2.facts.items() if t in before or not deps(t, lambda x: x == ("elem", it))}
                    k = {ast.ListComp: "comp", ast.GeneratorExp: "comp", ast.SetComp: "comp", ast.DictComp: "dictcomp"}[type(node)]
                    out.append((s2, (k, vs[0], it) if len(vs) == 1 else (k, vs[0], vs[1], it)))
        return self.dedup(out)

    def dedup(self, states):
        return [(s, v) for s, k, v in self.merge([(s, "fall", v) for s, v in states])]

    def callexpr(self, node, st, fid):
        out = []
        pos = list(node.args)
        kwn = [k.arg for k in node.keywords]
        # list.append on a local variable
        for s, vs in self.evs([node.func] + pos + [k.value for k in node.keywords], st, fid):
            f, args, kws = vs[0], vs[1:1 + len(pos)], list(zip(kwn, vs[1 + len(pos):]))
            flat = []
            for a in args:
                if a[0] == "star" and self.items(a[1]) is not None:
                    flat.extend(self.items(a[1]))
                else:
                    flat.append(a)
            args = flat
            out.extend(self.apply(node, f, args, kws, s, fid))
        return out

    def classes(self, v):
        if v[0] == "tuple":
            out = []
            for x in v[1:]:
                c = self.classes(x)
                if c is None:
                    return None
                out.extend(c)
            return out
        if v[0] == "glob":
            return [v[1]]
        if v[0] == "op" and v[1] == "+":
            a, b = self.classes(v[2]), self.classes(v[3])
            return None if a is None or b is None else a + b
        return None

    def apply(self, node, f, args, kws, st, fid):
        q = f[1] if f[0] == "glob" else None
        term = ("call", f) + tuple(args) + tuple(("kw", n, v) for n, v in kws)
        r = self.hooks.call(self, q, f, args, kws, node, st)
        if r is not None:
            return r if isinstance(r, list) else [(st, r)]
        if q == "isinstance" and len(args) == 2:
            cs = self.classes(args[1])
            if cs is not None:
                b = self.hooks.isa(args[0], cs, st)
                if b is None and args[0][0] == "call" and args[0][1][0] == "glob" and args[0][1][1].startswith("ak.layout."):
                    if args[0][1][1] in cs or "ak.layout.Content" in cs:
                        b = True
                if b is not None:
                    return [(st, ("k", b))]
                return [(st, ("isa", args[0], tuple(sorted(cs))))]
        if q in ("list", "tuple") and len(args) == 1 and not kws:
            it = self.items(args[0])
            if it is not None:
                return [(st, (q,) + tuple(it))]
            if args[0][0] == "comp":
                return [(st, args[0])]
        if q in ("list", "tuple", "dict", "set") and not args and not kws:
            return [(st, (q,))]
        if q == "callable" and len(args) == 1 and args[0][0] == "fn":
            return [(st, TRUE)]
        if q == "len" and len(args) == 1 and self.items(args[0]) is not None:
            return [(st, ("k", len(self.items(args[0]))))]
        if f[0] == "attr" and f[1][0] in ("list", "comp") and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name):
            if f[2] == "append" and len(args) == 1:
                o = self.owner(node.func.value.id, fid, st)
                if o is not None and f[1][0] == "list":
                    st.frames[o][node.func.value.id] = f[1] + (args[0],)
                return [(st, NONE)]
            if f[2] == "extend" and len(args) == 1:
                o = self.owner(node.func.value.id, fid, st)
                if o is not None and f[1][0] == "list":
                    it = self.items(args[0])
                    st.frames[o][node.func.value.id] = f[1] + (tuple(it) if it is not None else (("star", args[0]),))
                return [(st, NONE)]
        if f[0] == "attr" and f[1][0] == "dict" and f[2] in ("get", "pop") and args:
            for k, v in f[1][1:]:
                if k == args[0]:
                    return [(st, v)]
            if args[0][0] == "k" and all(k[0] == "k" for k, v in f[1][1:]):
                return [(st, args[1] if len(args) > 1 else NONE)]
        if f[0] == "fn":
            fn = self.nodes[f[2]]
            if self.hooks.inline("local:" + getattr(fn, "name", "<lambda>"), fn, args + [v for k, v in kws]):
                b = self.bind(fn, args, kws)
                if b is not None and not any(a[0] == "star" for a in args):
                    return self.inlined(self.frameinfo[f[1]][0], fn, b, st, f[1])
        elif q is not None:
            mod, fn = self.pkg.lookup(q)
            if isinstance(fn, ast.FunctionDef) and self.hooks.inline(self.pkg.public.get(q, q), fn, args + [v for k, v in kws]):
                b = self.bind(fn, args, kws)
                if b is not None and not any(a[0] == "star" for a in args):
                    return self.inlined(mod, fn, b, st, None)
        return [(st, term)]

    def inlined(self, mod, fn, b, st, parent):
        out = []
        first = self.nfid
        for s, kind, v in self.enter(mod, fn, b, st, parent):
            self.drop(s, v, first)
            if kind == "return":
                out.append((s, v))
            elif kind == "raise":
                self.raised(s, v)
        return self.dedup(out)

    def drop(self, st, v, first):
        """forget the variables of calls that have returned, unless a closure may still see them"""
        new = {f for f in st.frames if f > first}
        if not new:
            return
        seen, work = set(), [v] + [x for f, e in st.frames.items() if f not in new for x in e.values()]
        while work:
            for t in deps(work.pop(), lambda t: len(t) == 3 and t[0] == "fn" and isinstance(t[1], int)):
                f = t[1]
                while f is not None and f not in seen:
                    seen.add(f)
                    work.extend(st.frames.get(f, {}).values())
                    f = self.frameinfo[f][1]
        for f in new - seen:
            del st.frames[f]

    def raised(self, st, v):
        pass


def norm(v):
    """-> (negated, canonical condition)"""
    neg = False
    while True:
        if v[0] == "op" and v[1] == "not":
            v, neg = v[2], not neg
        elif v[0] == "op" and v[1] in ("!=", "is not", "not in", ">=", "<="):
            v, neg = ("op", NEG[v[1]]) + v[2:], not neg
        elif v[0] == "op" and v[1] == ">" and len(v) == 4:
            v = ("op", "<", v[3], v[2])
        else:
            break
    if v[0] == "op" and v[1] in ("==", "is") and v[2][0] == "k" and v[3][0] != "k":
        v = ("op", v[1], v[3], v[2])
    return neg, v
