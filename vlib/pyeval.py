"""A tiny abstract evaluator of module-level Python: assignments, attributes, literals, calls of local functions,
loops over literal sequences.  Anything else becomes an opaque object that remembers the path it was reached by."""
import ast


class Obj:
    def __init__(self, path, line=None, args=None):
        self.path, self.line, self.args, self.attrs = path, line, args, {}

    def __repr__(self):
        return "<%s>" % ".".join(map(str, self.path or ("?",)))


class _Return(Exception):
    pass


class PyEval:
    def __init__(self, path, source=None):
        self.tree = ast.parse(source if source is not None else open(path).read())
        self.env = {}
        self.steps = 0

    def run(self):
        self.block(self.tree.body, self.env)
        return self

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 200000:
            return
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env, s)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                n = (a.asname or a.name.split(".")[0])
                base = (a.name.split(".") if isinstance(s, ast.Import) else (s.module or "").split(".") + [a.name])
                env[n] = Obj(tuple(base if a.asname or isinstance(s, ast.ImportFrom) else base[:1]), s.lineno)
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = ("fn", s, env)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.If):
            # both branches; the later assignment wins, opaque objects make no difference
            self.block(s.body, env)
            self.block(s.orelse, env)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, env)
            if isinstance(it, dict):
                it = list(it)
            if isinstance(it, (list, tuple)):
                for x in it:
                    self.assign(s.target, x, env, s)
                    self.block(s.body, env)
        elif isinstance(s, (ast.With, ast.Try)):
            self.block(s.body, env)
        elif isinstance(s, ast.Return):
            raise_ = _Return()
            raise_.v = self.ev(s.value, env) if s.value is not None else None
            raise raise_

    def assign(self, t, v, env, s):
        if isinstance(t, ast.Name):
            env[t.id] = v
            if isinstance(v, Obj):
                v.line = s.lineno
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                o.attrs[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(o, (dict,)):
                try:
                    o[k] = v
                except TypeError:
                    pass
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (list, tuple)) and len(v) == len(t.elts):
            for a, b in zip(t.elts, v):
                self.assign(a, b, env, s)

    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            v = env.get(e.id, self.env.get(e.id))
            if v is None and e.id not in env:
                return Obj((e.id,), e.lineno)
            return v
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, env)
            if isinstance(o, Obj):
                if e.attr in o.attrs:
                    return o.attrs[e.attr]
                r = Obj((o.path or ("?",)) + (e.attr,), e.lineno)
                o.attrs[e.attr] = r
                return r
            return Obj(None)
        if isinstance(e, (ast.List, ast.Tuple)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, env)
                    if isinstance(v, (list, tuple)):
                        out += list(v)
                else:
                    out.append(self.ev(x, env))
            return out if isinstance(e, ast.List) else tuple(out)
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is not None:
                    kk = self.ev(k, env)
                    try:
                        out[kk] = self.ev(v, env)
                    except TypeError:
                        pass
            return out
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            try:
                if isinstance(e.op, ast.Add) and isinstance(a, (str, int, list, tuple)) and type(a) is type(b):
                    return a + b
                if isinstance(e.op, ast.Mult) and isinstance(a, (list, tuple, str, int)) and isinstance(b, int):
                    return a * b
                if isinstance(e.op, ast.Mod) and isinstance(a, str) and not isinstance(b, Obj):
                    return a % b
            except Exception:
                pass
            return Obj(None)
        if isinstance(e, ast.JoinedStr):
            out = ""
            for v in e.values:
                x = self.ev(v.value, env) if isinstance(v, ast.FormattedValue) else v.value
                if not isinstance(x, (str, int)):
                    return Obj(None)
                out += str(x)
            return out
        if isinstance(e, ast.Subscript):
            o, k = self.ev(e.value, env), self.ev(e.slice, env)
            try:
                if isinstance(o, (list, tuple, dict)):
                    return o[k]
            except Exception:
                pass
            return Obj(None)
        if isinstance(e, ast.IfExp):
            a, b = self.ev(e.body, env), self.ev(e.orelse, env)
            return a
        if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.ev(e.generators[0].iter, env)
            if isinstance(it, (list, tuple)):
                out = []
                for x in it:
                    env2 = dict(env)
                    self.assign(e.generators[0].target, x, env2, e)
                    out.append(self.ev(e.elt, env2))
                return out
            return Obj(None)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        return Obj(None)

    def call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, (list, tuple)):
                    args += list(v)
            else:
                args.append(self.ev(a, env))
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords if k.arg}
        if isinstance(f, tuple) and len(f) == 3 and f[0] == "fn":
            d = f[1]
            env2 = dict(f[2])
            ps = [a.arg for a in d.args.args]
            for p, dv in zip(ps[::-1], d.args.defaults[::-1]):
                env2[p] = self.ev(dv, f[2])
            for p, a in zip(ps, args):
                env2[p] = a
            if d.args.vararg:
                env2[d.args.vararg.arg] = tuple(args[len(ps):])
            env2.update(kw)
            try:
                self.block(d.body, env2)
            except _Return as r:
                return r.v
            return None
        nm = e.func.id if isinstance(e.func, ast.Name) else None
        if nm == "getattr" and len(args) >= 2 and isinstance(args[0], Obj) and isinstance(args[1], str):
            o = args[0]
            if args[1] not in o.attrs:
                o.attrs[args[1]] = Obj((o.path or ("?",)) + (args[1],), e.lineno)
            return o.attrs[args[1]]
        if nm == "setattr" and len(args) == 3 and isinstance(args[0], Obj):
            o = args[0]
            o.attrs[args[1]] = args[2]
            return None
        if nm == "globals":
            return self.env
        if nm in ("list", "tuple") and len(args) == 1 and isinstance(args[0], (list, tuple)):
            return list(args[0]) if nm == "list" else tuple(args[0])
        if isinstance(e.func, ast.Attribute):
            o = self.ev(e.func.value, env)
            m = e.func.attr
            if isinstance(o, dict) and m == "items":
                return list(o.items())
            if isinstance(o, dict) and m in ("keys", "values"):
                return list(getattr(o, m)())
            if isinstance(o, str) and m in ("format", "replace", "split", "join", "lower", "upper", "startswith") and not any(isinstance(a, Obj) for a in args):
                try:
                    return getattr(o, m)(*args)
                except Exception:
                    return Obj(None)
            if isinstance(o, list) and m == "append" and args:
                o.append(args[0])
                return None
        if isinstance(f, Obj):
            return Obj(f.path, e.lineno, args)
        return Obj(None)
