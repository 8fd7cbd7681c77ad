"""Obligations on kernels written as formulas over arguments, loads and stored
values, decided with the SSA facts of vlib.ssa."""
import ast
import itertools
from .ssa import *


def load_atoms(fn):
    """root name -> set of index polynomials loaded from it (input arguments)"""
    if not hasattr(fn, "_la"):
        d = {}
        for i in fn.ins.values():
            if i["op"] == "load":
                f = fn.iform(i["id"])
                for a in f.atoms():
                    if a[0] == "ld" and len(a) == 3:
                        d.setdefault(a[1][1], set()).add(a[2])
        fn._la = d
    return fn._la


class Spec:
    """one formula; free pattern variables are lower-case names that are not
    arguments; they range over index polynomials of loads / loop phis"""

    def __init__(self, text):
        self.text = text
        self.tree = ast.parse(text.strip(), mode="eval").body

    def vars(self, fn, bound):
        out = {}

        def visit(n, base=None):
            if isinstance(n, ast.Subscript):
                b = n.value.id
                visit_index(n.slice, b)
                return
            if isinstance(n, ast.Name):
                if n.id not in bound and not isarg(fn, n.id):
                    out.setdefault(n.id, set())
                return
            for c in ast.iter_child_nodes(n):
                visit(c)

        def visit_index(n, b):
            for x in ast.walk(n):
                if isinstance(x, ast.Subscript):
                    visit(x)
            # simple index var or var + const
            if isinstance(n, ast.Name) and n.id not in bound and not isarg(fn, n.id):
                out.setdefault(n.id, set()).add((b, 0))
            elif isinstance(n, ast.BinOp) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Constant) \
                    and n.left.id not in bound and not isarg(fn, n.left.id):
                k = n.right.value if isinstance(n.op, ast.Add) else -n.right.value
                out.setdefault(n.left.id, set()).add((b, k))
        visit(self.tree)
        return out

    def candidates(self, fn, bound):
        vs = self.vars(fn, bound)
        names = sorted(vs)
        lists = []
        la = load_atoms(fn)
        phis = [A(("v", i["id"])) for i in fn.ins.values() if i["op"] == "phi" and i["t"] == "i64"]
        opq = [A(("v", i["id"])) for i in fn.ins.values() if i["op"] == "load" and i["t"] == "i64" and fn.iform(i["id"]) == A(("v", i["id"]))]
        first = [A(("v", i["id"])) for i in fn.ins.values() if i["op"] == "load" and i["t"] == "i64"
                 and fn.iform(i["id"]) == A(("v", i["id"])) and initial_load(fn, i)]
        for n in names:
            c = []
            for b, k in sorted(vs[n]):
                for p in la.get(b, ()):
                    q = p - K(k)
                    if q not in c:
                        c.append(q)
            if not vs[n]:
                c = first if n == "p" else phis + opq
            lists.append(c)
        for combo in itertools.product(*lists):
            env = dict(bound)
            env.update(zip(names, combo))
            yield env

    def build(self, fn, env):
        return self.f(self.tree, fn, env)

    def f(self, n, fn, env):
        if isinstance(n, ast.BoolOp):
            return ("and" if isinstance(n.op, ast.And) else "or", [self.f(v, fn, env) for v in n.values])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return NOT(self.f(n.operand, fn, env))
        if isinstance(n, ast.Compare):
            fs, l = [], self.e(n.left, fn, env)
            for op, r in zip(n.ops, n.comparators):
                r = self.e(r, fn, env)
                t = type(op).__name__
                fs.append({"Lt": ("ge", r - l - K(1)), "LtE": ("ge", r - l), "Gt": ("ge", l - r - K(1)), "GtE": ("ge", l - r),
                           "Eq": ("eq", l - r), "NotEq": ("ne", l - r)}[t])
                l = r
            return fs[0] if len(fs) == 1 else ("and", fs)
        if isinstance(n, ast.Constant) and n.value is True:
            return TRUE
        return ("ne", self.e(n, fn, env))

    def e(self, n, fn, env):
        if isinstance(n, ast.Constant):
            return K(n.value)
        if isinstance(n, ast.UnaryOp):
            return -self.e(n.operand, fn, env)
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            return A(("arg", n.id))
        if isinstance(n, ast.BinOp):
            a, b = self.e(n.left, fn, env), self.e(n.right, fn, env)
            return {"Add": a + b, "Sub": a - b, "Mult": a * b}[type(n.op).__name__]
        if isinstance(n, ast.Subscript):
            return A(("ld", ("arg", n.value.id), self.e(n.slice, fn, env)))
        raise AnalysisBroken("bad spec expression " + ast.dump(n))


def isarg(fn, name):
    return any(a["n"] == name for a in fn.args)


def background(fn, unsigned, nonneg):
    fs = []
    la = load_atoms(fn)
    for b in unsigned:
        for p in la.get(b, ()):
            fs.append(("ge", A(("ld", ("arg", b), p))))
    for n in nonneg:
        if isarg(fn, n):
            fs.append(("ge", A(("arg", n))))
    return ("and", fs)


def holds(fn, spec, facts, bound):
    n = 0
    for env in spec.candidates(fn, bound):
        n += 1
        if n > 60:
            break
        if proves(facts, spec.build(fn, env)):
            return True
    return False


def stores_to(fn, name):
    for i in fn.ins.values():
        if i["op"] == "store":
            r, o = fn.addr(i["c"][1])
            if r == ("arg", name):
                yield i, o


def initial_load(fn, i):
    """no store to the same cell reaches this load within its iteration"""
    root, off = fn.addr(i["c"][0])
    seen = set()
    work = [(i["blk"], i["pos"])]
    while work:
        b, pos = work.pop()
        for j in fn.blocks[b]["i"][:pos]:
            if j["op"] == "store":
                r, o = fn.addr(j["c"][1])
                if r == root and (o == off or (o - off).const() is None):
                    return False
        if b in fn.headers:
            continue
        for p, _ in fn.pred[b]:
            if p not in seen:
                seen.add(p)
                work.append((p, len(fn.blocks[p]["i"])))
    return True


SZ = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8}


def store_index(i, o):
    s = SZ.get(i.get("vt"), 1)
    if all(c % s == 0 for c in o.d.values()):
        return Poly({m: c // s for m, c in o.d.items()})
    return o


def stripped(fn, v):
    while v["k"] == "i" and fn.ins[v["id"]]["op"] == "trunc":
        v = fn.ins[v["id"]]["c"][0]
    return fn.form(v)


def result_points(fn):
    """(failures, successes): stores of the error string of the returned Error"""
    fails, succ = [], []
    sret = [a["n"] for a in fn.args if a["sret"]]
    if not sret:
        return fails, succ
    for i in fn.ins.values():
        if i["op"] != "store" or i.get("vt") != "ptr":
            continue
        r, o = fn.addr(i["c"][1])
        if r == ("arg", sret[0]) and o.const() == 0:
            v = i["c"][0]
            if v["k"] == "null":
                succ.append(i)
            elif v["k"] == "i" and fn.ins[v["id"]]["op"] == "phi":
                for e in fn.ins[v["id"]]["inc"]:
                    blk = e["b"]
                    j = dict(i)
                    j["blk"] = blk
                    (succ if e["v"]["k"] == "null" else fails).append(j)
            else:
                fails.append(i)
    return fails, succ


def cell_values(fn, blk, root, off, depth=0, assume=None):
    """possible contents of memory cell root+off at the end of block blk:
    list of (value polynomial, extra facts); None when unknown"""
    assume = assume or {}
    if depth > 40:
        return None
    for i in reversed(fn.blocks[blk]["i"]):
        if i["op"] == "store":
            r, o = fn.addr(i["c"][1])
            if r == root:
                if o == off:
                    return [(stripped(fn, i["c"][0]), TRUE)]
                if (o - off).const() is None:
                    return None
        elif i["op"] == "load":
            r, o = fn.addr(i["c"][0])
            if r == root and o == off:
                return [(fn.iform(i["id"]), TRUE)]
    if blk in assume:
        return [(assume[blk], TRUE)]
    if blk in fn.headers:
        # coinductive: a header phi that carries the cell from iteration to iteration
        for ph in fn.blocks[blk]["i"]:
            if ph["op"] != "phi" or ph["t"] in ("ptr", "i1", "float", "double"):
                continue
            me = fn.iform(ph["id"])
            a2 = dict(assume)
            a2[blk] = me
            ok = True
            for e in ph["inc"]:
                r = cell_values(fn, e["b"], root, off, depth + 1, a2)
                if r is None or any(v != fn.form(e["v"]) and not proves(("and", [fn.path_all(e["b"]), x]), ("eq", v - fn.form(e["v"])))
                                    for v, x in r):
                    ok = False
                    break
            if ok:
                return [(me, TRUE)]
    if blk in fn.headers or blk == 0:
        return [(A(("cell0", root, off)), TRUE)]
    out = []
    per = []
    for p, k in fn.pred[blk]:
        r = cell_values(fn, p, root, off, depth + 1, assume)
        if r is None:
            return None
        per.append((p, r))
        ph = []
        for i in fn.blocks[blk]["i"]:
            if i["op"] == "phi" and i["t"] not in ("ptr", "i1", "float", "double"):
                for e in i["inc"]:
                    if e["b"] == p:
                        ph.append(("eq", fn.iform(i["id"]) - fn.form(e["v"])))
        for v, f in r:
            out.append((v, ("and", [f, fn.path_all(p), fn.edgecond(p, k)] + ph)))
    if all(len(r) == 1 for _, r in per):
        if len({r[0][0] for _, r in per}) == 1:
            return [(per[0][1][0][0], TRUE)]
        for i in fn.blocks[blk]["i"]:
            if i["op"] == "phi":
                inc = {e["b"]: fn.form(e["v"]) for e in i["inc"]}
                if all(inc[p] == r[0][0] for p, r in per):
                    return [(fn.iform(i["id"]), TRUE)]
    if len(out) > 64:
        return None
    return out
