"""Abstract interpretation of C++ methods over the clang AST.

Values are linear forms over symbols (a symbol never changes its value), the
path condition is a set of linear facts, buffers have a symbolic capacity and
pointers are (buffer, linear offset).  Methods of the same object are inlined.
Loops are summarised by inferring which locations they change and which of a
set of candidate invariants are inductive; everything else is forgotten.
Obligations ("this index is inside that buffer") are linear formulas that have
to follow from the path condition.  Machine arithmetic: an integer result that
cannot be shown to stay in range is treated as possibly wrapped around."""
import re
from vlib.core import strip, loc as srcloc
from vlib.ssa import Poly, K, A, NOT, TRUE, refute

RANGES = {"bool": (0, 1), "char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255), "short": (-2**15, 2**15 - 1),
          "unsigned short": (0, 2**16 - 1), "int": (-2**31, 2**31 - 1), "unsigned int": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1),
          "unsigned long": (0, 2**64 - 1), "long long": (-2**63, 2**63 - 1), "unsigned long long": (0, 2**64 - 1)}
SIZES = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
         "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "float": 4, "double": 8,
         "std::complex<float>": 8, "std::complex<double>": 16}
U = ("u",)
ZERO = K(0)


def ge(a, b):
    return ("ge", a - b)


def lt(a, b):
    return ("ge", b - a - K(1))


def eq(a, b):
    return ("eq", a - b)


def AND(*fs):
    return ("and", list(fs))


def OR(*fs):
    return ("or", list(fs))


_FA = {}


def fatoms(f):
    r = _FA.get(id(f))
    if r is not None and r[0] is f:
        return r[1]
    v = frozenset(_fatoms(f))
    if len(_FA) > 2000000:
        _FA.clear()
    _FA[id(f)] = (f, v)
    return v


def _fatoms(f):
    if f[0] in ("and", "or"):
        s = set()
        for x in f[1]:
            s |= fatoms(x)
        return s
    if f[0] in ("ge", "eq", "ne"):
        return f[1].atoms()
    return set()


def fkey(f):
    if f[0] in ("and", "or"):
        return (f[0],) + tuple(fkey(x) for x in f[1])
    if len(f) > 1:
        return (f[0], f[1].key())
    return f


def mergefacts(a, b):
    """the common facts and, when small, the disjunction of what differs"""
    ka, kb = {fkey(f) for f in a}, {fkey(f) for f in b}
    common = tuple(f for f in a if fkey(f) in kb)
    da = [f for f in a if fkey(f) not in kb]
    db = [f for f in b if fkey(f) not in ka]
    if da and db and len(da) <= 3 and len(db) <= 3 and all(f[0] in ("ge", "eq") for f in da + db):
        return common + (OR(AND(*da), AND(*db)),)
    return common


class State:
    __slots__ = ("env", "facts", "cells", "trail", "flags")

    def __init__(self, env, facts, cells, trail=None, flags=frozenset()):
        self.env, self.facts, self.cells, self.trail, self.flags = env, facts, cells, trail, flags

    def copy(self):
        return State(dict(self.env), self.facts, dict(self.cells), self.trail, self.flags)

    def set(self, k, v):
        s = self.copy()
        s.env[k] = v
        return s

    def assume(self, f):
        if f == TRUE:
            return self
        if f[0] == "and":
            s = self
            for x in f[1]:
                s = s.assume(x)
            return s
        s = State(self.env, self.facts + (f,), self.cells, self.trail, self.flags)
        return s


class Frame:
    n = 0

    def __init__(self, fn, parent=None, this=True):
        Frame.n += 1
        self.id = Frame.n
        self.fn = fn
        self.parent = parent
        self.this = this
        self.depth = parent.depth + 1 if parent else 0

    def chain(self):
        f = self
        while f:
            yield f.fn
            f = f.parent


class Hooks:
    """analysis-specific models; all optional"""
    inline_free = True

    def call(self, I, name, node, st, fr):
        return None

    def case(self, I, ival, st):
        return st

    def candidates(self, I, st):
        return []

    def assigned(self, I, loc, val, st):
        return st

    def backedge(self, I, st, node, fr):
        pass

    def ret(self, I, st, val, node, fr):
        pass

    def capof(self, I, buf):
        return None


class Interp:
    def __init__(self, prog, hooks):
        self.p = prog
        self.h = hooks
        self.n = 0
        self.range = {}
        self.obs = {}
        self.quiet = 0
        self.memo = {}
        self.steps = 0
        self.caps = {}
        self.loopmem = {}

    # ------------------------------------------------------------- symbols
    def fresh(self, t="long", tag="s"):
        self.n += 1
        a = (tag, self.n)
        r = RANGES.get(norm(t))
        if r:
            self.range[a] = r
        return A(a)

    def named(self, name, t="long"):
        a = ("f", name)
        if a not in self.range and RANGES.get(norm(t)):
            self.range[a] = RANGES[norm(t)]
        return A(a)

    def interval(self, p):
        lo = hi = 0
        for m, c in p.d.items():
            if not m:
                lo += c
                hi += c
                continue
            l = h = 1
            for a in m:
                r = self.range.get(a)
                if r is None:
                    return None
                ps = [l * r[0], l * r[1], h * r[0], h * r[1]]
                l, h = min(ps), max(ps)
            x, y = c * l, c * h
            lo += min(x, y)
            hi += max(x, y)
        return lo, hi

    def prove(self, st, goal, deep=True):
        """goal follows from the facts; without deep, from the linear ones alone"""
        if goal == TRUE:
            return True
        if goal[0] == "and":
            return all(self.prove(st, g, deep) for g in goal[1])
        if deep and self.prove(st, goal, False):
            return True
        if goal[0] in ("ge", "eq", "ne"):
            c = goal[1].const()
            if c is not None:
                return c >= 0 if goal[0] == "ge" else c == 0 if goal[0] == "eq" else c != 0
            if goal[0] == "ge":
                iv = self.interval(goal[1])
                if iv and iv[0] >= 0:
                    return True
        atoms = set(fatoms(goal))
        facts, rest = [], list(st.facts)
        if not deep:
            rest = [f for f in rest if f[0] != "or"]
        elif not any(f[0] == "or" for f in rest):
            return False
        changed = True
        while changed:
            changed = False
            nr = []
            for f in rest:
                fa = fatoms(f)
                if fa & atoms:
                    facts.append(f)
                    if not fa <= atoms:
                        atoms |= fa
                        changed = True
                else:
                    nr.append(f)
            rest = nr
        if deep and not any(f[0] == "or" for f in facts):
            return False
        key = (frozenset(fkey(f) for f in facts), fkey(goal))
        if key in self.memo:
            return self.memo[key]
        fs = list(facts)
        for a in atoms:
            r = self.range.get(a)
            if r:
                fs += [("ge", A(a) - K(r[0])), ("ge", K(r[1]) - A(a))]
        ok = refute(fs + [NOT(goal)], [300])
        self.memo[key] = ok
        return ok

    def possible(self, st, f):
        return not self.prove(st, NOT(f), False)

    def need(self, st, goal, node, fr, msg):
        if self.quiet:
            return
        ok = self.prove(st, goal)
        where = srcloc(fr.fn, node)
        k = (where, msg, fr.fn["q"])
        self.obs[k] = self.obs.get(k, True) and ok

    # --------------------------------------------------------------- types
    def ty(self, e, fr):
        t = e.get("t")
        return fr.fn["u"].types[t] if t is not None and t >= 0 else ""

    def fit(self, p, t, st, wrap=True):
        """p as a value of integer type t (possibly wrapped around)"""
        r = RANGES.get(norm(t))
        if r is None:
            return p
        c = p.const()
        if c is not None:
            if r[0] <= c <= r[1]:
                return p, st
        iv = self.interval(p)
        if iv and r[0] <= iv[0] and iv[1] <= r[1]:
            return p, st
        if self.prove(st, AND(ge(p, K(r[0])), ge(K(r[1]), p)), False):
            return p, st
        x = self.fresh(t)
        if wrap:
            m = r[1] - r[0] + 1
            st = st.assume(OR(eq(x, p), eq(x, p - K(m)), eq(x, p + K(m))))
        return x, st

    def poly(self, v, t, st):
        if v[0] == "i":
            return v[1], st
        if v[0] == "b":
            c = v[1]
            if c == TRUE:
                return K(1), st
            if c == ("false",):
                return K(0), st
            x = self.fresh("bool")
            return x, st.assume(OR(AND(eq(x, K(1)), c), AND(eq(x, K(0)), NOT(c))))
        return self.fresh(t), st

    def unknown(self, t, st=None):
        n = norm(t)
        if n in RANGES or n == "bool":
            return ("i", self.fresh(n))
        return U

    # ----------------------------------------------------------- locations
    def load(self, loc, st, node, fr, t):
        k = loc[0]
        if k in ("v", "f"):
            if loc in st.env:
                v = st.env[loc]
                if v[0] == "alias":
                    return self.load(v[1], st, node, fr, t)
                return v, st
            n = norm(t)
            if k == "f":
                if n in RANGES:
                    v = ("i", self.named(loc[1], n))
                elif n.endswith("*"):
                    v = ("p", loc[1], ZERO)
                elif "shared_ptr<" in n or "unique_ptr<" in n:
                    v = ("sp", loc[1])
                else:
                    v = ("obj", loc[1])
            else:
                v = self.unknown(t)
            s2 = st.set(loc, v)
            return v, s2
        if k == "cell":
            self.access(loc, st, node, fr)
            key = (loc[1], loc[2])
            if key in st.cells:
                return st.cells[key], st
            v = self.unknown(t)
            s2 = st.copy()
            s2.cells[key] = v
            return v, s2
        if k == "ip":
            self.access(loc, st, node, fr)
            return self.unknown(t), st
        return self.unknown(t), st

    def cap(self, buf, st):
        c = st.env.get(("cap", buf))
        if c is None:
            c = self.caps.get(buf)
        if c is None:
            c = self.h.capof(self, buf)
        return c

    def access(self, loc, st, node, fr):
        if loc[0] == "cell":
            cap = self.cap(loc[1], st)
            if cap is not None:
                c = cap(st) if callable(cap) else cap
                self.need(st, ge(loc[2], ZERO), node, fr, "index into %s is not negative" % bufname(loc[1]))
                self.need(st, lt(loc[2], c), node, fr, "index into %s is below its capacity" % bufname(loc[1]))
        elif loc[0] == "ip":
            _, nbytes, off, size = loc
            self.need(st, ge(off, ZERO), node, fr, "read position is not before the bytes obtained")
            self.need(st, ge(nbytes, off + K(size)), node, fr, "read position is within the bytes obtained")
            self.h_ip(st, node, fr)

    def h_ip(self, st, node, fr):
        g = getattr(self.h, "ipvalid", None)
        if g:
            g(self, st, node, fr)

    def store(self, loc, v, st, node, fr):
        k = loc[0]
        if k in ("v", "f"):
            cur = st.env.get(loc)
            if cur is not None and cur[0] == "alias":
                return self.store(cur[1], v, st, node, fr)
            st = self.h.assigned(self, loc, v, st)
            return st.set(loc, v)
        if k == "cell":
            self.access(loc, st, node, fr)
            s2 = st.copy()
            for key in list(s2.cells):
                if key[0] == loc[1]:
                    d = (key[1] - loc[2]).const()
                    if d is None or d == 0:
                        del s2.cells[key]
            s2.cells[(loc[1], loc[2])] = v
            return s2
        if k == "ip":
            self.access(loc, st, node, fr)
        return st

    def lval(self, e, st, fr):
        k = e["k"]
        if k in ("icast", "cast"):
            return self.lval(e["c"][0], st, fr)
        if k == "ref":
            if e.get("dk") == "global":
                return [(("g", e.get("q", e["n"])), st)]
            if e.get("dk") in ("var", "parm"):
                l = ("v", e["d"], self.owner(e, st, fr))
                v = st.env.get(l)
                while v is not None and v[0] == "alias":
                    l = v[1]
                    v = st.env.get(l) if l[0] in ("v", "f") else None
                return [(l, st)]
            return [(("o",), st)]
        if k == "mem":
            b = strip(e["c"][0])
            if b["k"] == "this" and fr.this:
                return [(("f", e["n"]), st)]
            out = []
            for v, s in self.ev(e["c"][0], st, fr):
                out.append((("o",), s))
            return out
        if k == "sub":
            out = []
            for b, s in self.ev(e["c"][0], st, fr):
                for i, s2 in self.ev(e["c"][1], s, fr):
                    ip, s2 = self.poly(i, "long", s2)
                    out.append((self.at(b, ip, self.ty(e, fr)), s2))
            return out
        if k == "un" and e["op"] == "*":
            return [(self.at(b, ZERO, self.ty(e, fr)), s) for b, s in self.ev(e["c"][0], st, fr)]
        if k == "un" and e["op"] in ("++", "--"):
            return [(l, s) for l, v, s in self.incdec(e, st, fr)]
        if k == "bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            return [(l, s) for l, v, s in self.assign(e, st, fr)]
        if k == "call":
            out = []
            for v, s in self.call(e, st, fr, want="lv"):
                out.append((v[1] if v[0] == "loc" else ("o",), s))
            return out
        return [(("o",), s) for v, s in self.ev(e, st, fr)]

    def owner(self, e, st, fr):
        f = fr
        while f is not None:
            if ("v", e["d"], f.id) in st.env:
                return f.id
            f = f.parent if getattr(f, "lexical", False) else None
        return fr.id

    def at(self, b, idx, t):
        if b[0] == "p":
            return ("cell", b[1], b[2] + idx)
        if b[0] == "ip":
            size = SIZES.get(norm(t), b[3] or 1)
            return ("ip", b[1], b[2] + idx.scale(size), size)
        return ("o",)

    # --------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        self.steps += 1
        k = e["k"]
        if k in ("int", "char", "bool"):
            v = e["v"]
            return [(("i", K(int(v))), st)]
        if k == "sizeof":
            return [(("i", K(e.get("v", 0) or 0)), st)]
        if k in ("icast", "cast"):
            return self.evcast(e, st, fr)
        if k == "ref":
            if e.get("dk") == "enum":
                return [(("i", K(e["v"])), st)]
            if e.get("dk") == "func":
                return [(U, st)]
            t = self.ty(e, fr)
            m = re.search(r"\[(\d+)\]$", t)
            if m and e.get("dk") == "global":
                b = "g:" + e.get("q", e["n"])
                self.caps[b] = K(int(m.group(1)))
                return [(("p", b, ZERO), st)]
            out = []
            for l, s in self.lval(e, st, fr):
                out.append(self.load(l, s, e, fr, t))
            return out
        if k == "mem" or k == "sub":
            out = []
            for l, s in self.lval(e, st, fr):
                out.append(self.load(l, s, e, fr, self.ty(e, fr)))
            return out
        if k == "this":
            return [(("this",), st)]
        if k == "nullptr":
            return [(("null",), st)]
        if k == "un":
            return self.evun(e, st, fr)
        if k == "bin":
            return self.evbin(e, st, fr)
        if k == "cond":
            T, F = self.cond(e["c"][0], st, fr)
            out = []
            for s in T:
                out += self.ev(e["c"][1], s, fr)
            for s in F:
                out += self.ev(e["c"][2], s, fr)
            return self.join(out)
        if k == "call":
            out = []
            for v, s in self.call(e, st, fr):
                if v[0] == "loc":
                    out.append(self.load(v[1], s, e, fr, self.ty(e, fr)))
                else:
                    out.append((v, s))
            return out
        if k == "new":
            out = []
            if e.get("size"):
                for v, s in self.ev(e["size"], st, fr):
                    p, s = self.poly(v, "long", s)
                    out.append(self.alloc(p, s))
            else:
                for a in e.get("c", []):
                    st = self.ev1(a, st, fr)[1]
                out.append((U, st))
            return out
        if k == "ctor":
            vals = [(None, st)]
            acc = [([], st)]
            for a in e.get("c", []):
                acc = [(vs + [v], s2) for vs, s in acc for v, s2 in self.ev(a, s, fr)]
            out = []
            for vs, s in acc:
                if "shared_ptr" in e["f"]["cls"] and vs and vs[0][0] in ("p", "sp"):
                    out.append((("sp", vs[0][1]), s))
                elif len(vs) == 1 and (e.get("copy") or e.get("move")):
                    out.append((vs[0], s))
                else:
                    h = self.h.call(self, "ctor", e, s, fr)
                    out += h if h is not None else [(U, s)]
            return out
        if k == "lambda":
            return [(("lam", e, fr), st)]
        if k == "throw":
            for a in e.get("c", []):
                pass
            return []
        for c in e.get("c", []) if isinstance(e.get("c"), list) else []:
            if isinstance(c, dict) and "k" in c:
                r = self.ev(c, st, fr)
                if r:
                    st = r[0][1]
        return [(self.unknown(self.ty(e, fr)), st)]

    def ev1(self, e, st, fr):
        r = self.ev(e, st, fr)
        return r[0] if r else (U, st)

    def alloc(self, n, st):
        self.n += 1
        b = "new%d" % self.n
        return ("p", b, ZERO), st.set(("cap", b), n)

    def join(self, outs):
        return outs

    def evcast(self, e, st, fr):
        out = []
        ck = e.get("ck", "")
        t = self.ty(e, fr)
        for v, s in self.ev(e["c"][0], st, fr):
            n = norm(t)
            if v[0] == "i":
                if n == "bool":
                    p = v[1]
                    out.append((("b", ("ne", p)), s) if p.const() is None else (("i", K(1 if p.const() else 0)), s))
                elif n in RANGES and ck in ("IntegralCast", "NoOp", "", "FloatingToIntegral"):
                    p, s = self.fit(v[1], n, s)
                    out.append((("i", p), s))
                elif n in RANGES:
                    out.append((v, s))
                elif n.endswith("*"):
                    out.append((U, s))
                else:
                    out.append((("fl", v[1]) if n in ("float", "double") else U, s))
            elif v[0] == "fl" and n in RANGES:
                out.append((("i", self.fresh(n)), s))
            elif v[0] == "ip" and n.endswith("*"):
                out.append((("ip", v[1], v[2], SIZES.get(norm(n[:-1]), 1)), s))
            elif v[0] == "u" and n in RANGES:
                out.append((("i", self.fresh(n)), s))
            elif v[0] == "b" and n in RANGES and n != "bool":
                p, s = self.poly(v, n, s)
                out.append((("i", p), s))
            else:
                out.append((v, s))
        return out

    def incdec(self, e, st, fr):
        out = []
        d = 1 if "++" in e["op"] else -1
        for l, s in self.lval(e["c"][0], st, fr):
            t = self.ty(e["c"][0], fr)
            v, s = self.load(l, s, e, fr, t)
            if v[0] == "i":
                if norm(t) in ("long", "long long"):
                    p = v[1] + K(d)      # counting by ones does not reach 2**63
                else:
                    p, s = self.fit(v[1] + K(d), t, s)
                nv = ("i", p)
            elif v[0] == "p":
                nv = ("p", v[1], v[2] + K(d))
            else:
                nv = self.unknown(t)
            s = self.store(l, nv, s, e, fr)
            out.append((l, v if e["op"].startswith("post") else nv, s))
        return out

    def evun(self, e, st, fr):
        op = e["op"]
        t = self.ty(e, fr)
        if op in ("++", "--", "post++", "post--"):
            return [(v, s) for l, v, s in self.incdec(e, st, fr)]
        if op == "*":
            out = []
            for l, s in self.lval(e, st, fr):
                out.append(self.load(l, s, e, fr, t))
            return out
        if op == "&":
            out = []
            for l, s in self.lval(e["c"][0], st, fr):
                if l[0] == "cell":
                    # taking the address of one past the end is fine
                    out.append((("p", l[1], l[2]), s))
                elif l[0] == "ip":
                    out.append((("ip", l[1], l[2], l[3]), s))
                else:
                    out.append((("addr", l), s))
            return out
        if op == "!":
            T, F = self.cond(e["c"][0], st, fr)
            return [(("b", ("false",)), s) for s in T] + [(("b", TRUE), s) for s in F]
        out = []
        for v, s in self.ev(e["c"][0], st, fr):
            if op == "-" and v[0] == "i":
                p, s = self.fit(-v[1], t, s)
                out.append((("i", p), s))
            elif op == "~" and v[0] == "i":
                p, s = self.fit(-v[1] - K(1), t, s) if not norm(t).startswith("unsigned") else (self.fresh(t), s)
                out.append((("i", p), s))
            elif op == "+":
                out.append((v, s))
            else:
                out.append((self.unknown(t), s))
        return out

    def assign(self, e, st, fr):
        """list of (loc, value, state)"""
        op = e["op"]
        out = []
        for v, s in self.ev(e["c"][1], st, fr):
            for l, s2 in self.lval(e["c"][0], s, fr):
                t = self.ty(e["c"][0], fr)
                if op == "=":
                    nv = v
                    if v[0] == "u":
                        nv = self.unknown(t)
                else:
                    cur, s2 = self.load(l, s2, e, fr, t)
                    nv, s2 = self.arith(op[:-1], cur, v, t, s2, e, fr)
                s3 = self.store(l, nv, s2, e, fr)
                out.append((l, nv, s3))
        return out

    def arith(self, op, a, b, t, s, e, fr):
        if a[0] == "p" and op in ("+", "-") and b[0] == "i":
            return ("p", a[1], a[2] + (b[1] if op == "+" else -b[1])), s
        if b[0] == "p" and op == "+" and a[0] == "i":
            return ("p", b[1], b[2] + a[1]), s
        if a[0] == "ip" and op in ("+", "-") and b[0] == "i":
            d = b[1].scale(a[3] or 1)
            return ("ip", a[1], a[2] + (d if op == "+" else -d), a[3]), s
        n = norm(t)
        if n in RANGES and op in ("/", "%"):
            x, s = self.poly(a, t, s)
            y, s = self.poly(b, t, s)
            if y.const() is None or y.const() == 0 or y.const() == -1:
                self.need(s, ("ne", y), e, fr, "divisor is not zero")
                if not n.startswith("unsigned"):
                    mn = RANGES[n][0]
                    self.need(s, OR(ge(y, ZERO), ge(K(-2), y), ge(x, K(mn + 1))), e, fr, "quotient is representable (no minimum / -1)")
            r = self.fresh(n)
            c = y.const()
            if c and c > 0 and self.prove(s, ge(x, ZERO)):
                a0 = list(r.atoms())[0]
                if op == "%":
                    self.range[a0] = (0, c - 1)
                else:
                    s = s.assume(AND(ge(x, r.scale(c)), ge(r.scale(c) + K(c - 1), x)))
            return ("i", r), s
        if n not in RANGES:
            return self.unknown(t), s
        x, s = self.poly(a, t, s)
        y, s = self.poly(b, t, s)
        if op == "+":
            p, s = self.fit(x + y, t, s)
            return ("i", p), s
        if op == "-":
            p, s = self.fit(x - y, t, s)
            return ("i", p), s
        if op == "*":
            if x.const() is not None or y.const() is not None:
                q = y.scale(x.const()) if x.const() is not None else x.scale(y.const())
                p, s = self.fit(q, t, s, wrap=False)
                return ("i", p), s
            return ("i", self.fresh(n)), s
        if op == "&":
            for c, o in ((x.const(), y), (y.const(), x)):
                if c is not None and c >= 0:
                    r = self.fresh(n)
                    self.range[list(r.atoms())[0]] = (0, c)
                    return ("i", r), s
        if op == ">>" and y.const() is not None:
            iv = self.interval(x)
            if iv and iv[0] >= 0:
                r = self.fresh(n)
                self.range[list(r.atoms())[0]] = (iv[0] >> y.const(), iv[1] >> y.const())
                return ("i", r), s
        return ("i", self.fresh(n)), s

    def evbin(self, e, st, fr):
        op = e["op"]
        if op in ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="):
            return [(v, s) for l, v, s in self.assign(e, st, fr)]
        if op == ",":
            out = []
            for v, s in self.ev(e["c"][0], st, fr):
                out += self.ev(e["c"][1], s, fr)
            return out
        if op in ("&&", "||"):
            T, F = self.cond(e, st, fr)
            return [(("b", TRUE), s) for s in T] + [(("b", ("false",)), s) for s in F]
        out = []
        for a, s in self.ev(e["c"][0], st, fr):
            for b, s2 in self.ev(e["c"][1], s, fr):
                if op in ("==", "!=", "<", "<=", ">", ">="):
                    f = self.compare(op, a, b)
                    out.append((("b", f) if f is not None else ("i", self.fresh("bool")), s2))
                else:
                    v, s3 = self.arith(op, a, b, self.ty(e, fr), s2, e, fr)
                    out.append((v, s3))
        return out

    def compare(self, op, a, b):
        if a[0] == "b" and b[0] == "i" and b[1].const() is not None:
            a, b = (a, b)
            if op in ("==", "!="):
                f = a[1] if b[1].const() else NOT(a[1])
                return f if op == "==" else NOT(f)
        if a[0] == "null" and b[0] == "null":
            return TRUE if op == "==" else ("false",)
        if (a[0] == "null" and b[0] in ("p", "ip", "objp")) or (b[0] == "null" and a[0] in ("p", "ip", "objp")):
            return ("false",) if op == "==" else TRUE
        if a[0] == "p" and b[0] == "p" and a[1] == b[1]:
            a, b = ("i", a[2]), ("i", b[2])
        if a[0] != "i" or b[0] != "i":
            return None
        x, y = a[1], b[1]
        return {"==": ("eq", x - y), "!=": ("ne", x - y), "<": lt(x, y), "<=": ge(y, x), ">": lt(y, x), ">=": ge(x, y)}[op]

    def cond(self, e, st, fr):
        """(true states, false states)"""
        k = e["k"]
        if k == "bin" and e["op"] in ("&&", "||"):
            T, F = self.cond(e["c"][0], st, fr)
            if e["op"] == "&&":
                T2 = []
                for s in T:
                    a, b = self.cond(e["c"][1], s, fr)
                    T2 += a
                    F = F + b
                return T2, self.dedupe(F)
            F2 = []
            for s in F:
                a, b = self.cond(e["c"][1], s, fr)
                T = T + a
                F2 += b
            return self.dedupe(T), F2
        if k == "un" and e["op"] == "!":
            T, F = self.cond(e["c"][0], st, fr)
            return F, T
        T, F = [], []
        for v, s in self.ev(e, st, fr):
            if v[0] == "i":
                c = v[1].const()
                if c is not None:
                    (T if c else F).append(s)
                    continue
                f = ("ne", v[1])
            elif v[0] == "b":
                f = v[1]
            elif v[0] == "null":
                F.append(s)
                continue
            elif v[0] in ("p", "ip"):
                T.append(s)
                continue
            else:
                T.append(s)
                F.append(s)
                continue
            if f == TRUE:
                T.append(s)
            elif f == ("false",):
                F.append(s)
            else:
                if self.possible(s, f):
                    T.append(s.assume(f))
                if self.possible(s, NOT(f)):
                    F.append(s.assume(NOT(f)))
        return T, F

    def dedupe(self, sts):
        """merge states that differ only in their facts"""
        out = []
        for s in sts:
            for i, o in enumerate(out):
                if o.env == s.env and o.cells == s.cells and o.flags == s.flags:
                    if o.facts != s.facts:
                        out[i] = State(o.env, mergefacts(o.facts, s.facts), o.cells, o.trail, o.flags)
                    break
            else:
                out.append(s)
        return out

    # ---------------------------------------------------------------- calls
    def args(self, e, st, fr):
        acc = [([], st)]
        for a in e.get("c", []):
            acc = [(vs + [v], s2) for vs, s in acc for v, s2 in self.ev(a, s, fr)]
        return acc

    def call(self, e, st, fr, want="v"):
        f = e.get("f")
        name = f["q"].split("::")[-1] if f else ""
        h = self.h.call(self, name, e, st, fr)
        if h is not None:
            return h
        if not f and e.get("fn"):
            out = []
            for v, s in self.ev(e["fn"], st, fr):
                out += [(self.unknown(self.ty(e, fr)), s2) for vs, s2 in self.args(e, s, fr)]
            return out
        # operator calls
        if e.get("op"):
            op = e["op"]
            a = e["c"]
            if op == "[]":
                return [(U, s) if norm(self.ty(e, fr)) not in RANGES else (self.unknown(self.ty(e, fr)), s) for vs, s in self.args(e, st, fr)]
            if op == "=" and len(a) == 2:
                out = []
                for v, s in self.ev(a[1], st, fr):
                    for l, s2 in self.lval(a[0], s, fr):
                        out.append((("loc", l), self.store(l, v, s2, e, fr)))
                return out
            if op == "()":
                out = []
                for v, s in self.ev(a[0], st, fr):
                    if v[0] == "lam":
                        out += self.inline_lambda(v, a[1:], e, s, fr)
                    else:
                        out.append((self.unknown(self.ty(e, fr)), s))
                return out
            return [(self.unknown(self.ty(e, fr)), s) for vs, s in self.args(e, st, fr)]
        obj = e.get("obj")
        onthis = obj is not None and strip(obj)["k"] == "this" and fr.this
        if name == "get" and obj is not None:
            out = []
            for v, s in self.ev(obj, st, fr):
                out.append((("p", v[1], ZERO) if v[0] == "sp" else U, s))
            return out
        if name in ("memcpy", "memmove"):
            return self.memcpy(e, st, fr)
        if name in ("min", "max") and len(e["c"]) == 2:
            out = []
            for vs, s in self.args(e, st, fr):
                x, s = self.poly(vs[0], "long", s)
                y, s = self.poly(vs[1], "long", s)
                if norm(self.ty(e, fr)) in RANGES:
                    r = self.fresh(self.ty(e, fr))
                    if name == "min":
                        s = s.assume(AND(ge(x, r), ge(y, r), OR(eq(r, x), eq(r, y))))
                    else:
                        s = s.assume(AND(ge(r, x), ge(r, y), OR(eq(r, x), eq(r, y))))
                    out.append((("i", r), s))
                else:
                    out.append((self.unknown(self.ty(e, fr)), s))
            return out
        if name in ("max", "min", "lowest") and "numeric_limits" in (f.get("cls") or "") and norm(self.ty(e, fr)) in RANGES:
            r = RANGES[norm(self.ty(e, fr))]
            return [(("i", K(r[1] if name == "max" else r[0])), st)]
        if name == "malloc" and "ta" in f:
            out = []
            for vs, s in self.args(e, st, fr):
                size = SIZES.get(norm(f["ta"]))
                if size and vs and vs[-1][0] == "i":
                    p = vs[-1][1]
                    if all(c % size == 0 for c in p.d.values()):
                        q = Poly({m: c // size for m, c in p.d.items()})
                        v, s = self.alloc(q, s)
                        out.append((("sp", v[1]), s))
                        continue
                v, s = self.alloc(self.fresh("long"), s)
                out.append((("sp", v[1]), s))
            return out
        g = self.p.callee(e, fr.fn["u"]) if f else None
        if g is not None and "body" in g and fr.depth < 12 and g not in list(fr.chain()):
            if onthis or (obj is None and self.h.inline_free and self.inlineable(g, fr)):
                return self.inline(g, e, st, fr, onthis)
        # unknown call: arguments evaluated, references and addresses forgotten
        out = []
        if obj is not None and not onthis:
            objs = self.ev(obj, st, fr)
        else:
            objs = [(U, st)]
        for ov, s in objs:
            for vs, s2 in self.args(e, s, fr):
                s3 = self.clobber(e, vs, s2, fr)
                out.append((self.unknown(self.ty(e, fr)), s3))
        return out

    def inlineable(self, g, fr):
        return g["path"].startswith(("src/", "include/")) and not any(x in g["path"] for x in ("kernel", "util.cpp", "datetime"))

    def clobber(self, e, vs, st, fr):
        f = e.get("f")
        for i, v in enumerate(vs):
            t = fr.fn["u"].types[f["pt"][i]] if f and i < len(f["pt"]) else ""
            if v[0] == "addr" and v[1][0] in ("v", "f"):
                st = st.copy()
                st.env.pop(v[1], None)
                st.env[v[1]] = ("i", self.fresh("long"))
            elif t.endswith("&") and not t.startswith("const") and e["c"][i]["k"] in ("ref", "mem"):
                for l, s in self.lval(e["c"][i], st, fr):
                    if l[0] in ("v", "f"):
                        st = s.set(l, self.unknown(self.ty(e["c"][i], fr)))
        return st

    def memcpy(self, e, st, fr):
        out = []
        for vs, s in self.args(e, st, fr):
            dst, src, n = vs[0], vs[1], vs[2]
            nb, s = self.poly(n, "unsigned long", s)
            for which, v, a in (("destination", dst, e["c"][0]), ("source", src, e["c"][1])):
                if v[0] == "p":
                    cap = self.cap(v[1], s)
                    if cap is None:
                        continue
                    c = cap(s) if callable(cap) else cap
                    t = self.ty(strip(a), fr)
                    size = SIZES.get(norm(t[:-1]) if t.endswith("*") else norm(t), None)
                    if size is None:
                        continue
                    self.need(s, ge(v[2], ZERO), e, fr, "memcpy %s starts inside %s" % (which, bufname(v[1])))
                    self.need(s, ge(c.scale(size), v[2].scale(size) + nb), e, fr, "memcpy %s stays inside %s" % (which, bufname(v[1])))
                    if which == "destination":
                        s = s.copy()
                        for key in list(s.cells):
                            if key[0] == v[1]:
                                del s.cells[key]
                elif v[0] == "ip":
                    self.need(s, ge(v[1], v[2] + nb), e, fr, "memcpy %s stays within the bytes obtained" % which)
                    self.h_ip(s, e, fr)
            out.append((dst, s))
        return out

    def inline(self, g, e, st, fr, onthis):
        nf = Frame(g, fr, this=onthis)
        acc = [st]
        for i, p in enumerate(g["ps"]):
            t = g["u"].types[p["t"]]
            if i >= len(e["c"]):
                break
            a = e["c"][i]
            nxt = []
            for s in acc:
                if t.endswith("&") and strip(a)["k"] in ("ref", "mem", "sub", "un"):
                    for l, s2 in self.lval(a, s, fr):
                        if l[0] == "o" or l[0] == "g":
                            v, s2 = self.load(l, s2, a, fr, self.ty(a, fr))
                            nxt.append(s2.set(("v", p["d"], nf.id), v))
                        else:
                            nxt.append(s2.set(("v", p["d"], nf.id), ("alias", l)))
                else:
                    for v, s2 in self.ev(a, s, fr):
                        if v[0] == "loc":
                            v, s2 = self.load(v[1], s2, a, fr, self.ty(a, fr))
                        nxt.append(s2.set(("v", p["d"], nf.id), v))
            acc = nxt
        rt = g["u"].types[g["rt"]] if g.get("rt") is not None else "void"
        nf.retref = rt.endswith("&")
        o = self.exec(g["body"], acc, nf)
        out = []
        for v, s in o["return"]:
            out.append((v, self.dropframe(s, nf)))
        for s in o["next"]:
            out.append((U, self.dropframe(s, nf)))
        return self.joinrets(out)

    def inline_lambda(self, v, args, e, st, fr):
        lam, lf = v[1], v[2]
        fn = dict(lf.fn)
        nf = Frame(fn, lf, this=lf.this)
        nf.lexical = True
        nf.retref = False
        acc = [st]
        for i, p in enumerate(lam.get("ps", [])):
            nxt = []
            for s in acc:
                for x, s2 in self.ev(args[i], s, fr):
                    nxt.append(s2.set(("v", p["d"], nf.id), x))
            acc = nxt
        o = self.exec(lam["body"], acc, nf)
        out = [(x, self.dropframe(s, nf)) for x, s in o["return"]] + [(U, self.dropframe(s, nf)) for s in o["next"]]
        return self.joinrets(out)

    def dropframe(self, s, nf):
        s = s.copy()
        for k in [k for k in s.env if k[0] == "v" and k[2] == nf.id]:
            del s.env[k]
        return s

    def joinrets(self, outs):
        res = []
        for v, s in outs:
            for i, (w, o) in enumerate(res):
                if w == v and o.env == s.env and o.cells == s.cells:
                    res[i] = (w, State(o.env, mergefacts(o.facts, s.facts), o.cells, o.trail, o.flags))
                    break
            else:
                res.append((v, s))
        return res

    # ----------------------------------------------------------- statements
    def exec(self, s, sts, fr):
        """outcome: next/break/continue: states; return: (value, state); goto:<label>: states"""
        o = {"next": [], "break": [], "continue": [], "return": []}

        def add(o2, keep=("break", "continue", "return")):
            for k, v in o2.items():
                if k in keep or k.startswith("goto:"):
                    o.setdefault(k, []).extend(v)

        k = s["k"]
        if k == "block":
            cur = list(sts)
            pend = {}
            for c in s["c"]:
                if c.get("label"):
                    cur = self.dedupe(cur + pend.pop("goto:" + c["label"], []))
                if not cur:
                    continue
                o2 = self.exec(c, cur, fr)
                for kk, v in o2.items():
                    if kk.startswith("goto:"):
                        pend.setdefault(kk, []).extend(v)
                    elif kk != "next":
                        o[kk].extend(v)
                cur = o2["next"]
            o["next"] = cur
            for kk, v in pend.items():
                o.setdefault(kk, []).extend(v)
            return o
        if not sts:
            return o
        if k == "decl":
            cur = list(sts)
            for v in s["v"]:
                nxt = []
                t = fr.fn["u"].types[v["t"]]
                for st in cur:
                    if v.get("init"):
                        if t.endswith("&") and strip(v["init"])["k"] in ("ref", "mem", "sub", "un", "call"):
                            for l, s2 in self.lval(v["init"], st, fr):
                                if l[0] in ("o", "g"):
                                    nxt.append(s2.set(("v", v["d"], fr.id), self.unknown(t)))
                                else:
                                    nxt.append(s2.set(("v", v["d"], fr.id), ("alias", l)))
                            continue
                        for x, s2 in self.ev(v["init"], st, fr):
                            if x[0] == "u":
                                x = self.unknown(t)
                            nxt.append(s2.set(("v", v["d"], fr.id), x))
                    else:
                        nxt.append(st.set(("v", v["d"], fr.id), self.unknown(t)))
                cur = nxt
            o["next"] = self.dedupe(cur)
            return o
        if k == "if":
            T, F = [], []
            for st in sts:
                if s.get("init"):
                    r = self.exec(s["init"], [st], fr)["next"]
                else:
                    r = [st]
                for st2 in r:
                    if s.get("var"):
                        r2 = self.exec({"k": "decl", "v": [s["var"]], "l": s.get("l")}, [st2], fr)["next"]
                    else:
                        r2 = [st2]
                    for st3 in r2:
                        a, b = self.cond(s["cond"], st3, fr)
                        T += a
                        F += b
            o1 = self.exec(s["then"], T, fr) if T else {"next": []}
            add(o1)
            nxt = list(o1["next"])
            if s.get("else"):
                o2 = self.exec(s["else"], F, fr) if F else {"next": []}
                add(o2)
                nxt += o2["next"]
            else:
                nxt += F
            o["next"] = self.dedupe(nxt)
            return o
        if k in ("while", "for", "do"):
            return self.loop(s, sts, fr)
        if k == "rfor":
            return self.loop(s, sts, fr)
        if k == "switch":
            return self.switch(s, sts, fr)
        if k in ("case", "default"):
            return self.exec(s["body"], sts, fr)
        if k == "return":
            for st in sts:
                if s.get("v") is not None:
                    if getattr(fr, "retref", False):
                        for l, s2 in self.lval(s["v"], st, fr):
                            o["return"].append((("loc", l), s2))
                    else:
                        for v, s2 in self.ev(s["v"], st, fr):
                            o["return"].append((v, s2))
                else:
                    o["return"].append((U, st))
            for v, st in o["return"]:
                if fr.depth == 0:
                    self.h.ret(self, st, v, s, fr)
            return o
        if k == "break":
            o["break"] = list(sts)
            return o
        if k == "continue":
            o["continue"] = list(sts)
            return o
        if k == "goto":
            o["goto:" + s.get("n", "?")] = list(sts)
            return o
        if k == "null_stmt":
            o["next"] = list(sts)
            return o
        if k == "try":
            return self.exec(s["body"], sts, fr)
        # expression statement
        nxt = []
        for st in sts:
            for v, s2 in self.ev(s, st, fr):
                nxt.append(s2)
        o["next"] = self.dedupe(nxt)
        return o

    def switch(self, s, sts, fr):
        o = {"next": [], "break": [], "continue": [], "return": []}
        items = []

        def flat(x):
            labels = []
            while x["k"] in ("case", "default"):
                labels.append(x.get("ival") if x["k"] == "case" else "default")
                x = x["body"]
            return labels, x
        body = s["body"]["c"] if s["body"]["k"] == "block" else [s["body"]]
        for c in body:
            items.append(flat(c))
        vals = [l for ls, _ in items for l in ls if l != "default"]
        hasdef = any("default" in ls for ls, _ in items)
        breaks = []
        for st in sts:
            for v, s2 in self.ev(s["cond"], st, fr):
                p, s2 = self.poly(v, "long", s2)
                cur = []
                for labels, x in items:
                    for l in labels:
                        if l == "default":
                            if p.const() is None or p.const() not in vals:
                                cur.append(s2)
                        elif p.const() is not None:
                            if p.const() == l:
                                cur.append(s2)
                        else:
                            f = eq(p, K(l)) if l is not None else TRUE
                            if self.possible(s2, f):
                                s3 = s2.assume(f)
                                s3 = State(s3.env, s3.facts, s3.cells, (l, x.get("l")), s3.flags)
                                cur.append(self.h.case(self, l, s3))
                    if not cur:
                        continue
                    o2 = self.exec(x, cur, fr)
                    breaks += o2["break"]
                    for k in o2:
                        if k == "continue" or k == "return" or k.startswith("goto:"):
                            o.setdefault(k, []).extend(o2[k])
                    cur = o2["next"]
                breaks += cur
                if not hasdef and (p.const() is None or p.const() not in vals):
                    breaks.append(s2)
        o["next"] = self.dedupe(breaks)
        return o

    def loop(self, s, sts, fr):
        entries = []
        for st0 in sts:
            if s["k"] == "for" and s.get("init"):
                entries += self.exec(s["init"], [st0], fr)["next"]
            elif s["k"] == "rfor":
                entries += [s2 for v, s2 in self.ev(s["range"], st0, fr)]
            else:
                entries.append(st0)
        if not entries:
            return {"next": [], "break": [], "continue": [], "return": []}
        groups = {}
        for e in entries:
            groups.setdefault(frozenset((k, v) for k, v in e.env.items() if k[0] != "cap" and v[0] == "sp"), []).append(e)
        o = {"next": [], "break": [], "continue": [], "return": []}
        for es in groups.values():
            for k, v in self.loop1(s, es, fr).items():
                o.setdefault(k, []).extend(v)
        o["next"] = self.dedupe(o["next"])
        return o

    def differing(self, base, others):
        """locations whose value is not the same in all states"""
        mod = set()
        for b in others:
            for k, v in base.env.items():
                if k[0] != "cap" and b.env.get(k, v) != v:
                    mod.add(k)
            for k, v in b.env.items():
                if k not in base.env and k[0] == "f" and v != self.initial(k, v):
                    mod.add(k)
            if base.cells != b.cells:
                mod.add(("cells",))
        return mod

    def once(self, s, head, fr):
        """one iteration from head: (backedge states, exit states, outcome)"""
        k = s["k"]
        exits = []
        if k in ("while", "for"):
            if s.get("cond"):
                T, F = self.cond(s["cond"], head, fr)
            else:
                T, F = [head], []
            exits += F
        elif k == "rfor":
            v = s["var"]
            T = [head.set(("v", v["d"], fr.id), self.unknown(fr.fn["u"].types[v["t"]]))]
            exits.append(head)
        else:
            T = [head]
        o = self.exec(s["body"], T, fr) if T else {"next": [], "break": [], "continue": [], "return": []}
        exits += o["break"]
        back = self.dedupe(o["next"] + o["continue"])
        if k == "for" and s.get("inc"):
            nb = []
            for b in back:
                nb += [s2 for v, s2 in self.ev(s["inc"], b, fr)]
            back = nb
        elif k == "do":
            nb = []
            for b in back:
                T2, F2 = self.cond(s["cond"], b, fr)
                nb += T2
                exits += F2
            back = nb
        return back, exits, o

    def loop1(self, s, entries, fr):
        self.quiet += 1
        st = entries[0]
        if len(entries) > 1:
            facts = st.facts
            for e in entries[1:]:
                ks = {fkey(f) for f in e.facts}
                facts = tuple(f for f in facts if fkey(f) in ks)
            st = State(st.env, facts, st.cells, st.trail, frozenset.intersection(*[e.flags for e in entries]))
        # start from what earlier visits of this loop already had to give up
        key = (id(s), tuple(id(f) for f in fr.chain()))
        mod, dropped = self.loopmem.get(key, (set(), set()))
        mod = {m for m in mod if m[0] != "v" or m in st.env}
        dropped = set(dropped)
        mod |= self.differing(st, entries[1:])
        for it in range(40):
            head, cands = self.head(st, mod, dropped, entries)
            back, exits, o = self.once(s, head, fr)
            new = self.differing(head, back) - mod
            changed = bool(new)
            if changed:
                mod |= new
                continue
            bad = False
            for name, mk in cands:
                if name in dropped:
                    continue
                for b in back:
                    f = mk(b)
                    if f is None or not self.prove(b, f):
                        dropped.add(name)
                        bad = True
                        break
            if not bad:
                break
        self.quiet -= 1
        self.loopmem[key] = (mod, dropped)
        if not self.quiet:
            head, cands = self.head(st, mod, dropped, entries)
            back, exits, o = self.once(s, head, fr)
        for b in back:
            self.h.backedge(self, b, s, fr)
        out = {"next": exits, "break": [], "continue": [], "return": o["return"]}
        for k, v in o.items():
            if k.startswith("goto:"):
                out[k] = v
        return out

    def initial(self, k, v):
        if v[0] == "i":
            return ("i", A(("f", k[1])))
        if v[0] in ("p",):
            return ("p", k[1], ZERO)
        if v[0] == "sp":
            return ("sp", k[1])
        return v

    def head(self, st, mod, dropped, entries):
        h = st.copy()
        cands = []
        if ("cells",) in mod:
            h.cells = {}
        for k in mod:
            if k == ("cells",):
                continue
            v = st.env.get(k)
            if v is None and k[0] == "f":
                v = ("i", A(("f", k[1])))
            if v is None:
                continue
            if v[0] == "alias":
                continue
            if v[0] == "i":
                a = self.fresh("long", "h")
                ir = self.interval(v[1])
                tr = self.range.get(("f", k[1])) if k[0] == "f" else None
                if len(v[1].d) == 1:
                    m = list(v[1].d)[0]
                    if len(m) == 1 and m[0] in self.range:
                        self.range[list(a.atoms())[0]] = (-2**63, 2**63 - 1) if self.range[m[0]][1] <= 2**63 else self.range[m[0]]
                h.env[k] = ("i", a)
                init = v[1]

                def cur(s, k=k):
                    x = s.env.get(k)
                    return x[1] if x is not None and x[0] == "i" else None
                cands.append(((k, ">=init"), lambda s, cur=cur, init=init: None if cur(s) is None else ge(cur(s), init)))
                cands.append(((k, "<=init"), lambda s, cur=cur, init=init: None if cur(s) is None else ge(init, cur(s))))
                for c in (0, 1):
                    cands.append(((k, ">=%d" % c), lambda s, cur=cur, c=c: None if cur(s) is None else ge(cur(s), K(c))))
            elif v[0] == "sp":
                self.n += 1
                b = "any%d" % self.n
                h.env[k] = ("sp", b)
                h.env[("cap", b)] = self.fresh("long")
            elif v[0] == "b":
                h.env[k] = ("i", self.fresh("bool"))
            elif v[0] == "p":
                h.env[k] = ("p", v[1], self.fresh("long"))
            else:
                h.env[k] = U
        for name, mk in self.h.candidates(self, st):
            cands.append((name, mk))
        # keep candidates that hold on entry and assume them
        live = []
        for name, mk in cands:
            if name in dropped:
                continue
            if any(f0 is None or not self.prove(e, f0) for e in entries for f0 in (mk(e),)):
                dropped.add(name)
                continue
            live.append((name, mk))
            f = mk(h)
            if f is not None:
                h = h.assume(f)
        return h, live

    def basector(self, g, e, st, fr):
        nf = Frame(g, fr)
        nf.retref = False
        for p, a in zip(g["ps"], e["c"]):
            v, st = self.ev1(a, st, fr)
            st = st.set(("v", p["d"], nf.id), v)
        for i in g["inits"]:
            n = (i.get("field") or "").split("::")[-1]
            if n and i.get("v") is not None:
                v, st = self.ev1(i["v"], st, nf)
                st = st.set(("f", n), v if v[0] != "u" else ("obj", n))
        if "body" in g:
            o = self.exec(g["body"], [st], nf)
            rs = o["next"] + [s for v, s in o["return"]]
            st = rs[0] if rs else st
        return self.dropframe(st, nf)

    # ------------------------------------------------------------------ run
    def run(self, fn, st, ctor=False):
        fr = Frame(fn)
        rt = fn["u"].types[fn["rt"]] if fn.get("rt") is not None and fn["rt"] >= 0 else "void"
        fr.retref = rt.endswith("&")
        for p in fn["ps"]:
            t = fn["u"].types[p["t"]]
            if ("v", p["d"], "param") in st.env:
                v = st.env[("v", p["d"], "param")]
            else:
                v = self.unknown(t)
            st = st.set(("v", p["d"], fr.id), v)
        if fn.get("ctor"):
            for i in fn.get("inits", []):
                if i.get("v") is None:
                    continue
                n = (i.get("field") or "").split("::")[-1]
                if not n:
                    g = self.p.callee(i["v"], fn["u"]) if i["v"]["k"] == "ctor" else None
                    if g is not None and g.get("inits"):
                        st = self.basector(g, i["v"], st, fr)
                        continue
                    r = self.ev(i["v"], st, fr)
                    if r:
                        st = r[0][1]
                    continue
                r = self.ev(i["v"], st, fr)
                if r:
                    v, st = r[0]
                    st = st.set(("f", n), v if v[0] != "u" else ("obj", n))
        o = self.exec(fn["body"], [st], fr)
        res = list(o["return"]) + [(U, s) for s in o["next"]]
        for s in o["next"]:
            self.h.ret(self, s, U, None, fr)
        return res, fr


def bufname(b):
    return "a new buffer" if b.startswith("new") else "its buffer" if b.startswith("any") else b[2:] if b.startswith("g:") else b


def norm(t):
    t = t.strip()
    if t.endswith("&"):
        t = t[:-1].strip()
    while t.startswith("const "):
        t = t[6:]
    while t.endswith((" const", "*const")):
        t = t[:-5].strip()
    if t.startswith("volatile "):
        t = t[9:]
    if t.startswith("enum "):
        return "int"
    if t.startswith("awkward::util::ForthError"):
        return "int"
    return t.strip()
