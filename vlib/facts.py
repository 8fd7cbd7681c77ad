"""Forward dataflow of value-set facts over a function's CFG.

At every CFG node: for each *subject* (a canonical expression over `this`,
parameters and locals) the set of integer values it may have, and for each
boolean condition whether it is known true or false.  Facts are learnt from
branches and switch labels, and dropped when a variable they mention is
written.  Fields of `this` are treated as constant in const methods and in
methods that never assign them.
"""
import re
from .core import walk, walk_nolambda, strip, tstr, children
from .cfg import CFG, single_defs, lambdas

SYN = {"dtype": "dtype_", "shape": "shape_", "strides": "strides_", "byteoffset": "byteoffset_",
       "itemsize": "itemsize_", "format": "format_", "ptr": "ptr_", "ptr_lib": "ptr_lib_"}
TRANSPARENT = ("get", "operator*", "operator->")


class Canon:
    def __init__(self, fn, prog=None):
        self.fn = fn
        self.sd = single_defs(fn)
        self.memo = {}
        self.par = {p["d"]: "p%d:%s" % (i, p["n"]) for i, p in enumerate(fn["ps"])}
        self.depth = 0

    def __call__(self, n):
        n = strip(n)
        k = id(n)
        if k not in self.memo:
            self.depth += 1
            self.memo[k] = self._c(n) if self.depth < 60 else "?deep"
            self.depth -= 1
        return self.memo[k]

    def _c(self, n):
        k = n["k"]
        if k == "this":
            return "this"
        if k == "ref":
            if n.get("dk") == "enum":
                return "%d" % n["v"] if "v" in n else n["n"]
            d = n.get("d")
            if d in self.par:
                return self.par[d]
            if d in self.sd:
                i = strip(self.sd[d])
                if i["k"] in ("ref", "mem", "call", "int", "this", "bin", "un", "ctor", "cond"):
                    c = self(i)
                    if not c.startswith("?") and len(c) < 400:
                        return c
            return "v%s:%s" % (d, n.get("n"))
        if k == "int":
            return str(n["v"])
        if k == "bool":
            return "true" if n["v"] else "false"
        if k == "str":
            return repr(n["v"])
        if k == "mem":
            b = self(n["c"][0]) if n.get("c") else "?"
            return b + "." + SYN.get(n["n"], n["n"])
        if k == "un":
            if n["op"] in ("*", "&"):
                return self(n["c"][0])
            return n["op"] + self(n["c"][0])
        if k == "bin":
            return "(%s %s %s)" % (self(n["c"][0]), n["op"], self(n["c"][1]))
        if k == "index":
            return "%s[%s]" % (self(n["c"][0]), self(n["c"][1]))
        if k == "call":
            f = n.get("f") or {}
            name = f.get("q", "?").split("::")[-1]
            if n.get("op") in ("->", "*") and len(n["c"]) == 1:
                return self(n["c"][0])
            if n.get("op"):
                if n["op"] == "[]":
                    return "%s[%s]" % (self(n["c"][0]), self(n["c"][1]))
                return "(" + (" %s " % n["op"]).join(self(c) for c in n["c"]) + ")"
            if n.get("obj"):
                o = self(n["obj"])
                if name == "get" and not n["c"]:
                    return o
                if name in SYN and not n["c"]:
                    return o + "." + SYN[name]
                if name == "ndim" and not n["c"]:
                    return o + ".shape_.size()"
                if name == "isscalar" and not n["c"]:
                    return "(%s.shape_.size() == 0)" % o
                if name == "empty" and not n["c"]:
                    return "(%s.size() == 0)" % o
                return "%s.%s(%s)" % (o, name, ", ".join(self(c) for c in n["c"]))
            return "%s(%s)" % (name, ", ".join(self(c) for c in n["c"]))
        if k == "ctor":
            if len(n["c"]) == 1:
                return self(n["c"][0])
            return "%s{%s}" % ((n.get("f") or {}).get("cls", "?").split("::")[-1], ", ".join(self(c) for c in n["c"]))
        if k in ("sizeof",):
            return "sizeof(%s)" % n.get("n", n.get("v", "?"))
        if k == "cond":
            return "(%s ? %s : %s)" % tuple(self(c) for c in n["c"][:3])
        return "?" + k


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


class Facts:
    """sets: dict subject -> frozenset(int); bools: dict cond -> bool"""
    __slots__ = ("sets", "bools")

    def __init__(self, sets=None, bools=None):
        self.sets = sets or {}
        self.bools = bools or {}

    def copy(self):
        return Facts(dict(self.sets), dict(self.bools))

    def join(self, o):
        s = {}
        for k, v in self.sets.items():
            if k in o.sets:
                s[k] = v | o.sets[k]
        b = {k: v for k, v in self.bools.items() if o.bools.get(k) == v}
        return Facts(s, b)

    def same(self, o):
        return self.sets == o.sets and self.bools == o.bools


class Flow:
    """universe(subject canonical, type string) -> frozenset of all values, or None
    predicate(call node, canon) -> (subject, set) when a boolean call is a set test"""

    def __init__(self, fn, universe, predicate=None, noreturn=None, entry=None):
        self.fn = fn
        self.universe = universe
        self.predicate = predicate
        self.canon = Canon(fn)
        self.cfg = CFG(fn["body"], noreturn)
        self.at = {}
        self.entry = entry or Facts()
        self.run()

    def kill(self, f, d, name):
        tag = "v%s:" % d
        ps = [v for k, v in self.canon.par.items() if k == d]
        tags = [tag] + [p for p in ps]
        def hit(k):
            return any(t in k for t in tags)
        for k in [k for k in f.sets if hit(k)]:
            del f.sets[k]
        for k in [k for k in f.bools if hit(k)]:
            del f.bools[k]

    def const(self, n):
        n = strip(n)
        if n["k"] == "ref" and n.get("dk") == "enum" and "v" in n:
            return n["v"]
        if n["k"] == "int":
            return n["v"]
        if n["k"] == "ref" and n.get("d") in self.canon.sd:
            return self.const(self.canon.sd[n["d"]])
        return None

    def assume(self, f, n, val):
        """f (owned) with condition n known to be val; None when impossible"""
        n = strip(n)
        if n["k"] == "un" and n["op"] == "!":
            return self.assume(f, n["c"][0], not val)
        if n["k"] == "ref" and n.get("d") in self.canon.sd and n.get("dk") == "var":
            i = strip(self.canon.sd[n["d"]])
            if i["k"] in ("bin", "call", "un"):
                return self.assume(f, i, val)
        if n["k"] == "bin" and n["op"] in ("&&", "||"):
            conj = (n["op"] == "&&") == val
            if conj:
                for c in n["c"]:
                    f = self.assume(f, c, val)
                    if f is None:
                        return None
                return f
            g = None
            for i, c in enumerate(n["c"]):
                h = f.copy()
                if i == 1:
                    h = self.assume(h, n["c"][0], not val)
                if h is not None:
                    h = self.assume(h, c, val)
                if h is not None:
                    g = h if g is None else g.join(h)
            return g
        op, l, r = None, None, None
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            op, l, r = n["op"], n["c"][0], n["c"][1]
        elif n["k"] == "call" and n.get("op") in ("==", "!=") and len(n["c"]) == 2:
            op, l, r = n["op"], n["c"][0], n["c"][1]
        if op:
            cl, cr = self.const(l), self.const(r)
            if cl is not None and cr is None:
                l, r, cl, cr = r, l, cr, cl
            if cr is not None and cl is None:
                s = self.canon(l)
                u = f.sets.get(s)
                if u is None:
                    u = self.universe(s, tstr(strip(l), self.fn))
                eq = (op == "==") == val
                if u is not None:
                    u2 = (u & {cr}) if eq else (u - {cr})
                    if not u2:
                        return None
                    f.sets[s] = frozenset(u2)
                    return f
                f.bools["(%s == %s)" % (s, cr)] = eq
                return f
        if n["k"] == "call" and self.predicate:
            p = self.predicate(n, self.canon)
            if p:
                s, S = p
                u = f.sets.get(s)
                if u is None:
                    u = self.universe(s, None)
                if u is not None:
                    u2 = (u & S) if val else (u - S)
                    if not u2:
                        return None
                    f.sets[s] = frozenset(u2)
                    return f
        if n["k"] == "ref" and "integral_constant<bool, " in n.get("q", ""):
            b = "integral_constant<bool, true>" in n["q"]
            return f if b == val else None
        c = self.canon(n)
        if c == "true":
            return f if val else None
        if c == "false":
            return None if val else f
        if f.bools.get(c, val) != val:
            return None
        f.bools[c] = val
        return f

    def transfer(self, node, f):
        a = node.ast
        if a is None or node.kind in ("join",):
            return f
        if node.kind == "rfor":
            return f
        f = f.copy()
        k = a.get("k")
        if k == "vardecl":
            self.kill(f, a["d"], a["n"])
            if a["c"] and a["d"] not in self.canon.sd:
                self.learn(f, "v%s:%s" % (a["d"], a["n"]), a["c"][0])
            self.effects(f, a["c"])
            return f
        self.effects(f, [a])
        return f

    def learn(self, f, subj, e):
        c = self.const(e)
        if c is not None:
            f.sets[subj] = frozenset([c])
            return
        s = self.canon(e)
        if s in f.sets:
            f.sets[subj] = f.sets[s]

    def effects(self, f, roots):
        for r in roots:
            for x in walk_nolambda(r):
                k = x.get("k")
                t = None
                if k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                    t = strip(x["c"][0])
                elif k == "un" and x["op"] in ("++", "--", "post++", "post--", "&"):
                    t = strip(x["c"][0])
                elif k == "call" and x.get("op") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") and x["c"]:
                    t = strip(x["c"][0])
                if t is not None and t["k"] == "ref":
                    self.kill(f, t["d"], t.get("n"))
                    if k == "bin" and x["op"] == "=":
                        cv = self.canon.par.get(t["d"]) or "v%s:%s" % (t["d"], t.get("n"))
                        self.learn(f, cv, x["c"][1])

    def edge(self, node, label, f):
        if node.kind == "cond" and label in (True, False):
            return self.assume(f.copy(), node.ast, label)
        if node.kind == "switch":
            s = self.canon(node.ast)
            f = f.copy()
            u = f.sets.get(s)
            if u is None:
                u = self.universe(s, tstr(strip(node.ast), self.fn))
            if isinstance(label, tuple) and label[0] == "case":
                if u is not None and label[1] not in u:
                    return None
                f.sets[s] = frozenset([label[1]])
                return f
            if label == "default" and u is not None:
                cases = {l[1] for _, l in node.succ if isinstance(l, tuple)}
                u2 = u - cases
                if not u2:
                    return None
                f.sets[s] = frozenset(u2)
            return f
        return f

    def run(self):
        self.at[self.cfg.entry.id] = self.entry
        work = [self.cfg.entry]
        n = 0
        while work:
            node = work.pop()
            n += 1
            if n > 40000:
                break
            f = self.at[node.id]
            g = self.transfer(node, f)
            for succ, label in node.succ:
                h = g if label == "exc" else self.edge(node, label, g)
                if h is None:
                    continue
                old = self.at.get(succ.id)
                new = h if old is None else old.join(h)
                if old is None or not new.same(old):
                    self.at[succ.id] = new
                    work.append(succ)

    def nodes(self):
        """(cfg node, facts before it) for reachable nodes"""
        for node in self.cfg.nodes:
            if node.id in self.at and node.ast is not None and node.kind not in ("join", "rfor"):
                yield node, self.at[node.id]
