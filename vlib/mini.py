"""Abstract interpretation of C++ functions over value provenance.

Every expression is mapped to a term that says where its value comes from: a constant, a parameter, a field of an
object, an element of a collection, a constructed object, or the result of an uninterpreted call.  Conditions are
three-valued: constants decide them, then the client's oracle; an undecided condition is followed both ways and
remembered.  Loops are followed for one representative element.  Nothing is executed and no solver is involved: the
domain is finite (terms of the source program), and paths are bounded by the shape of the syntax tree.
"""
from .core import strip, walk as _walk

NULL = ("k", None)
TRUE = ("k", True)
FALSE = ("k", False)


class TooManyPaths(Exception):
    pass


class St:
    __slots__ = ("env", "facts", "events", "heap")

    def __init__(self, env=None, facts=None, events=(), heap=None):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.events = events
        self.heap = heap if heap is not None else {}

    def copy(self):
        return St(dict(self.env), dict(self.facts), self.events, dict(self.heap))

    def event(self, *e):
        self.events = self.events + (e,)


class Frame:
    __slots__ = ("n", "fn", "this", "depth", "caps")

    def __init__(self, n, fn, this, depth, caps=None):
        self.n, self.fn, self.this, self.depth, self.caps = n, fn, this, depth, caps


class Hooks:
    def truth(self, v, st):
        return None

    def call(self, m, node, fr, name, obj, args, st):
        return None          # a value, or None

    def inline(self, g, name, obj, args):
        return False

    def dyncast(self, v, target, st):
        return None          # value, NULL, or None (unknown: forks)

    def field(self, base, name, st):
        return None

    def resolve(self, f, obj, g):
        return g


def short(q):
    """last component of a qualified name, template arguments ignored"""
    depth, i, last = 0, 0, 0
    while i < len(q):
        ch = q[i]
        if ch == "<" and not q[:i].endswith("operator"):
            depth += 1
        elif ch == ">" and depth:
            depth -= 1
        elif ch == ":" and depth == 0 and q[i:i + 2] == "::":
            last = i + 2
        i += 1
    return q[last:]


def deref_type(t):
    t = t.strip()
    for p in ("const ", "volatile ", "struct ", "class "):
        while t.startswith(p):
            t = t[len(p):]
    return t.rstrip("*& ").strip()


SMART = ("std::shared_ptr", "std::__shared_ptr", "std::unique_ptr", "std::__shared_ptr_access", "std::reference_wrapper", "std::__uniq_ptr_impl")
STRINGY = ("std::basic_string",)
MUTATORS = {"push_back", "emplace_back", "insert", "emplace", "append", "assign", "push_front", "resize", "pop_back", "clear", "erase", "swap", "reserve"}
CMP = {"==", "!=", "<", ">", "<=", ">="}


def fold(op, a, b):
    if a[0] == "k" and b[0] == "k":
        x, y = a[1], b[1]
        try:
            if op == "==":
                return ("k", x == y)
            if op == "!=":
                return ("k", x != y)
            if x is None or y is None:
                return None
            if op == "<":
                return ("k", x < y)
            if op == ">":
                return ("k", x > y)
            if op == "<=":
                return ("k", x <= y)
            if op == ">=":
                return ("k", x >= y)
            if op == "+":
                return ("k", x + y)
            if op == "-":
                return ("k", x - y)
            if op == "*":
                return ("k", x * y)
            if op == "<<":
                return ("k", x << y)
            if op == ">>":
                return ("k", x >> y)
            if op == "&":
                return ("k", x & y)
            if op == "|":
                return ("k", x | y)
            if op == "/" and y != 0:
                q = abs(x) // abs(y)
                return ("k", q if (x < 0) == (y < 0) else -q)
            if op == "%" and y != 0:
                r = abs(x) % abs(y)
                return ("k", r if x >= 0 else -r)
        except TypeError:
            return None
    if op in ("==", "!="):
        if a == b and a[0] not in ("unk",):
            return ("k", op == "==")
        if (a == NULL and b[0] in ("new", "coll")) or (b == NULL and a[0] in ("new", "coll")):
            return ("k", op == "!=")
    return None


class Mini:
    def __init__(self, prog, hooks, maxpaths=4000, maxdepth=12, zero_iterations=False):
        self.prog = prog
        self.h = hooks
        self.maxpaths = maxpaths
        self.maxdepth = maxdepth
        self.zero = zero_iterations
        self.frames = 0
        self.throws = []
        self.steps = 0
        self._ctors = None
        self.loopinfo = {}       # loop counter -> initial values
        self.loops = []          # conditions of the enclosing loops (op, left, right)

    # ------------------------------------------------------------ entry points
    def frame(self, fn, this, depth=0, caps=None):
        self.frames += 1
        return Frame(self.frames, fn, this, depth, caps)

    def run(self, fn, this, args, st=None, depth=0):
        """-> list of (state, value) for every path that returns normally"""
        st = st or St()
        fr = self.frame(fn, this, depth)
        for p, a in zip(fn.get("ps", []), args):
            st.env[(fr.n, p["d"])] = a
        return self.finish(self.block(fr, fn["body"], [st]), fr)

    def finish(self, outs, fr):
        res = []
        for st, o in outs:
            if o is None:
                res.append((st, ("void",)))
            elif o[0] == "ret":
                res.append((st, o[1]))
            elif o[0] == "throw":
                self.throws.append((st, o[1]))
        if len(res) > self.maxpaths:
            raise TooManyPaths(fr.fn["q"])
        return res

    # ------------------------------------------------------------ statements
    def block(self, fr, node, states):
        """-> list of (st, outcome); outcome None: falls through"""
        done = []
        live = [(s, None) for s in states]
        stmts = node.get("c", []) if node["k"] == "block" else [node]
        for s in stmts:
            nxt = []
            for st, _ in live:
                for st2, o in self.stmt(fr, s, st):
                    (nxt if o is None else done).append((st2, o))
            live = nxt
            if len(live) + len(done) > self.maxpaths:
                raise TooManyPaths(fr.fn["q"])
            if not live:
                break
        return done + live

    def stmt(self, fr, n, st):
        self.steps += 1
        k = n["k"]
        if k == "block":
            return self.block(fr, n, [st])
        if k == "decl":
            return self.decls(fr, n["v"], [st])
        if k == "return":
            v = n.get("v")
            if v is None:
                return [(st, ("ret", ("void",)))]
            return [(s, ("ret", x)) for s, x in self.ev(fr, v, st)]
        if k == "throw":
            return [(st, ("throw", n))]
        if k == "if":
            out = []
            states = [st]
            for key in ("init", "var"):
                if n.get(key):
                    x = n[key]
                    nxt = []
                    for s in states:
                        if key == "var" and "k" not in x:
                            nxt += [s2 for s2, _ in self.decls(fr, [x], [s])]
                        else:
                            nxt += [s2 for s2, o in self.stmt(fr, x, s) if o is None]
                    states = nxt
            for s in states:
                for s2, b in self.cond(fr, n["cond"], s):
                    br = n.get("then") if b else n.get("else")
                    if br is None:
                        out.append((s2, None))
                    else:
                        out += self.stmt(fr, br, s2)
            return out
        if k in ("for", "while", "do"):
            return self.loop(fr, n, st)
        if k == "rfor":
            out = []
            for s, r in self.ev(fr, n["range"], st):
                if self.zero:
                    out.append((s.copy(), None))
                s = s.copy()
                d = n["var"]
                if "d" not in d and d.get("k") == "decl":
                    d = d["v"][0]
                s.env[(fr.n, d["d"])] = self.element(r)
                for s2, o in self.stmt(fr, n["body"], s):
                    if o is not None and o[0] in ("break", "continue"):
                        o = None
                    out.append((s2, o))
            return out
        if k == "break":
            return [(st, ("break",))]
        if k == "continue":
            return [(st, ("continue",))]
        if k == "switch":
            return self.switch(fr, n, st)
        if k in ("case", "default"):
            return self.stmt(fr, n["body"], st) if n.get("body") else [(st, None)]
        if k == "try":
            return self.stmt(fr, n["body"], st)
        if k == "null_stmt":
            return [(st, None)]
        # an expression for its effect
        return [(s, None) for s, _ in self.ev(fr, n, st)]

    def element(self, r):
        if r[0] == "coll" and len(r) > 1 and r[1:]:
            return r[-1]
        return ("elem", r)

    def decls(self, fr, vs, states):
        out = [(s, None) for s in states]
        for v in vs:
            nxt = []
            for s, _ in out:
                if v.get("init") is not None:
                    for s2, x in self.ev(fr, v["init"], s):
                        s2.env[(fr.n, v["d"])] = x
                        nxt.append((s2, None))
                else:
                    s.env[(fr.n, v["d"])] = ("undef", v.get("n"))
                    nxt.append((s, None))
            out = nxt
        return out

    def loop(self, fr, n, st):
        states = [st]
        if n.get("init"):
            states = [s for s, o in self.stmt(fr, n["init"], st) if o is None]
        # loop counters stand for an arbitrary iteration
        counters = set()
        inc = n.get("inc")
        if inc is not None:
            for x in _walk(inc):
                if x.get("k") == "un" and x["op"].replace("post", "") in ("++", "--") or x.get("k") == "bin" and x["op"] in ("+=", "-="):
                    y = strip(x["c"][0])
                    if y["k"] == "ref":
                        counters.add((y["d"], y["n"]))
                elif x.get("k") == "call" and x.get("op") in ("++", "--"):
                    for y in ([x["obj"]] if x.get("obj") else []) + x.get("c", []):
                        y = strip(y)
                        if y["k"] == "ref":
                            counters.add((y["d"], y["n"]))
        cond = n.get("cond")
        out = []
        for s in states:
            if self.zero and n["k"] != "do":
                out.append((s.copy(), None))
            s = s.copy()
            for d, nm in counters:
                first = s.env.get((fr.n, d))
                s.env[(fr.n, d)] = ("idx", nm, n["l"])
                self.loopinfo.setdefault(("idx", nm, n["l"]), set()).add(first)
            entries = [s]
            cv = None
            if cond is not None and n["k"] != "do":
                c = strip(cond)
                entries = []
                if c["k"] == "bin" and c["op"] in CMP:
                    for s1, a in self.ev(fr, c["c"][0], s):
                        for s2, b in self.ev(fr, c["c"][1], s1):
                            cv = (c["op"], a, b)
                            entries.append(s2)
                else:
                    for s1, b in self.cond(fr, cond, s):
                        if b:
                            entries.append(s1)
                        else:
                            out.append((s1, None))
            self.loops.append(cv)
            try:
                bodies = [x for s1 in entries for x in self.stmt(fr, n["body"], s1)]
            finally:
                self.loops.pop()
            for _ in (0,):
                for s2, o in bodies:
                    if o is not None and o[0] == "break":
                        if cv:
                            s2 = s2.copy()
                            s2.facts[("op",) + cv] = True
                            s2.facts[("op", "==", cv[1], cv[2])] = False
                        out.append((s2, None))
                    elif o is None or o[0] == "continue":
                        if cv:
                            s2 = s2.copy()
                            s2.facts[("op",) + cv] = False
                            if cv[0] in ("<", "!=", ">"):
                                s2.facts[("op", "==", cv[1], cv[2])] = True
                        out.append((s2, None))
                    else:
                        out.append((s2, o))
        return out

    def switch(self, fr, n, st):
        body = n["body"]
        stmts = body.get("c", []) if body["k"] == "block" else [body]
        # flatten: list of (labels, stmt)
        flat = []
        for s in stmts:
            labels = []
            while s is not None and s["k"] in ("case", "default"):
                labels.append("default" if s["k"] == "default" else s.get("ival"))
                s = s.get("body")
            flat.append((labels, s))
        alll = [l for ls, _ in flat for l in ls if l != "default"]
        out = []
        states = [st]
        if n.get("init"):
            states = [s for s, o in self.stmt(fr, n["init"], st)]
        for s in states:
            for s1, v in self.ev(fr, n["cond"], s):
                targets = []
                if v[0] == "k" and isinstance(v[1], int):
                    t = next((i for i, (ls, _) in enumerate(flat) if int(v[1]) in ls), None)
                    if t is None:
                        t = next((i for i, (ls, _) in enumerate(flat) if "default" in ls), None)
                    targets = [(t, None)]
                else:
                    for i, (ls, _) in enumerate(flat):
                        for l in ls:
                            targets.append((i, l))
                    if not any("default" in ls for ls, _ in flat):
                        targets.append((None, "default"))
                for t, lab in targets:
                    s2 = s1.copy()
                    if lab is not None:
                        if lab == "default":
                            if any(s2.facts.get(("op", "==", v, ("k", a))) is True for a in alll):
                                continue
                            for a in alll:
                                s2.facts[("op", "==", v, ("k", a))] = False
                        else:
                            f = ("op", "==", v, ("k", lab))
                            if s2.facts.get(f) is False or any(s2.facts.get(("op", "==", v, ("k", a))) for a in alll if a != lab):
                                continue
                            d = self.h.truth(f, s2)
                            if d is False:
                                continue
                            s2.facts[f] = True
                    if t is None:
                        out.append((s2, None))
                        continue
                    live = [(s2, None)]
                    for _, x in flat[t:]:
                        if x is None:
                            continue
                        nxt = []
                        for s3, _o in live:
                            for s4, o in self.stmt(fr, x, s3):
                                if o is None:
                                    nxt.append((s4, None))
                                elif o[0] == "break":
                                    out.append((s4, None))
                                else:
                                    out.append((s4, o))
                        live = nxt
                        if not live:
                            break
                    out += live
        if len(out) > self.maxpaths:
            raise TooManyPaths(fr.fn["q"])
        return out

    # ------------------------------------------------------------ conditions
    def truthval(self, v, st):
        if v[0] == "k":
            return bool(v[1])
        if v in st.facts:
            return st.facts[v]
        if v[0] == "op" and v[1] in ("==", "!="):
            other = ("op", "!=" if v[1] == "==" else "==", v[2], v[3])
            for w, neg in ((("op", v[1], v[3], v[2]), False), (other, True), (("op", other[1], v[3], v[2]), True)):
                if w in st.facts:
                    return st.facts[w] != neg
        if v[0] == "op" and v[1] == "!":
            t = self.truthval(v[2], st)
            return None if t is None else not t
        if v[0] == "new" or v[0] == "coll":
            return True
        return self.h.truth(v, st)

    def decide(self, v, st):
        t = self.truthval(v, st)
        if t is not None:
            return [(st, t)]
        a, b = st, st.copy()
        a.facts[v] = True
        b.facts[v] = False
        return [(a, True), (b, False)]

    def cond(self, fr, n, st):
        k = n["k"]
        if k in ("icast", "cast") and n.get("ck") != "Dynamic":
            return self.cond(fr, n["c"][0], st)
        if k == "un" and n["op"] == "!":
            return [(s, not b) for s, b in self.cond(fr, n["c"][0], st)]
        if k == "bin" and n["op"] in ("&&", "||"):
            out = []
            for s, b in self.cond(fr, n["c"][0], st):
                if b == (n["op"] == "||"):
                    out.append((s, b))
                else:
                    out += self.cond(fr, n["c"][1], s)
            return out
        out = []
        for s, v in self.ev(fr, n, st):
            out += self.decide(v, s)
        return out

    # ------------------------------------------------------------ expressions
    def evs(self, fr, nodes, st):
        """-> list of (st, [values])"""
        acc = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in acc:
                for s2, v in self.ev(fr, n, s):
                    nxt.append((s2, vs + [v]))
            acc = nxt
            if len(acc) > self.maxpaths:
                raise TooManyPaths(fr.fn["q"])
        return acc

    def ev(self, fr, n, st):
        self.steps += 1
        k = n["k"]
        if k == "ref":
            dk = n.get("dk")
            if dk == "enum":
                return [(st, ("k", n.get("v")))]
            if dk in ("var", "parm"):
                v = st.env.get((fr.n, n["d"]))
                f = fr
                while v is None and f.caps is not None:
                    f = f.caps
                    v = st.env.get((f.n, n["d"]))
                if v is None:
                    g = self.prog.globals.get(n.get("q") or n["n"])
                    v = ("var", n["n"], n["d"])
                return [(st, v)]
            return [(st, (dk or "glob", n.get("q") or n["n"]))]
        if k == "this":
            f = fr
            while f.this is None and f.caps is not None:
                f = f.caps
            return [(st, f.this or ("sym", "this"))]
        if k == "mem":
            return [(s, self.fieldof(b, n["n"], s)) for s, b in self.ev(fr, n["c"][0], st)]
        if k in ("int", "char"):
            return [(st, ("k", n["v"]))]
        if k == "bool":
            return [(st, ("k", bool(n["v"])))]
        if k == "str":
            return [(st, ("k", n["v"]))]
        if k == "float":
            try:
                return [(st, ("k", float(n["v"])))]
            except ValueError:
                return [(st, ("flt", n["v"]))]
        if k == "nullptr":
            return [(st, NULL)]
        if k == "sizeof":
            return [(st, ("k", n["v"]) if "v" in n else ("sizeof",))]
        if k in ("icast", "cast"):
            if n.get("ck") == "Dynamic":
                out = []
                for s, v in self.ev(fr, n["c"][0], st):
                    out += self.dyncast(fr, v, deref_type(fr.fn["u"].types[n["t"]]), s)
                return out
            out = self.ev(fr, n["c"][0], st)
            if n.get("ck") in ("IntegralToBoolean",):
                return [(s, ("k", bool(v[1])) if v[0] == "k" and v[1] is not None else v) for s, v in out]
            return out
        if k == "bin":
            return self.binop(fr, n, st)
        if k == "un":
            op = n["op"]
            if op.replace("post", "") in ("++", "--"):
                post, op = op.startswith("post"), op.replace("post", "")
                y = strip(n["c"][0])
                res = self.ev(fr, n["c"][0], st)
                out = []
                for s, v in res:
                    if v[0] == "idx":
                        out.append((s, v))
                    else:
                        new = fold("+" if op == "++" else "-", v, ("k", 1)) or ("op", "+" if op == "++" else "-", v, ("k", 1))
                        self.assign(fr, y, new, s)
                        out.append((s, v if post else new))
                return out
            if op == "!":
                return [(s, ("k", not v[1]) if v[0] == "k" else ("op", "!", v)) for s, v in self.ev(fr, n["c"][0], st)]
            if op in ("*", "&", "+"):
                return self.ev(fr, n["c"][0], st)
            if op == "-":
                return [(s, ("k", -v[1]) if v[0] == "k" and isinstance(v[1], (int, float)) else ("op", "neg", v)) for s, v in self.ev(fr, n["c"][0], st)]
            return [(s, ("op", op, v)) for s, v in self.ev(fr, n["c"][0], st)]
        if k == "cond":
            out = []
            for s, b in self.cond(fr, n["c"][0], st):
                out += self.ev(fr, n["c"][1 if b else 2], s)
            return out
        if k == "sub":
            return [(s, ("at", v[0], v[1])) for s, v in self.evs(fr, n["c"], st)]
        if k == "init":
            return [(s, ("coll",) + tuple(v)) for s, v in self.evs(fr, n.get("c", []), st)]
        if k == "ctor":
            return self.ctor(fr, n, st)
        if k == "call":
            return self.call(fr, n, st)
        if k == "lambda":
            return [(st, ("lam", id(n), fr.n))] if not self._lam(n, fr) else []
        if k == "new":
            return [(s, ("newexpr",) + tuple(v)) for s, v in self.evs(fr, n.get("c", []), st)]
        if k == "throw":
            self.throws.append((st, n))
            return []
        cs = [c for c in n.get("c", []) if isinstance(c, dict) and "k" in c]
        return [(s, ("expr", k) + tuple(v)) for s, v in self.evs(fr, cs, st)]

    _lams = None

    def _lam(self, n, fr):
        if self._lams is None:
            self._lams = {}
        self._lams[(id(n), fr.n)] = (n, fr)
        return False

    def fieldof(self, base, name, st):
        if base[0] == "new":
            for f, v in base[2]:
                if f == name:
                    return v
        if (base, name) in st.heap:
            return st.heap[(base, name)]
        v = self.h.field(base, name, st)
        if v is not None:
            return v
        return ("fld", base, name)

    def assign(self, fr, lhs, v, st):
        lhs = strip(lhs)
        if lhs["k"] == "ref" and "d" in lhs and lhs.get("dk") in ("var", "parm"):
            key = (fr.n, lhs["d"])
            f = fr
            while key not in st.env and f.caps is not None:
                f = f.caps
                if (f.n, lhs["d"]) in st.env:
                    key = (f.n, lhs["d"])
                    break
            st.env[key] = v
        elif lhs["k"] == "mem":
            for s, b in self.ev(fr, lhs["c"][0], st)[:1]:
                st.heap[(b, lhs["n"])] = v
                st.event("store", b, lhs["n"], v, lhs.get("l"))
        elif lhs["k"] in ("sub", "call", "un"):
            # element of a collection, or *p
            tgt = None
            if lhs["k"] == "un" and lhs["op"] == "*":
                tgt = lhs["c"][0]
                return self.assign(fr, tgt, v, st)
            if lhs["k"] == "sub":
                tgt = lhs["c"][0]
            else:
                tgt = lhs.get("obj") or (lhs["c"][0] if lhs.get("c") else None)
            if tgt is not None:
                self.mutate(fr, tgt, [v], st)

    def mutate(self, fr, node, vals, st):
        node = strip(node)
        while node["k"] == "call" and (short(node.get("f", {}).get("q", "")) in ("get", "operator*", "operator->") or node.get("op") in ("*", "->")):
            node = strip(node.get("obj") or node["c"][0])
        while node["k"] == "un" and node["op"] in ("*", "&"):
            node = strip(node["c"][0])
        if node["k"] == "ref" and node.get("dk") in ("var", "parm"):
            for s, old in self.ev(fr, node, st)[:1]:
                base = old[1:] if old[0] == "coll" else (() if old[0] == "undef" else (old,))
                extra = tuple(v for v in vals if v not in base)
                self.assign(fr, node, ("coll",) + base + extra, st)
        else:
            for s, b in self.ev(fr, node, st)[:1]:
                st.event("mutate", b, tuple(vals), node.get("l"))

    def dyncast(self, fr, v, target, st):
        if v[0] == "new":
            return [(st, v if target == v[1] else NULL)] if target == v[1] or not self.is_base(target, v[1]) else [(st, v)]
        if v == NULL:
            return [(st, NULL)]
        r = self.h.dyncast(v, target, st)
        if r is not None:
            return [(st, r)]
        t = ("isa", v, target)
        if t in st.facts:
            return [(st, v if st.facts[t] else NULL)]
        # an object has one dynamic type: unrelated classes exclude each other
        for f, b in st.facts.items():
            if b and f[0] == "isa" and f[1] == v:
                if self.is_base(target, f[2]):
                    return [(st, v)]
                if not self.is_base(f[2], target):
                    return [(st, NULL)]
        b = st.copy()
        st.facts[t] = True
        b.facts[t] = False
        return [(st, v), (b, NULL)]

    def is_base(self, base, cls):
        work, seen = [cls], set()
        while work:
            c = work.pop()
            if c == base:
                return True
            if c in seen:
                continue
            seen.add(c)
            r = self.prog.recs.get(c)
            if r:
                work += r["bases"]
        return False

    def binop(self, fr, n, st):
        op = n["op"]
        if op == "=":
            out = []
            for s, v in self.ev(fr, n["c"][1], st):
                self.assign(fr, n["c"][0], v, s)
                out.append((s, v))
            return out
        if op in ("&&", "||"):
            return [(s, ("k", b)) for s, b in self.cond(fr, n, st)]
        if op == ",":
            out = []
            for s, _ in self.ev(fr, n["c"][0], st):
                out += self.ev(fr, n["c"][1], s)
            return out
        if op.endswith("=") and op not in CMP:
            out = []
            for s, (a, b) in self.evs(fr, n["c"], st):
                v = a if a[0] == "idx" else fold(op[:-1], a, b) or ("op", op[:-1], a, b)
                self.assign(fr, n["c"][0], v, s)
                out.append((s, v))
            return out
        out = []
        for s, (a, b) in self.evs(fr, n["c"], st):
            out.append((s, fold(op, a, b) or ("op", op, a, b)))
        return out

    # ------------------------------------------------------------ construction
    def ctors(self):
        if self._ctors is None:
            c = {}
            for f in self.prog.funcs.values():
                if f.get("ctor"):
                    c.setdefault(f["cls"], []).append(f)
            Mini._ctor_cache = c
            self._ctors = c
        return self._ctors

    def pick_ctor(self, cls, nargs, argtypes=None):
        cs = [f for f in self.ctors().get(cls, []) if len(f.get("ps", [])) >= nargs and not (nargs == 1 and len(f["ps"]) == 1 and deref_type(f["u"].types[f["ps"][0]["t"]]) == cls)]
        def score(f):
            if not argtypes:
                return 0
            return sum(1 if deref_type(f["u"].types[p["t"]]) == deref_type(a) else 0 for p, a in zip(f["ps"], argtypes))
        # the constructor whose parameters fit best; the one without defaulted parameters among equals
        cs.sort(key=lambda f: (-score(f), len(f["ps"])))
        return cs[0] if cs else None

    def construct(self, cls, args, st, argtypes=None, depth=0, ctor=None):
        f = ctor or self.pick_ctor(cls, len(args), argtypes)
        if f is None:
            return [(st, ("new", cls, tuple(("#%d" % i, a) for i, a in enumerate(args))))]
        fields = self.ctor_fields(f, args, st, depth)
        return [(st, ("new", cls, tuple(fields.items())))]

    def ctor_fields(self, f, args, st, depth=0):
        fr = self.frame(f, ("sym", "constructing"), depth)
        for i, p in enumerate(f["ps"]):
            st.env[(fr.n, p["d"])] = args[i] if i < len(args) else ("default", p.get("n"))
        fields = {}
        for i in f.get("inits", []):
            v = i.get("v")
            if v is None:
                continue
            if "base" in i:
                v = strip(v)
                if v["k"] == "ctor":
                    g = self.prog.callee(v, f["u"])
                    for s, vs in self.evs(fr, v.get("c", []), st)[:1]:
                        if g is not None:
                            fields.update(self.ctor_fields(g, vs, st, depth + 1))
                        else:
                            fields["#base"] = ("call", "base") + tuple(vs)
            elif "field" in i:
                for s, x in self.ev(fr, v, st)[:1]:
                    fields[short(i["field"])] = x
            else:
                # delegating constructor
                v = strip(v)
                if v["k"] == "ctor":
                    g = self.prog.callee(v, f["u"])
                    for s, vs in self.evs(fr, v.get("c", []), st)[:1]:
                        if g is not None:
                            fields.update(self.ctor_fields(g, vs, st, depth + 1))
        return fields

    def ctor(self, fr, n, st):
        f = n.get("f", {})
        cls = f.get("cls", "")
        out = []
        for s, vs in self.evs(fr, n.get("c", []), st):
            if cls.startswith("std::"):
                vs = [v for v in vs if not (v[0] == "new" and v[1].startswith("std::allocator"))]
            h = self.h.call(self, n, fr, "ctor:" + cls, None, vs, s)
            if h is not None:
                out.append((s, h))
            elif n.get("copy") and len(vs) == 1:
                out.append((s, vs[0]))
            elif cls.startswith(SMART):
                if not vs:
                    out.append((s, NULL))
                else:
                    out.append((s, vs[0]))
            elif cls.startswith(STRINGY):
                real = [v for v in vs if not (v[0] == "default")]
                out.append((s, ("k", "") if not real else real[0] if len(real) == 1 else ("call", "string") + tuple(real)))
            elif cls.startswith(("std::vector", "std::map", "std::set", "std::deque", "std::list", "std::unordered")):
                if not vs:
                    out.append((s, ("coll",)))
                elif len(vs) == 1:
                    v = vs[0]
                    out.append((s, v if v[0] != "k" else ("coll",)))
                else:
                    out.append((s, ("coll",) + tuple(("elem", v) if v[0] == "iter" else v for v in vs)))
            elif self.prog.callee(n, fr.fn["u"]) is not None and cls.startswith("awkward::"):
                g = self.prog.callee(n, fr.fn["u"])
                out += self.construct(cls, vs, s, ctor=g, depth=fr.depth + 1)
            elif len(vs) == 1 and not cls.startswith("awkward::"):
                out.append((s, vs[0]))
            else:
                out.append((s, ("new", cls, tuple(("#%d" % i, a) for i, a in enumerate(vs)))))
        return out

    # ------------------------------------------------------------ calls
    def call(self, fr, n, st):
        f = n.get("f")
        op = n.get("op")
        objn = n.get("obj")
        argn = n.get("c", [])
        if op in ("=",):
            lhs = objn or argn[0]
            rhs = argn[-1]
            out = []
            for s, v in self.ev(fr, rhs, st):
                self.assign(fr, lhs, v, s)
                out.append((s, v))
            return out
        if op in ("+=",):
            lhs = objn or argn[0]
            out = []
            for s, (a, b) in self.evs(fr, [lhs, argn[-1]], st):
                v = a if a[0] == "idx" else fold("+", a, b) or ("op", "+", a, b)
                self.assign(fr, lhs, v, s)
                out.append((s, v))
            return out
        out = []
        nodes = ([objn] if objn else []) + argn
        if not f and n.get("fn"):
            nodes = [n["fn"]] + nodes
        for s, vs in self.evs(fr, nodes, st):
            out += self.apply(fr, n, f, op, objn, argn, vs, s)
        return out

    def apply(self, fr, n, f, op, objn, argn, vs, s):
        obj = vs[0] if objn else None
        args = vs[1:] if objn else vs
        q = (f or {}).get("q", "")
        name = short(q).split("<")[0] if not q.startswith("operator") else q
        cls = (f or {}).get("cls", "") or ""
        if op in CMP and len(vs) == 2:
            h = self.h.call(self, n, fr, "operator" + op, None, vs, s)
            return [(s, h if h is not None else fold(op, vs[0], vs[1]) or ("op", op, vs[0], vs[1]))]
        if op == "()":
            lam = vs[0]
            if lam[0] == "lam" and self._lams and (lam[1], lam[2]) in self._lams:
                return self.call_lambda(fr, lam, vs[1:], s)
        if op in ("*", "->") and len(vs) == 1:
            return [(s, vs[0])]
        if op == "++" or op == "--":
            return [(s, vs[0])]
        if op == "[]" and len(vs) == 2:
            h = self.h.call(self, n, fr, "operator[]", vs[0], vs[1:], s)
            return [(s, h if h is not None else ("at", vs[0], vs[1]))]
        if op in ("+", "-", "<<", ">>") and len(vs) == 2:
            return [(s, fold(op, vs[0], vs[1]) or ("op", op, vs[0], vs[1]))]
        if obj is not None and name in ("get", "operator*", "operator->") and cls.startswith(SMART) and not args:
            return [(s, obj)]
        if q in ("std::move", "std::forward", "std::as_const", "std::static_pointer_cast", "std::const_pointer_cast") and args:
            return [(s, args[0])]
        if q == "std::dynamic_pointer_cast":
            return self.dyncast(fr, args[0], deref_type((f.get("ta") or "").split(",")[0]), s)
        if obj is not None and cls.startswith(STRINGY) and name in ("c_str", "data", "str"):
            return [(s, obj)]
        h = self.h.call(self, n, fr, q, obj, args, s)
        if h is not None:
            if isinstance(h, list):
                return h
            return [(s, h)]
        if q == "std::make_shared" or q == "std::make_unique":
            t = first_ta(f.get("ta") or "")
            types = [fr.fn["u"].types[a["t"]] if a.get("t", -1) >= 0 else "" for a in argn]
            if not t.startswith("awkward::"):
                if not args:
                    return [(s, ("coll",) if t.startswith(("std::vector", "std::map")) else ("k", "") if t.startswith(STRINGY) else ("new", t, ()))]
                return [(s, args[0] if len(args) == 1 else ("call", "make:" + t) + tuple(args))]
            return self.construct(t, args, s, types)
        if obj is not None and name in MUTATORS and cls.startswith("std::"):
            if name in ("clear",):
                self.assign(fr, objn, ("coll",), s)
            elif name not in ("reserve", "resize", "pop_back", "erase"):
                vals = [("elem", a) if a[0] == "iter" else a for a in args if a[0] != "k" or name != "insert"]
                vals = [a for a in vals if not (a[0] == "elem" and a[1][0] == "iter" and False)]
                self.mutate(fr, objn, vals or args, s)
            return [(s, ("void",))]
        if obj is not None and name in ("begin", "end", "cbegin", "cend", "rbegin", "rend") and cls.startswith("std::"):
            return [(s, ("iter", obj))]
        if q in ("std::begin", "std::end", "std::next", "std::prev") and args:
            return [(s, ("iter", args[0]) if args[0][0] != "iter" else args[0])]
        if obj is not None and name == "back" and cls.startswith("std::") and not args:
            return [(s, ("at", obj, ("op", "-", ("call", "size", obj), ("k", 1))))]
        if obj is not None and name in ("at", "front") and cls.startswith("std::"):
            return [(s, ("at", obj, args[0] if args else ("k", 0)))]
        if obj is not None and name in ("size", "length", "empty") and cls.startswith("std::"):
            if obj[0] == "k" and isinstance(obj[1], str):
                return [(s, ("k", len(obj[1]) == 0 if name == "empty" else len(obj[1])))]
            return [(s, ("call", "empty" if name == "empty" else "size", obj))]
        g = self.prog.callee(n, fr.fn["u"]) if f else None
        if f:
            g = self.h.resolve(f, obj, g)
        if g is not None and g.get("body") and fr.depth < self.maxdepth and self.h.inline(g, q, obj, args):
            return self.enter(fr, n, g, obj, args, argn, s)
        return [(s, ("call", q) + ((obj,) if obj is not None else ()) + tuple(args))]

    def enter(self, fr, n, g, obj, args, argn, s):
        f2 = self.frame(g, obj if obj is not None else None, fr.depth + 1)
        for i, p in enumerate(g.get("ps", [])):
            s.env[(f2.n, p["d"])] = args[i] if i < len(args) else ("default", p.get("n"))
        out = []
        before = {p["d"]: (args[i] if i < len(args) else None) for i, p in enumerate(g.get("ps", []))}
        for s2, v in self.finish(self.block(f2, g["body"], [s]), f2):
            # results written through reference parameters
            for i, p in enumerate(g.get("ps", [])):
                if i < len(argn):
                    now = s2.env.get((f2.n, p["d"]))
                    if now != before[p["d"]] and now is not None:
                        self.assign(fr, argn[i], now, s2)
            out.append((s2, v))
        return out

    def call_lambda(self, fr, lam, args, s):
        node, outer = self._lams[(lam[1], lam[2])]
        f2 = Frame(0, outer.fn, outer.this, fr.depth + 1, outer)
        self.frames += 1
        f2.n = self.frames
        if fr.depth > self.maxdepth:
            return [(s, ("call", "lambda") + tuple(args))]
        for i, p in enumerate(node.get("ps", [])):
            s.env[(f2.n, p["d"])] = args[i] if i < len(args) else ("default", p.get("n"))
        return self.finish(self.block(f2, node["body"], [s]), f2)


def first_ta(ta):
    depth = 0
    for i, ch in enumerate(ta):
        if ch in "<([":
            depth += 1
        elif ch in ">)]":
            depth -= 1
        elif ch == "," and depth == 0:
            return ta[:i].strip()
    return ta.strip()


def deps(v, pred, acc=None):
    """all subterms of v that satisfy pred (outermost)"""
    if acc is None:
        acc = set()
    if not isinstance(v, tuple):
        return acc
    if v and isinstance(v[0], str) and pred(v):
        acc.add(v)
        return acc
    for x in v[1:] if v and isinstance(v[0], str) else v:
        if isinstance(x, tuple):
            deps(x, pred, acc)
    return acc
