"""Storage provenance and write effects over the AST.

origins(fn, e): whose storage the value of e refers to (what is reached by
following the pointer, shared pointer, view or node); lv(fn, e): whose storage
the lvalue e itself lies in.  Results are sets of
  ("fresh",)            allocated or constructed by this activation
  ("this",)             reached from the receiver
  ("param", i)          reached from parameter i
  ("global", name)
  ("unknown", text)
writes(fn): list of (origins, node, description) of every store, including
those made by callees (mapped through their summaries)."""
from .core import strip, walk, tstr
from .cfg import CFG

FRESH = ("fresh",)
THIS = ("this",)
OWN = ("this", "own")     # the members of the receiver themselves

# std functions that copy or forward: the result refers to what the arguments refer to
MUTATORS = {"push_back", "emplace_back", "pop_back", "push_front", "insert", "emplace", "erase", "clear", "resize",
            "assign", "swap", "reset", "append", "operator=", "operator+=", "operator-=", "operator++", "operator--",
            "operator|=", "operator&=", "operator<<=", "operator*="}
DEST_FIRST = {"memcpy", "memmove", "memset", "fill", "fill_n", "iota", "sort", "stable_sort", "partial_sort", "reverse",
              "nth_element", "rotate", "shuffle", "unique", "remove", "remove_if", "strcpy", "strncpy", "generate", "replace"}
DEST_THIRD = {"copy", "copy_n", "transform", "copy_backward", "copy_if", "partial_sum", "move_backward", "unique_copy", "merge"}
ALLOC = {"malloc", "calloc", "make_shared", "make_unique", "allocate_shared"}


def pointerish(t):
    if not t:
        return False
    return any(s in t for s in ("*", "ptr<", "Index", "Identities", "Content", "Array", "Slice", "Buffer", "iterator",
                                "Builder", "Record", "auto"))


def isptr(t):
    return t.rstrip(" const").endswith("*") or t.endswith("*") or t.endswith("*const")


def isassign(x):
    return x.get("k") == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=")


def isref(t):
    return t.endswith("&")


class Prov:
    def __init__(self, prog, outargs=None, stop=None):
        self.p = prog
        self.direct = False    # True: only the object pointed to, not what it refers to in turn
        self.out = outargs or (lambda call, fn: None)
        self.stop = stop or (lambda fn: False)     # functions whose writes are not propagated
        self.retmemo, self.wmemo, self.defmemo = {}, {}, {}
        self.active, self.wactive = set(), set()
        self.retprev, self.wprev = {}, {}

    @staticmethod
    def mutator(g):
        """a method that may change its receiver (declared non-const)"""
        return bool(g.get("cls")) and not g.get("static") and (not g.get("const") or g["n"] == "setitem_at_nowrap")

    def solve(self, fns):
        """summaries to a fixed point (recursion starts from nothing)"""
        sig = None
        for _ in range(8):
            for f in fns:
                for self.direct in (True, False):
                    self.ret(f)
            s = {k: frozenset(v) for k, v in self.retmemo.items()}
            if s == sig:
                break
            sig = s
            self.retprev, self.retmemo = self.retmemo, {}
        sig = None
        for _ in range(8):
            for f in fns:
                self.writes(f)
            s = {k: frozenset().union(*[w[0] for w in v]) if v else frozenset() for k, v in self.wmemo.items()}
            if s == sig:
                break
            sig = s
            self.wprev, self.wmemo = self.wmemo, {}
        return self

    # ------------------------------------------------------------- definitions
    def defs(self, fn):
        k = fn["key"]
        if k in self.defmemo:
            return self.defmemo[k]
        d, types = {}, {}
        for i, pp in enumerate(fn["ps"]):
            types[pp["d"]] = fn["u"].types[pp["t"]]
        lam = set()

        def flow(target, e):
            t = target
            while True:
                t = strip(t)
                if t["k"] == "ref":
                    d.setdefault(t["d"], []).append(e)
                    return
                if t["k"] in ("mem", "sub") or t["k"] == "un" and t["op"] in ("*", "&"):
                    t = t["c"][0]
                elif t["k"] == "call" and (t.get("obj") or t.get("op")):
                    t = t.get("obj") or (t["c"][0] if t["c"] else None)
                    if t is None:
                        return
                else:
                    return
        for x in walk(fn["body"]):
            kk = x.get("k")
            if kk == "decl":
                for v in x["v"]:
                    types[v["d"]] = fn["u"].types[v["t"]] if v.get("t") is not None else ""
                    if v.get("init"):
                        d.setdefault(v["d"], []).append(v["init"])
                    else:
                        d.setdefault(v["d"], [])
            elif kk == "rfor":
                v = x["var"]
                types[v["d"]] = fn["u"].types[v["t"]]
                d.setdefault(v["d"], []).append(x["range"])
            elif kk == "lambda":
                for pp in x["ps"]:
                    lam.add(pp["d"])
            elif isassign(x):
                flow(x["c"][0], x["c"][1])
            elif kk == "call" and x.get("op") == "=" and len(x["c"]) == 2:
                flow(x["c"][0], x["c"][1])
            elif kk == "call" and x.get("obj") and x.get("f"):
                n = x["f"]["q"].split("::")[-1]
                if n in MUTATORS:
                    for c in x["c"]:
                        flow(x["obj"], c)
        r = (d, types, lam)
        self.defmemo[k] = r
        return r

    # --------------------------------------------------------------- callees
    def callees(self, x, fn):
        f = x.get("f")
        if not f:
            return []
        g = self.p.callee(x, fn["u"])
        out = [g] if g is not None and "body" in g else []
        if f.get("virt") and not x.get("nonvirt"):
            for m in self.p.overriders().get(f["m"], ()):
                h = self.p.funcs.get(m)
                if h is not None and "body" in h and h not in out:
                    out.append(h)
        return out

    def recv(self, x):
        """(receiver node, argument nodes) of a call"""
        if x.get("obj"):
            return x["obj"], x["c"]
        if x.get("op") and x.get("f") and x["f"].get("cls") and x["c"]:
            return x["c"][0], x["c"][1:]
        return None, x["c"]

    # ------------------------------------------------------ reaching definitions
    def flowinfo(self, fn):
        if "_rd" in fn:
            return fn["_rd"]
        cfg = CFG(fn["body"])
        where, gen = {}, {}
        for n in cfg.nodes:
            if not n.ast:
                continue
            for x in walk(n.ast):
                where.setdefault(id(x), n)
            a = n.ast
            if a["k"] == "vardecl":
                gen[n.id] = (a["d"], a["c"][0] if a["c"] else None)
                continue
            t = None
            if a["k"] == "bin" and a["op"] == "=":
                t = a
            elif a["k"] == "call" and a.get("op") == "=" and len(a["c"]) == 2:
                t = a
            if t is not None:
                l = strip(t["c"][0])
                if l["k"] == "ref":
                    gen[n.id] = (l["d"], t["c"][1])
        strong = set()
        for d, e in gen.values():
            if e is not None:
                strong.add(id(e))
        fn["_rd"] = (cfg, where, gen, strong)
        return fn["_rd"]

    def reaching(self, fn, e, dd):
        """definitions of the variable that may reach this use; True if the
        value at function entry may"""
        cfg, where, gen, strong = self.flowinfo(fn)
        n = where.get(id(e))
        if n is None:
            return dd, True
        key = ("rd", n.id, e["d"])
        memo = fn.setdefault("_rdm", {})
        if key not in memo:
            got, entry, seen = [], False, set()
            work = [q for q, _ in n.pred]
            if n.kind == "entry":
                entry = True
            while work:
                m = work.pop()
                if m.id in seen:
                    continue
                seen.add(m.id)
                if m.id in gen and gen[m.id][0] == e["d"]:
                    if gen[m.id][1] is not None:
                        got.append(gen[m.id][1])
                    continue
                if m.kind == "entry":
                    entry = True
                work.extend(q for q, _ in m.pred)
            memo[key] = (got, entry)
        got, entry = memo[key]
        return got + [x for x in dd if id(x) not in strong], entry

    # --------------------------------------------------------------- origins
    def var(self, fn, e, seen):
        d, types, lam = self.defs(fn)
        out = set()
        dd = d.get(e["d"], ())
        if self.direct and dd:
            dd = [x for x in dd if id(x) in self.flowinfo(fn)[3]]
        if len(dd) > 1:
            dd, entry = self.reaching(fn, e, dd)
        else:
            entry = True
        if e.get("dk") == "parm":
            for i, pp in enumerate(fn["ps"]):
                if pp["d"] == e["d"]:
                    if entry:
                        out.add(("param", i))
                    break
            else:
                return {("unknown", "lambda parameter " + e["n"])}
        elif e.get("dk") == "global":
            return {("global", e.get("q", e["n"]))}
        key = ("v", fn["key"], e["d"], tuple(sorted(id(x) for x in dd)))
        if key in seen:
            return out
        seen = seen | {key}
        for x in dd:
            out |= self.origins(fn, x, seen)
        if not out:
            out = {FRESH}
        return out

    def origins(self, fn, e, seen=frozenset()):
        e = strip(e)
        k = e["k"]
        if k in ("int", "bool", "float", "str", "char", "nullptr", "sizeof", "lambda"):
            return set()
        if k == "this":
            return {THIS}
        if k == "ref":
            if e.get("dk") in ("func", "enum", "other"):
                return set()
            return self.var(fn, e, seen)
        if k == "mem":
            if e.get("f"):
                return self.origins(fn, e["c"][0], seen)
            if not pointerish(tstr(e, fn)) and tstr(e, fn):
                pass
            return self.origins(fn, e["c"][0], seen)
        if k == "un":
            if e["op"] == "&":
                return self.lv(fn, e["c"][0], seen)
            return self.origins(fn, e["c"][0], seen)
        if k == "bin":
            if e["op"] in ("=", ","):
                return self.origins(fn, e["c"][1], seen)
            out = set()
            for c in e["c"]:
                if pointerish(tstr(strip(c), fn)):
                    out |= self.origins(fn, c, seen)
            return out
        if k == "sub":
            return self.origins(fn, e["c"][0], seen)
        if k == "cond":
            return self.origins(fn, e["c"][1], seen) | self.origins(fn, e["c"][2], seen)
        if k == "new":
            out = {FRESH}
            if self.direct:
                return out
            for c in e["c"]:
                if c and pointerish(tstr(strip(c), fn)):
                    out |= self.origins(fn, c, seen)
            return out
        if k == "init":
            out = set()
            for c in e["c"]:
                out |= self.origins(fn, c, seen)
            return out or {FRESH}
        if k in ("call", "ctor"):
            return self.call_origins(fn, e, seen)
        if k.startswith("E:") or k.startswith("S:"):
            out = set()
            for c in e.get("c", []):
                if isinstance(c, dict) and "k" in c:
                    out |= self.origins(fn, c, seen)
            return out
        return set()

    def args_origins(self, fn, e, seen):
        out = set()
        o, args = self.recv(e)
        if o is not None:
            out |= self.origins(fn, o, seen)
        for c in args:
            if pointerish(tstr(strip(c), fn)):
                out |= self.origins(fn, c, seen)
        return out

    def call_origins(self, fn, e, seen):
        f = e.get("f")
        if not f:
            if e.get("fn"):
                return {("unknown", "indirect call")}
            return {("unknown", "call")}
        n = f["q"].split("::")[-1]
        if e["k"] == "call" and e.get("op") == "=" and e["c"]:
            return self.origins(fn, e["c"][-1], seen)
        if n in ALLOC:
            out = {FRESH}
            if self.direct:
                return out
            for c in e["c"]:
                if pointerish(tstr(strip(c), fn)):
                    out |= self.origins(fn, c, seen)
            return out
        rt = tstr(e, fn)
        if e["k"] == "call" and rt and not pointerish(rt) and not isref(rt) and not rt.startswith("auto"):
            if not any(s in rt for s in ("class", "struct", "awkward")):
                return {FRESH}     # a number or other plain value
        cs = self.callees(e, fn)
        if not cs:
            out = self.args_origins(fn, e, seen)
            return out or {FRESH}
        out = set()
        o, args = self.recv(e) if e["k"] == "call" else (None, e["c"])
        rets = set()
        for g in cs:
            r = self.ret(g)
            if g.get("ctor"):
                r = {q for q in r if q[0] != "this"}
            rets |= r
        out = self.map(rets, fn, cs[0], o, args, seen)
        return out or {FRESH}

    def map(self, origins, fn, g, o, args, seen, deep=True):
        out = set()
        for r in origins:
            if r[0] == "this":
                if o is None:
                    out.add(FRESH if g.get("ctor") else r)
                else:
                    out |= self.origins(fn, o, seen)
            elif r[0] == "param":
                if r[1] < len(args):
                    a = args[r[1]]
                    out |= self.origins(fn, a, seen)
                    pt = g["u"].types[g["pt"][r[1]]] if r[1] < len(g["pt"]) else ""
                    if not deep and isref(pt):
                        out |= self.lv(fn, a, seen)
            else:
                out.add(r)
        return out

    def ret(self, g):
        """origins of what g returns (for a constructor: of what it keeps)"""
        k = (g["key"], self.direct)
        if k in self.retmemo:
            return self.retmemo[k]
        if k in self.active:
            return self.retprev.get(k, set())
        self.active.add(k)
        out = set()
        if g.get("ctor"):
            for i in g.get("inits", []):
                v = i.get("v")
                if v and (i.get("deleg") or i.get("base") is not None or pointerish(tstr(strip(v), g))):
                    out |= self.origins(g, v)
        else:
            for x in walk_own(g["body"]):
                if x.get("k") == "return" and x.get("v"):
                    out |= self.origins(g, x["v"])
        self.active.discard(k)
        self.retmemo[k] = out
        return out

    # ---------------------------------------------------------------- lvalues
    def lv(self, fn, e, seen=frozenset()):
        while e["k"] in ("cast", "icast"):
            if e["k"] == "icast" and e.get("ck") == "LValueToRValue":
                return self.origins(fn, e, seen)
            e = e["c"][0]
        k = e["k"]
        if k == "this":
            return {OWN}
        if k == "ref":
            if e.get("dk") == "global":
                return {("global", e.get("q", e["n"]))}
            d, types, lam = self.defs(fn)
            t = types.get(e["d"], "")
            if e.get("dk") == "parm":
                for i, pp in enumerate(fn["ps"]):
                    if pp["d"] == e["d"]:
                        return {("param", i, "own")} if isref(t) else {FRESH}
                return {FRESH}
            if isref(t):
                out = set()
                for x in d.get(e["d"], ())[:1]:
                    out |= self.lv(fn, x, seen)
                return out or {FRESH}
            return {FRESH}
        if k == "mem":
            b = e["c"][0]
            if strip(b)["k"] == "this":
                return {OWN}
            if isptr(tstr(b, fn)):
                return self.origins(fn, b, seen)
            return self.lv(fn, b, seen)
        if k == "sub":
            b = e["c"][0]
            bb = b
            while bb["k"] == "icast" and bb.get("ck") == "ArrayToPointerDecay":
                return self.lv(fn, bb["c"][0], seen)
            return self.origins(fn, b, seen)
        if k == "un" and e["op"] == "*":
            return self.origins(fn, e["c"][0], seen)
        if k == "un" and e["op"] in ("++", "--"):
            return self.lv(fn, e["c"][0], seen)
        if k == "cond":
            return self.lv(fn, e["c"][1], seen) | self.lv(fn, e["c"][2], seen)
        if k == "call" and e.get("f"):
            o, args = self.recv(e)
            rt = tstr(e, fn)
            if o is not None:
                cls = e["f"].get("cls", "")
                if cls.startswith(("std::shared_ptr<", "std::unique_ptr<", "std::__shared_ptr", "__gnu_cxx::__normal_iterator")) or "iterator" in cls.split("<")[0]:
                    return self.origins(fn, o, seen)
                if self.callees(e, fn):
                    return self.call_origins(fn, e, seen)
                return self.lv(fn, o, seen) if not isptr(tstr(o, fn)) else self.origins(fn, o, seen)
            return self.call_origins(fn, e, seen)
        if k == "bin" and e["op"] == "=":
            return self.lv(fn, e["c"][0], seen)
        return {FRESH}

    # ----------------------------------------------------------------- writes
    def writes(self, fn):
        k = fn["key"]
        if k in self.wmemo:
            return self.wmemo[k]
        if k in self.wactive:
            return self.wprev.get(k, [])
        self.wactive.add(k)
        out = []

        def add(orig, x, what):
            o = {r for r in orig if r != FRESH}
            out.append((frozenset(o), x, what))
        for x in walk(fn["body"]):
            kk = x.get("k")
            if isassign(x) or kk == "un" and x["op"] in ("++", "--", "post++", "post--"):
                l = x["c"][0]
                ls = strip(l)
                if ls["k"] == "ref" and not isref(self.defs(fn)[1].get(ls["d"], "")) and ls.get("dk") != "global":
                    continue
                self.direct = True
                w = self.lv(fn, l)
                self.direct = False
                add(w, x, "assignment")
            elif kk in ("call", "ctor") and x.get("f"):
                n = x["f"]["q"].split("::")[-1]
                oa = self.out(x, fn)
                if oa is not None:
                    for nm, a in oa:
                        add(self.origins(fn, a), x, "output argument %s of %s" % (nm, n))
                    continue
                cs = self.callees(x, fn)
                o, args = self.recv(x) if kk == "call" else (None, x["c"])
                if cs:
                    for g in cs:
                        if self.stop(g):
                            continue
                        w = set()
                        for orig, _, _ in self.writes(g):
                            w |= orig
                        if g.get("ctor") or not self.mutator(g):
                            w -= {THIS, OWN}
                        w = {r for r in w if r[0] in ("this", "param")}
                        for r in sorted(w):
                            m = self.mapw(r, fn, g, o, args)
                            add(m, x, "call of %s, which writes %s" % (g["q"], dname(r, g)))
                elif kk == "call":
                    if n in MUTATORS and o is not None:
                        ls = strip(o)
                        if ls["k"] == "ref" and not isref(self.defs(fn)[1].get(ls["d"], "")) and ls.get("dk") != "global":
                            continue
                        self.direct = True
                        w = self.lv(fn, o) if not isptr(tstr(o, fn)) else self.origins(fn, o)
                        self.direct = False
                        add(w, x, "%s on it" % n)
                    elif n in DEST_FIRST and args and o is None:
                        add(self.origins(fn, args[0]), x, n)
                    elif n in DEST_THIRD and len(args) > 2 and o is None:
                        add(self.origins(fn, args[2]), x, n)
                    elif n == "swap" and o is None:
                        for a in args:
                            add(self.lv(fn, a), x, n)
        self.wactive.discard(k)
        self.wmemo[k] = out
        return out

    def mapw(self, r, fn, g, o, args):
        own = r[-1] == "own"
        if r[0] == "this":
            if o is None:
                return {OWN if own else THIS}
            return self.target(fn, o, own)
        if r[0] == "param":
            if r[1] >= len(args):
                return set()
            return self.target(fn, args[r[1]], own)
        return {r}

    def target(self, fn, o, own):
        if not own:
            return self.origins(fn, o)
        if strip(o)["k"] == "this":
            return {OWN}
        if isptr(tstr(o, fn)):
            self.direct = True
            try:
                return self.origins(fn, o)
            finally:
                self.direct = False
        return self.lv(fn, o)


def walk_own(n):
    from .core import walk_nolambda
    return walk_nolambda(n)


def dname(r, g):
    if r[0] == "this":
        return "its receiver"
    if r[0] == "param":
        return "its parameter " + (g["ps"][r[1]]["n"] if r[1] < len(g["ps"]) else str(r[1]))
    return "%s %s" % r[:2]
