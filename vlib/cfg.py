"""Control-flow graphs over the serialised AST (short-circuit conditions
decomposed into leaf conditions; edges labelled with the outcome)."""
from .core import children, walk, strip


class Node:
    __slots__ = ("id", "kind", "ast", "succ", "pred", "case")

    def __init__(self, id, kind, ast):
        self.id = id
        self.kind = kind      # stmt decl cond ret throw entry exit texit join catch switch
        self.ast = ast
        self.succ = []        # (node, label)  label: True/False/None/('case',[vals])/'default'
        self.pred = []
        self.case = None

    def __repr__(self):
        return "<%d %s l%s>" % (self.id, self.kind, self.ast.get("l") if self.ast else None)


class CFG:
    def __init__(self, body, noreturn=None):
        self.nodes = []
        self.noreturn = noreturn or (lambda call: False)
        self.entry = self.new("entry", None)
        self.exit = self.new("exit", None)
        self.texit = self.new("texit", None)
        self.brk = []
        self.cont = []
        self.handlers = []    # stack of list of catch nodes
        end = self.stmt(body, [(self.entry, None)])
        self.link(end, self.exit)
        for n in self.nodes:
            for s, l in n.succ:
                s.pred.append((n, l))

    def new(self, kind, ast):
        n = Node(len(self.nodes), kind, ast)
        self.nodes.append(n)
        return n

    def link(self, preds, node):
        for p, l in preds:
            p.succ.append((node, l))

    def place(self, preds, kind, ast):
        n = self.new(kind, ast)
        self.link(preds, n)
        if self.handlers and kind in ("stmt", "decl", "cond", "ret", "switch"):
            if any(x["k"] in ("call", "ctor", "throw", "new", "delete") or x["k"].startswith("E:") for x in walk(ast) if "k" in x):
                for h in self.handlers[-1]:
                    n.succ.append((h, "exc"))
        return n

    def throw_targets(self):
        return list(self.handlers[-1]) if self.handlers else [self.texit]

    def simple(self, ast, preds, kind="stmt"):
        """an expression evaluated for effect"""
        if ast["k"] == "throw":
            n = self.new("throw", ast)
            self.link(preds, n)
            for h in self.throw_targets():
                n.succ.append((h, "exc"))
            if self.handlers:
                n.succ.append((self.texit, "exc"))
            return []
        if ast["k"] == "bin" and ast["op"] in ("&&", "||") or ast["k"] == "cond":
            # evaluated for effect: keep as control flow
            if ast["k"] == "cond":
                t, f = self.cond(ast["c"][0], preds)
                return self.simple(ast["c"][1], t) + self.simple(ast["c"][2], f)
            t, f = self.cond(ast, preds)
            return t + f
        if ast["k"] == "bin" and ast["op"] == ",":
            return self.simple(ast["c"][1], self.simple(ast["c"][0], preds))
        n = self.place(preds, kind, ast)
        if self.is_noreturn(ast):
            for h in self.throw_targets():
                if not self.handlers:
                    n.succ.append((h, "exc"))
            return []
        return [(n, None)]

    def is_noreturn(self, ast):
        if ast["k"] == "call" and self.noreturn(ast):
            return True
        return False

    def cond(self, ast, preds):
        """returns (true preds, false preds)"""
        if not preds:
            return [], []
        k = ast["k"]
        if k in ("icast",) and ast.get("ck") in ("IntegralToBoolean", "PointerToBoolean"):
            # keep leaf, conversion is transparent
            return self.cond(ast["c"][0], preds)
        if k == "un" and ast["op"] == "!":
            t, f = self.cond(ast["c"][0], preds)
            return f, t
        if k == "bin" and ast["op"] == "&&":
            t1, f1 = self.cond(ast["c"][0], preds)
            t2, f2 = self.cond(ast["c"][1], t1)
            return t2, f1 + f2
        if k == "bin" and ast["op"] == "||":
            t1, f1 = self.cond(ast["c"][0], preds)
            t2, f2 = self.cond(ast["c"][1], f1)
            return t1 + t2, f2
        if k == "cond":
            t, f = self.cond(ast["c"][0], preds)
            t1, f1 = self.cond(ast["c"][1], t)
            t2, f2 = self.cond(ast["c"][2], f)
            return t1 + t2, f1 + f2
        if k == "bool":
            return (preds, []) if ast["v"] else ([], preds)
        if k == "int":
            return (preds, []) if ast["v"] else ([], preds)
        n = self.place(preds, "cond", ast)
        return [(n, True)], [(n, False)]

    def decls(self, vs, preds, line):
        for v in vs:
            if not preds:
                break
            d = {"k": "vardecl", "l": line, "n": v["n"], "d": v["d"], "t": v["t"], "c": [v["init"]] if v.get("init") else []}
            if v.get("static"):
                d["static"] = 1
            n = self.place(preds, "decl", d)
            if v.get("init") and self.is_noreturn(v["init"]):
                preds = []
            else:
                preds = [(n, None)]
        return preds

    def stmt(self, s, preds):
        if s is None:
            return preds
        k = s["k"]
        if not preds and k not in ("block", "case", "default", "switch"):
            # unreachable, but may contain case labels
            if not any(x.get("k") in ("case", "default") for x in walk(s)):
                return []
        if k == "block":
            for c in s["c"]:
                preds = self.stmt(c, preds)
            return preds
        if k == "null_stmt":
            return preds
        if k == "decl":
            return self.decls(s["v"], preds, s["l"])
        if k == "if":
            if s.get("init"):
                preds = self.stmt(s["init"], preds)
            if s.get("var"):
                preds = self.decls([s["var"]], preds, s["l"])
            t, f = self.cond(s["cond"], preds)
            t = self.stmt(s["then"], t)
            if s.get("else"):
                f = self.stmt(s["else"], f)
            return t + f
        if k in ("for", "while"):
            if s.get("init"):
                preds = self.stmt(s["init"], preds)
            head = self.new("join", s)
            self.link(preds, head)
            p = [(head, None)]
            if s.get("var"):
                p = self.decls([s["var"]], p, s["l"])
            if s.get("cond"):
                t, f = self.cond(s["cond"], p)
            else:
                t, f = p, []
            self.brk.append([])
            self.cont.append([])
            end = self.stmt(s["body"], t)
            end = end + self.cont.pop()
            if s.get("inc"):
                if end:
                    end = self.simple(s["inc"], end)
            self.link(end, head)
            return f + self.brk.pop()
        if k == "rfor":
            n = self.place(preds, "stmt", s["range"])
            head = self.new("rfor", s)
            self.link([(n, None)], head)
            self.brk.append([])
            self.cont.append([])
            v = dict(s["var"])
            v.pop("init", None)
            d = {"k": "vardecl", "l": s["l"], "n": v["n"], "d": v["d"], "t": v["t"], "c": [], "range": s["range"]}
            dn = self.new("decl", d)
            head.succ.append((dn, True))
            end = self.stmt(s["body"], [(dn, None)])
            end = end + self.cont.pop()
            self.link(end, head)
            return [(head, False)] + self.brk.pop()
        if k == "do":
            head = self.new("join", s)
            self.link(preds, head)
            self.brk.append([])
            self.cont.append([])
            end = self.stmt(s["body"], [(head, None)])
            end = end + self.cont.pop()
            t, f = self.cond(s["cond"], end)
            self.link(t, head)
            return f + self.brk.pop()
        if k == "switch":
            n = self.place(preds, "switch", s["cond"])
            self.brk.append([])
            old = getattr(self, "_sw", None)
            self._sw = [n, False, []]
            end = self.stmt(s["body"], [])
            had_default = self._sw[1]
            allenum = s.get("allenum")
            self._sw = old
            out = end + self.brk.pop()
            if not had_default:
                out = out + [(n, "default")]
            return out
        if k == "case":
            sw = self._sw
            preds = preds + [(sw[0], ("case", s.get("ival")))]
            return self.stmt(s["body"], preds)
        if k == "default":
            sw = self._sw
            sw[1] = True
            preds = preds + [(sw[0], "default")]
            return self.stmt(s["body"], preds)
        if k == "break":
            self.brk[-1].extend(preds)
            return []
        if k == "continue":
            self.cont[-1].extend(preds)
            return []
        if k == "return":
            v = s.get("v")
            if v is not None and v["k"] == "throw":
                return self.simple(v, preds)
            n = self.place(preds, "ret", s)
            if v is not None and v["k"] == "call" and self.is_noreturn(v):
                n.succ.append((self.texit, "exc"))
            else:
                n.succ.append((self.exit, None))
            return []
        if k == "try":
            hs = []
            for h in s["h"]:
                hs.append(self.new("catch", {"k": "catch", "l": h["l"], "t": h.get("t"), "d": h.get("d"), "h": []}))
            self.handlers.append(hs)
            end = self.stmt(s["body"], preds)
            self.handlers.pop()
            outs = end
            for h, n in zip(s["h"], hs):
                outs = outs + self.stmt(h["body"], [(n, None)])
            return outs
        if k.startswith("S:"):
            n = self.place(preds, "stmt", s)
            return [(n, None)]
        return self.simple(s, preds)

    def reachable(self):
        seen, st = set(), [self.entry]
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            st.extend(s for s, _ in n.succ)
        return seen


class NoReturn:
    """functions of the program that never return normally (always throw)"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def __call__(self, call, unit=None):
        f = call.get("f")
        if not f:
            return False
        if f.get("noret"):
            return True
        if f.get("virt"):
            return False
        g = self.prog.funcs.get(f.get("m"))
        if g is None or "body" not in g:
            return False
        return self.func(g)

    def func(self, g):
        k = g["key"]
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        # cheap pre-test: must contain a throw or a noreturn call
        c = CFG(g["body"], self)
        r = c.exit.id not in c.reachable()
        self.memo[k] = r
        return r


def lambdas(fn):
    """(pseudo function) for each lambda in fn's body, recursively"""
    out = []
    for x in walk(fn["body"]):
        if x.get("k") == "lambda":
            out.append({"q": fn["q"] + "::<lambda@%d>" % x["l"], "n": "<lambda>", "m": "", "key": fn["key"] + "$l%d" % x["l"],
                        "u": fn["u"], "path": fn["path"], "l": x["l"], "ps": x["ps"], "body": x["body"],
                        "rt": x.get("rt"), "lambda": x, "parent": fn, "pt": [p["t"] for p in x["ps"]]})
    return out


def single_defs(fn):
    """decl id -> initialiser, for locals that are initialised once and never
    written again (used to see through named conditions)"""
    if "_sd" in fn:
        return fn["_sd"]
    init, written = {}, set()
    for x in walk(fn["body"]):
        k = x.get("k")
        if k == "decl":
            for v in x["v"]:
                if v.get("init"):
                    init[v["d"]] = v["init"]
        elif k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
            b = strip(x["c"][0])
            if b["k"] == "ref":
                written.add(b["d"])
        elif k == "un" and x["op"] in ("++", "--", "post++", "post--", "&"):
            b = strip(x["c"][0])
            if b["k"] == "ref":
                written.add(b["d"])
        elif k == "call" and x.get("op") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") and x["c"]:
            b = strip(x["c"][0])
            if b["k"] == "ref":
                written.add(b["d"])
    fn["_sd"] = {d: e for d, e in init.items() if d not in written}
    fn["_wr"] = written
    return fn["_sd"]


def written_vars(fn):
    """decl ids assigned, incremented or address-taken anywhere in the body"""
    single_defs(fn)
    return fn["_wr"]
