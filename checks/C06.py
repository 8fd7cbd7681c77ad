"""C06: every Forth word is reserved, compiled, executed, measured and decompiled as the same word.

The word tables are read from their initialisers.  Then, with the tokens of one source construct held constant and
everything else symbolic, the compiler (parse) is interpreted over the clang AST (constant propagation with provenance
terms, vlib/mini.py) giving the instruction it emits and where the operands come from; with that instruction held
constant the decompiler, the instruction-width table and the interpreter loop are interpreted the same way.  Rules: the
decompiled text is the construct that compiled to it, its operands name the same thing, the width is the number of slots
emitted and the number the interpreter consumes, the words are reserved and no two constructs share an instruction; the
transfer function of the instruction on stack, variables, inputs, outputs and loop counters is the one of the word; reads
use the type of their format code, swap bytes exactly for the other byte order and write to the named output with that
type.  Every error has its own message, its own name in Python and its own flag, and the flags reach the machine in order.
"""
import itertools
import re
from vlib.core import *
from vlib import core as _core
from vlib.mini import *
from vlib.mini import short
from checks.C16 import THIS, fld

CLS = ("awkward::ForthMachineOf<int, int>", "awkward::ForthMachineOf<long, int>")
POINTERS = {"stack_buffer_", "current_which_", "current_where_", "do_recursion_depth_", "do_stop_", "do_i_"}
D0, R0, L0 = 100, 70, 50        # stand-ins for the current depths; all other fields are symbolic


def walk(n):
    return (x for x in _core.walk(n) if "k" in x)


def intbits(t):
    t = t.replace("const ", "").strip()
    return {"char": 8, "signed char": 8, "short": 16, "int": 32, "long": 64, "long long": 64, "int32_t": 32, "int64_t": 64, "int8_t": 8, "int16_t": 16}.get(t), \
           {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 64, "unsigned long long": 64, "bool": 1, "uint8_t": 8, "uint16_t": 16, "uint32_t": 32, "uint64_t": 64}.get(t)


class FM(Mini):
    """adds addressable cells (arrays, vectors, pointers into them) and integer conversions to the domain"""

    def canon(self, fr, t):
        u = fr.fn["u"]
        return u.types[t] if isinstance(t, int) and t >= 0 else ""

    # addresses -------------------------------------------------------------
    def lval(self, fr, n, st):
        """-> list of (st, address) ; address None: not addressable here"""
        n0 = n
        n = strip(n)
        k = n["k"]
        if k == "sub":
            return [(s, self.plus(v[0], v[1])) for s, v in self.evs(fr, n["c"], st)]
        if k == "un" and n["op"] == "*":
            return [(s, v if v[0] == "addr" else ("addr", v, ("k", 0))) for s, v in self.ev(fr, n["c"][0], st)]
        if k == "un" and n["op"] in ("++", "--"):
            out = []
            for s, a in self.lval(fr, n["c"][0], st):
                out += [(s2, a) for s2, _ in self.ev(fr, n, s)]
            return out
        if k == "call" and n.get("op") == "[]":
            nodes = ([n["obj"]] if n.get("obj") else []) + n.get("c", [])
            return [(s, self.plus(v[0], v[1])) for s, v in self.evs(fr, nodes, st)]
        if k == "call" and n.get("f") and short(n["f"]["q"]) == "at" and n.get("obj"):
            return [(s, self.plus(v[0], v[1])) for s, v in self.evs(fr, [n["obj"]] + n["c"], st)]
        if k == "call":
            g = self.prog.callee(n, fr.fn["u"]) if n.get("f") else None
            if g is not None and g.get("body") and g.get("cls") in CLS and len(g["ps"]) == 0:
                rs = [x for x in walk(g["body"]) if x["k"] == "return" and x.get("v")]
                if len(rs) == 1 and len(g["body"].get("c", [])) == 1:
                    f2 = self.frame(g, THIS, fr.depth + 1)
                    return self.lval(f2, rs[0]["v"], st)
        if k == "mem":
            return [(s, ("field", b, n["n"])) for s, b in self.ev(fr, n["c"][0], st)]
        if k == "ref":
            return [(st, ("local", (fr.n, n["d"]), n))]
        return [(st, None)]

    def plus(self, base, idx):
        if base[0] == "op" and base[1] in ("+", "-") and len(base) == 4:
            # pointer arithmetic
            x, y = base[2], base[3]
            if base[1] == "+" and self.pointer(y) and not self.pointer(x):
                x, y = y, x
            if self.pointer(x):
                a = self.plus(x, y if base[1] == "+" else ("k", -y[1]) if y[0] == "k" else ("op", "neg", y))
                return self.plus(a, idx)
        if base[0] == "addr":
            return ("addr", base[1], fold("+", base[2], idx) or ("op", "+", base[2], idx))
        return ("addr", base, idx)

    def pointer(self, t):
        if t[0] == "addr" or t[0] == "fld" and t[2] in POINTERS:
            return True
        return t[0] == "op" and t[1] in ("+", "-") and len(t) == 4 and (self.pointer(t[2]) or t[1] == "+" and self.pointer(t[3]))

    def load(self, a, st):
        if a[0] == "addr":
            b, i = a[1], a[2]
            h = self.h.cell(b, i, st)
            if h is not None:
                return h
            return st.heap.get(("cell", b, i), ("at", b, i))
        return a

    def store(self, fr, n, v, st):
        """-> True when the target was an addressable cell"""
        for s, a in self.lval(fr, n, st)[:1]:
            if a is None:
                return False
            if a[0] == "addr":
                st.heap[("cell", a[1], a[2])] = v
                st.event("cell", a[1], a[2], v, strip(n).get("l"))
                return True
        return False

    def assign(self, fr, lhs, v, st):
        y = strip(lhs)
        if y["k"] == "un" and y["op"] == "*" and strip(y["c"][0])["k"] == "ref":
            p = self.ev(fr, y["c"][0], st)[0][1]
            if p[0] != "addr":
                return
        if y["k"] in ("sub", "call", "un") and self.store(fr, lhs, v, st):
            return
        super().assign(fr, lhs, v, st)

    # expressions -----------------------------------------------------------
    def ev(self, fr, n, st):
        k = n["k"]
        if k in ("icast", "cast"):
            t = self.canon(fr, n.get("t", -1)).strip()
            out = super().ev(fr, n, st)
            if t.endswith("*") and k == "cast":
                return [(s, ("pcast", deref_type(t), v)) for s, v in out]
            ck = n.get("ck")
            if ck in ("IntegralCast", "FloatingToIntegral") or k == "cast":
                sb, ub = intbits(t)
                if sb or ub:
                    return [(s, self.convert(v, sb, ub)) for s, v in out]
            return out
        if k == "sub":
            return [(s, self.load(self.deref(v[0], v[1]), s)) for s, v in self.evs(fr, n["c"], st)]
        if k == "un" and n["op"] == "*":
            return [(s, self.load(self.deref(v, ("k", 0)), s)) for s, v in self.ev(fr, n["c"][0], st)]
        if k == "un" and n["op"] == "&":
            return [(s, a if a is not None else ("expr", "&")) for s, a in self.lval(fr, n["c"][0], st)]
        if k == "un" and n["op"] == "~":
            return [(s, ("k", ~v[1]) if v[0] == "k" and isinstance(v[1], int) else ("op", "~", v)) for s, v in self.ev(fr, n["c"][0], st)]
        return super().ev(fr, n, st)

    def deref(self, v, i):
        if v[0] == "pcast":
            return ("deref", v[1], v[2], i)
        return self.plus(v, i)

    def convert(self, v, sb, ub):
        if v[0] == "k" and isinstance(v[1], (int, bool)) and not isinstance(v[1], str):
            b = sb or ub
            x = int(v[1]) & ((1 << b) - 1)
            if sb and x >> (b - 1):
                x -= 1 << b
            return ("k", x)
        b = ("int", sb) if sb else ("uint", ub)
        if v[0] == "conv" and v[1] == b:
            return v
        return ("conv", b, v)

    def apply(self, fr, n, f, op, objn, argn, vs, s):
        if op == "[]" and len(vs) == 2:
            h = self.h.call(self, n, fr, "operator[]", vs[0], vs[1:], s)
            return [(s, h if h is not None else self.load(self.plus(vs[0], vs[1]), s))]
        return super().apply(fr, n, f, op, objn, argn, vs, s)

    def loop(self, fr, n, st):
        c = strip(n["cond"]) if n.get("cond") is not None else None
        if n["k"] == "while" and c["k"] == "bin" and c["op"] in CMP:
            vs = self.evs(fr, c["c"], st.copy())
            if len(vs) == 1 and self.h.truth(("op", c["op"]) + tuple(vs[0][1]), st) is False:
                return [(st, None)]
        return super().loop(fr, n, st)

    def stmt(self, fr, n, st):
        if n["k"] == "goto":
            return [(st, ("ret", ("goto",)))]
        return super().stmt(fr, n, st)


class FH(Hooks):
    def cell(self, base, idx, st):
        return None

    def inline(self, g, name, obj, args):
        return g.get("cls") in CLS and obj == THIS


def stripconv(t):
    while t[0] == "conv":
        t = t[2]
    return t


def deepstrip(t):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "conv":
        return deepstrip(t[2])
    return tuple(deepstrip(x) for x in t)


def strs(t, out=None):
    """a string built with + flattened to its parts"""
    out = [] if out is None else out
    t = stripconv(t)
    if t[0] == "op" and t[1] == "+":
        strs(t[2], out)
        strs(t[3], out)
    else:
        out.append(t)
    return out


# ---------------------------------------------------------------- word tables
def tables(prog):
    out = {}
    for q, g in prog.globals.items():
        if not g.get("init"):
            continue
        pairs, singles = {}, []
        for n in walk(g["init"]):
            if n["k"] in ("ctor", "ilist", "init"):
                c = [strip(x) for x in n.get("c", []) if "k" in x]
                if len(c) == 2:
                    s = [y for y in walk(c[0]) if y["k"] == "str"]
                    i = [y for y in walk(c[1]) if y["k"] in ("int",) or y["k"] == "ref" and y.get("dk") == "enum"]
                    if len(s) == 1 and len(i) == 1:
                        pairs[s[0]["v"]] = (i[0]["v"], n.get("l") or g["l"])
        singles = [y["v"] for y in walk(g["init"]) if y["k"] == "str"]
        if pairs or singles:
            out[q.split("::")[-1]] = (pairs, singles, g)
    return out


def fn_of(prog, cls, name, n=None):
    for f in prog.funcs.values():
        if f.get("cls") == cls and short(f["q"]).split("<")[0] == name and f.get("body") and (n is None or len(f["ps"]) == n):
            return f
    raise AnalysisBroken("%s::%s not found" % (cls, name))


# ---------------------------------------------------------------- compiler
class ParseH(FH):
    """tokens of one construct are constants; names are known by their role"""

    def __init__(self, tabs, toks, opened):
        self.tabs, self.toks, self.opened = tabs, toks, opened

    def truth(self, v, st):
        if v[0] == "op" and v[1] in ("==", "!=") and len(v) == 4:
            a, b = v[2], v[3]
            if b[0] != "k":
                a, b = b, a
            if a[0] == "found" and b[0] == "k":
                return v[1] == "!="                  # a position is never the mark for "not found"
            # names chosen by the user differ from every word of the language (the declarations make sure)
            if a[0] in ("name", "literal") and b[0] == "k":
                return v[1] == "!="
            if a[0] in ("name", "literal") and b[0] in ("name", "literal"):
                return (a == b) == (v[1] == "==")
        if v[0] == "op" and len(v) == 4 and stripconv(v[2]) == ("nbits",) and v[3] == ("k", 0):
            return v[1] in (">", ">=", "!=")
        return None

    def pos(self, t):
        t = deepstrip(t)
        if t == ("sym", "start"):
            return 0
        if t[0] == "op" and t[1] == "+" and t[2] == ("sym", "start") and t[3][0] == "k":
            return t[3][1]
        return None

    def call(self, m, node, fr, q, obj, args, st):
        n = short(q).split("<")[0]
        if q == "operator[]" and obj == ("sym", "tokenized"):
            k = self.pos(args[0])
            if k is not None and k < len(self.toks):
                return self.toks[k]
            if k is not None and not self.opened:
                return ("k", "?end?")
            return ("tok", deepstrip(args[0]))
        if q == "operator[]" and obj is not None and obj[0] == "fld" and obj[2].endswith("_names_"):
            return ("nameat", obj[2], deepstrip(args[0]))
        if n in ("is_variable", "is_input", "is_output", "is_defined") and args:
            return ("k", args[0][0] == "name" and args[0][1] == n[3:])
        if n == "is_nbit" and args:
            w = args[0]
            if w[0] == "k":
                x = w[1].lstrip("#").lstrip("!")
                if x.endswith("bit->") and x[:-5].isdigit():
                    m.assign(fr, node["c"][1], ("nbits",), st)
                    return ("k", True)
                return ("k", False)
        if n == "is_reserved" and args and args[0][0] in ("k", "name", "literal"):
            return ("k", args[0][0] == "k")
        if n == "is_integer" and args:
            if args[0] == ("literal",):
                m.assign(fr, node["c"][1], ("litvalue",), st)
                return ("k", True)
            return ("k", False)
        if n == "parse":
            a = tuple(deepstrip(x) for x in args)
            st.event("parse", a)
            if len(a) == 9 and len(node.get("c", [])) == 9:
                m.assign(fr, node["c"][5], ("range", a[3], a[4], a[7], a[8]), st)
            return ("void",)
        if n == "size" and obj == ("sym", "dictionary"):
            k = sum(1 for e in st.events if e[0] == "push" and e[1] == obj)
            return ("dictsize", k)
        if n == "push_back" and obj is not None:
            st.event("push", obj, deepstrip(args[0]), node.get("l"))
            return ("void",)
        if obj is not None and obj[0] == "k" and isinstance(obj[1], str) and n == "substr" and all(a[0] == "k" for a in args):
            a, b = args[0][1], args[1][1] if len(args) > 1 else len(obj[1])
            return ("k", obj[1][a:a + b])
        if q == "operator[]" and obj is not None and obj[0] == "k" and isinstance(obj[1], str) and args[0][0] == "k":
            i = args[0][1]
            return ("k", ord(obj[1][i]) if 0 <= i < len(obj[1]) else 0)
        if n == "err_linecol":
            return ("call", "err_linecol")
        if n in ("count", "find") and obj is not None and obj[0] == "glob":
            return None
        return None

    def inline(self, g, name, obj, args):
        return False


class ParseM(FM):
    """follows the search for a name in a table to the entry that has that name"""

    def __init__(self, prog, hooks, tabs):
        super().__init__(prog, hooks, maxpaths=4000)
        self.tabs = tabs

    def element(self, r):
        return super().element(r)

    def stmt(self, fr, n, st):
        if n["k"] == "rfor":
            # a search through one of the constant tables: the entry of the word, if it has one
            r = strip(n["range"])
            name = r.get("n") if r["k"] == "ref" else None
            if name in self.tabs:
                pairs, singles, _ = self.tabs[name]
                out = []
                d = n["var"]
                if "d" not in d and d.get("k") == "decl":
                    d = d["v"][0]
                cands = [("new", "pair", (("first", ("k", w)), ("second", ("k", c[0])))) for w, c in pairs.items()]
                word = self.h.toks[0] if self.h.toks else None
                want = [t[1] for t in self.h.toks if t[0] == "k"]
                hit = [c for c in cands if c[2][0][1][1] in want] or [("new", "pair", (("first", ("k", "?other?")), ("second", ("k", -999))))]
                live, done = [st], []
                for c in hit + [("new", "pair", (("first", ("k", "?other?")), ("second", ("k", -999))))]:
                    nxt = []
                    for s in live:
                        s.env[(fr.n, d["d"])] = c
                        for s2, o in self.stmt(fr, n["body"], s):
                            if o is None or o[0] == "continue":
                                nxt.append(s2)
                            elif o[0] == "break":
                                done.append((s2, None))
                            else:
                                done.append((s2, o))
                    live = nxt
                return done + [(s, None) for s in live]
        return super().stmt(fr, n, st)

    def stmt_loop(self, fr, n, st):
        return super().loop(fr, n, st)

    def loop(self, fr, n, st):
        if n["k"] == "for":
            return self.search(fr, n, st)
        if n["k"] == "while":
            return self.scan(fr, n, st)
        return super().loop(fr, n, st)

    def search(self, fr, n, st):
        """for (...; i < names.size(); i++) if (names[i] == word) ...: the word is there when its role says so"""
        hit = []
        for s, o in super().loop(fr, n, st):
            names = [(f[2], b) for f, b in s.facts.items() if f[0] == "op" and f[1] == "==" and len(f) == 4 and f[2][0] == "nameat"] + \
                    [(f[3], b) for f, b in s.facts.items() if f[0] == "op" and f[1] == "==" and len(f) == 4 and f[3][0] == "nameat"]
            bad = False
            for f, b in list(s.facts.items()):
                if f[0] == "op" and f[1] == "==" and len(f) == 4:
                    x, y = (f[2], f[3]) if f[2][0] == "nameat" else (f[3], f[2])
                    if x[0] == "nameat":
                        role = {"variable_names_": "variable", "input_names_": "input", "output_names_": "output", "dictionary_names_": "defined"}.get(x[1])
                        is_there = y[0] == "name" and y[1] == role
                        if is_there != b:
                            bad = True
            if not bad:
                hit.append((s, o))
        return hit

    def scan(self, fr, n, st):
        """a search for the closing word of a construct: its effect on one token is recorded, and it ends with the closing
        position and any combination of the remembered positions and flags"""
        if fr.depth == 0 and n is self.top:
            return self.once(fr, n, st)
        mod = {}
        for x in walk(n["body"]):
            y = None
            if x["k"] == "un" and x["op"].replace("post", "") in ("++", "--"):
                y = strip(x["c"][0])
            elif x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in CMP:
                y = strip(x["c"][0])
            if y is not None and y["k"] == "ref" and y.get("dk") in ("var", "parm") and (fr.n, y["d"]) in st.env:
                mod[y["d"]] = y["n"]
        if not mod:
            return super().loop(fr, n, st)
        s0 = st.copy()
        for d, nm in mod.items():
            s0.env[(fr.n, d)] = ("in", nm, n.get("l"))
        steps = []
        entries = [s for s, b in self.cond(fr, n["cond"], s0) if b] if n.get("cond") else [s0]
        for s in entries:
            for s2, o in self.stmt(fr, n["body"], s):
                if o is None or o[0] in ("continue", "break"):
                    toks = {f[2][1] if f[3][0] == "tok" else f[3][1]: b for f, b in s2.facts.items()
                            if f[0] == "op" and f[1] in ("==", "!=") and len(f) == 4 and "tok" in (f[2][0], f[3][0]) and "k" in (f[2][0], f[3][0]) and (b == (f[1] == "=="))}
                    steps.append(([t for t, b in toks.items()], {nm: s2.env[(fr.n, d)] for d, nm in mod.items() if s2.env[(fr.n, d)] != ("in", nm, n.get("l"))}, dict(s2.facts), o))
        self.scans.append((n.get("l"), steps, {nm: st.env.get((fr.n, d)) for d, nm in mod.items()}))
        # remembered: assigned on some steps but not on all
        always = [d for d, nm in mod.items() if steps and all(nm in ch for _, ch, _, _ in steps)]
        outs = []
        some = [d for d in mod if d not in always and any(stripconv(ch[mod[d]])[0] != "op" or stripconv(ch[mod[d]])[2][:2] != ("in", mod[d]) for _, ch, _, _ in steps if mod[d] in ch)]
        for r in range(min(len(some), 1) + 1):
            for sub in itertools.combinations(some, r):
                s = st.copy()
                for d, nm in mod.items():
                    if d in always:
                        s.env[(fr.n, d)] = ("out", nm)
                    elif d in sub:
                        vals = {v for _, ch, _, _ in steps for v in ([ch[nm]] if nm in ch else [])}
                        s.env[(fr.n, d)] = list(vals)[0] if len(vals) == 1 and list(vals)[0][0] == "k" else ("found", nm)
                s.event("remember", tuple(mod[d] for d in sub))
                outs.append((s, None))
        return outs

    def once(self, fr, n, st):
        out = []
        for s, b in ([(st, True)] if n.get("cond") is None else self.cond(fr, n["cond"], st)):
            if b:
                out += [(s2, None if o is not None and o[0] in ("break", "continue") else o) for s2, o in self.stmt(fr, n["body"], s)]
        return out


def body_loop(fn):
    """the loop over the tokens"""
    for s in fn["body"].get("c", []):
        if s["k"] in ("while", "for"):
            return s
    raise AnalysisBroken("no loop over the tokens in parse")


def compile_of(prog, tabs, cls, toks, opened=False):
    """-> list of paths: (pushes on the segment, events, facts)"""
    fn = fn_of(prog, cls, "parse")
    h = ParseH(tabs, toks, opened)
    m = ParseM(prog, h, tabs)
    m.top = body_loop(fn)
    m.scans = []
    fr = m.frame(fn, THIS)
    st = St()
    for p in fn["ps"]:
        st.env[(fr.n, p["d"])] = ("sym", p["n"])
    if toks == [("k", "recurse")]:
        st.env[(fr.n, fn["ps"][0]["d"])] = ("name", "defined")
    seg = ("sym", fn["ps"][5]["n"])
    res = []
    for s, o in m.block(fr, fn["body"], [st]):
        if o is not None and o[0] == "throw":
            continue
        pushes = [e[2] for e in s.events if e[0] == "push" and e[1] == seg]
        lines = [e[3] for e in s.events if e[0] == "push" and e[1] == seg]
        res.append((pushes, s, lines[0] if lines else fn["l"]))
    # the variable that walks over the tokens
    m.cursor = None
    for x in walk(m.top.get("cond") or {"k": "none"}):
        if x["k"] == "ref" and x.get("dk") == "var":
            m.cursor = (fr.n, x["d"])
            break
    return fn, res, m


# ---------------------------------------------------------------- decompiler, widths
class ProgH(FH):
    """program: the slots of one instruction; a slot that the compiler filled with a segment number is larger than any
    instruction code"""

    def __init__(self, prog_slots, at0=None):
        self.slots = prog_slots

    def slot(self, i):
        i = deepstrip(i)
        if i[0] == "op" and i[1] == "+" and i[3][0] == "k":
            base, k = i[2], i[3][1]
            while base[0] == "op" and base[1] == "+" and base[3][0] == "k":
                base, k = base[2], k + base[3][1]
            return k
        if i[0] == "k":
            return None
        return 0

    def cell(self, b, i, st):
        if b == fld("bytecodes_"):
            k = self.slot(i)
            if k is not None:
                v = self.slots[k] if k < len(self.slots) else ("next",)
                return v if v[0] in ("k", "next") else ("seg", k) if v[0] == "seg" else ("opnd", k)
        return None

    def truth(self, v, st):
        v = deepstrip(v)
        if v[0] == "op" and len(v) == 4 and v[1] in CMP:
            a, b, op = v[2], v[3], v[1]
            if a[0] == "k":
                a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if b[0] == "k" and a[0] in ("seg",):
                return op in (">", ">=", "!=")
            if b[0] == "k" and a == ("next",):
                return op == "!="                    # whatever follows is not part of this instruction
            if b[0] == "call" or a[0] == "call" and a[1] == "size":
                # positions inside of the program
                if "size" in (a[1] if a[0] == "call" else "", b[1] if b[0] == "call" else ""):
                    x = a if b[0] == "call" else b
                    inside = True
                    k = self.slot(x)
                    if k is not None and k >= len(self.slots) and False:
                        inside = False
                    if b[0] == "call":
                        return inside if op in ("<", "<=", "!=") else not inside
                    return inside if op in (">", ">=", "!=") else not inside
            if b[0] == "k" and self.isopnd(a):
                return op in (">", ">=", "!=") if b[1] <= 0 else None
        return None

    def isopnd(self, a):
        return a == ("sym", "bytecode_position")

    def call(self, m, node, fr, q, obj, args, st):
        n = short(q).split("<")[0]
        if n == "decompiled_segment":
            return ("segtext", deepstrip(args[0]))
        if n == "segment_nonempty":
            return ("k", True)
        if n == "to_string":
            return ("text", deepstrip(args[0]))
        return None

    def inline(self, g, name, obj, args):
        return False


def textof(prog, cls, slots):
    fn = fn_of(prog, cls, "decompiled_at")
    m = FM(prog, ProgH(slots))
    out = []
    for s, v in m.run(fn, THIS, [("sym", "bytecode_position"), ("sym", "indent")]):
        parts, text = [], ""
        for x in strs(v):
            if x[0] == "k" and isinstance(x[1], str):
                text += x[1]
                continue
            if x == ("sym", "indent"):
                text += " "
                continue
            if text:
                parts.append(text)
                text = ""
            parts.append(deepstrip(x))
        if text:
            parts.append(text)
        words, glue = [], False
        for x in parts:
            if not isinstance(x, str):
                words = words[:-1] + [words[-1] + (x,)] if glue else words + [(x,)]
                glue = True
                continue
            for c in x:
                if c.isspace():
                    glue = False
                elif glue and isinstance(words[-1][-1], str):
                    words[-1] = words[-1][:-1] + (words[-1][-1] + c,)
                elif glue:
                    words[-1] += (c,)
                else:
                    words.append((c,))
                    glue = True
        out.append((tuple(words), s))
    return fn, out, parts if out else []


def widthof(prog, cls, slots):
    fn = fn_of(prog, cls, "bytecodes_per_instruction")
    m = FM(prog, ProgH(slots))
    return fn, {v for s, v in m.run(fn, THIS, [("sym", "bytecode_position")])}


# ---------------------------------------------------------------- interpreter
ERRF = fld("current_error_")


class RunH(ProgH):
    """one instruction, executed in a state with enough items and room on every stack"""

    def cell(self, b, i, st):
        r = super().cell(b, i, st)
        return r

    def slot(self, i):
        i = deepstrip(i)
        k = 0
        while i[0] == "op" and i[1] == "+":
            if i[3][0] == "k":
                k, i = k + i[3][1], i[2]
            elif i[2][0] == "k":
                k, i = k + i[2][1], i[3]
            else:
                break
        return k if i[0] == "at" and i[1] == fld("bytecodes_offsets_") else None

    def field(self, base, name, st):
        if base == THIS:
            return {"stack_depth_": ("k", D0), "stack_max_depth_": ("k", 1000), "recursion_current_depth_": ("k", R0), "recursion_max_depth_": ("k", 1000),
                    "do_current_depth_": ("k", L0), "current_error_": ("k", 0)}.get(name)
        return None

    def truth(self, v, st):
        r = super().truth(v, st)
        if r is not None:
            return r
        v = deepstrip(v)
        if v[0] == "op" and v[1] in ("==", "!=") and len(v) == 4:
            a, b = v[2], v[3]
            null = [x for x in (a, b) if x in (NULL, ("k", None), ("null",), ("nullptr",))]
            if len(null) == 1 and any(x[0] == "at" and x[1] in (fld("current_outputs_"), fld("current_inputs_")) for x in (a, b)):
                return v[1] == "!="
        if v[0] == "op" and v[1] in ("<", ">=") and len(v) == 4 and (v[2][0] == "k") and v[3][0] == "op" and v[3][1] == "-" and v[3][2][0] == "at" and v[3][2][1] == fld("bytecodes_offsets_"):
            return (v[2][1] < len(self.slots)) == (v[1] == "<")
        return None

    def call(self, m, node, fr, q, obj, args, st):
        n = short(q).split("<")[0]
        if n in ("do_abs_recursion_depth",):
            return ("k", 5)                          # not at the depth of the innermost loop
        if n == "is_segment_done":
            return ("k", False)
        if n in ("bytecodes_pointer_push", "bytecodes_pointer_pop"):
            st.event("do", n, obj, tuple(args), node.get("l"))
            return ("void",)
        g = m.prog.callee(node, fr.fn["u"]) if node.get("f") else None
        if self.free(g, n):
            return None
        if q.startswith("std::") and n not in ("abs", "min", "max", "get"):
            st.event("std", n)
        if not (g is not None and g.get("cls") in CLS and obj == THIS) and not q.startswith(("operator", "std::", "ctor:")) and n not in ("get",):
            t = ("call", n) + ((obj,) if obj is not None else ()) + tuple(deepstrip(a) for a in args)
            pt = (node.get("f") or {}).get("pt") or []
            st.event("do", n, obj, tuple(args), node.get("l"))
            return ("ext", n, obj, tuple(args), fr.fn["u"].types[node["t"]] if node.get("t", -1) >= 0 else "")
        return None

    def free(self, g, n):
        """a helper function of the machine"""
        return g is not None and g.get("body") and not g.get("cls") and "/forth/" in g.get("path", "") and not n.startswith("byteswap")

    def inline(self, g, name, obj, args):
        return g.get("cls") in CLS and obj == THIS and short(name) not in ("tokenize", "compile", "parse") or self.free(g, short(name))


PURE = {"numeric_limits", "max", "min", "abs", "size", "printf", "operator<<", "data", "lowest"}


def effect(prog, cls, slots, start):
    """paths of one instruction at slot `start` of the program -> list of dict"""
    fn = fn_of(prog, cls, "internal_run")
    m = FM(prog, RunH(slots), maxpaths=3000)
    st = St()
    st.heap[("cell", fld("current_where_"), ("k", R0 - 1))] = ("k", start)
    out = []
    for s, v in m.run(fn, THIS, [TRUE, ("k", 0)], st):
        g = lambda f: s.heap.get((THIS, f), m.h.field(THIS, f, s))
        if g("current_error_") != ("k", 0):
            continue
        cells = {(k[1], k[2]): v for k, v in s.heap.items() if k[0] == "cell"}
        where = cells.pop((fld("current_where_"), ("k", R0 - 1)))
        out.append({"depth": g("stack_depth_"), "rec": g("recursion_current_depth_"), "loops": g("do_current_depth_"), "where": where, "cells": cells,
                    "facts": s.facts, "events": [e for e in s.events if e[0] == "do"], "ready": s.heap.get((THIS, "is_ready_")), "opaque": [e for e in s.events if e[0] == "std" and e[1] not in PURE], "err": g("current_error_"), "v": v, "st": s})
    return fn, out


# ---------------------------------------------------------------- values
class Unknown(Exception):
    pass


STACK = fld("stack_buffer_")


def value(t, env):
    """of a term, in the arithmetic of C; env gives the atoms"""
    if t in env:
        return env[t]
    k = t[0]
    if k == "k":
        if isinstance(t[1], (int, bool)):
            return int(t[1])
        raise Unknown()
    if k == "conv":
        v = value(t[2], env)
        kind, b = t[1]
        v &= (1 << b) - 1
        return v - (1 << b) if kind == "int" and v >> (b - 1) else v
    if k == "op" and len(t) == 3:
        v = value(t[2], env)
        if t[1] in ("neg", "-"):
            return -v
        if t[1] == "~":
            return ~v
        if t[1] in ("!", "not"):
            return int(not v)
        raise Unknown()
    if k == "ite" and len(t) == 4:
        return value(t[2], env) if value(t[1], env) else value(t[3], env)
    if k == "call" and t[1] in ("abs", "std::abs", "labs", "llabs") and len(t) == 3:
        return abs(value(t[2], env))
    if k == "ext" and t[1] in ("abs", "labs", "llabs") and len(t[3]) == 1:
        return abs(value(t[3][0], env))
    if k in ("call", "ext") and short(t[1]) in ("min", "max"):
        a = t[3] if k == "ext" else t[2:]
        return (min if short(t[1]) == "min" else max)(value(a[0], env), value(a[1], env))
    if k == "op" and len(t) == 4:
        o = t[1]
        if o in ("&&", "and"):
            return int(bool(value(t[2], env)) and bool(value(t[3], env)))
        if o in ("||", "or"):
            return int(bool(value(t[2], env)) or bool(value(t[3], env)))
        a, b = value(t[2], env), value(t[3], env)
        if o in ("/", "%"):
            if b == 0:
                raise Unknown()
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return q if o == "/" else a - q * b
        if o in ("<<", ">>"):
            if not 0 <= b < 64:
                raise Unknown()
            return a << b if o == "<<" else a >> b
        f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "==": lambda: int(a == b), "!=": lambda: int(a != b),
             "<": lambda: int(a < b), "<=": lambda: int(a <= b), ">": lambda: int(a > b), ">=": lambda: int(a >= b)}.get(o)
        if f:
            return f()
    raise Unknown()


def fdiv(a, b):
    return a // b


# word -> (items taken, function to the items left, oldest first)
ARITH = {
    "dup": (1, lambda a: [a, a]), "drop": (1, lambda a: []), "swap": (2, lambda a, b: [b, a]), "over": (2, lambda a, b: [a, b, a]), "rot": (3, lambda a, b, c: [b, c, a]),
    "nip": (2, lambda a, b: [b]), "tuck": (2, lambda a, b: [b, a, b]), "+": (2, lambda a, b: [a + b]), "-": (2, lambda a, b: [a - b]), "*": (2, lambda a, b: [a * b]),
    "/": (2, lambda a, b: [a // b]), "mod": (2, lambda a, b: [a % b]), "/mod": (2, lambda a, b: [a % b, a // b]), "negate": (1, lambda a: [-a]), "1+": (1, lambda a: [a + 1]),
    "1-": (1, lambda a: [a - 1]), "abs": (1, lambda a: [abs(a)]), "min": (2, lambda a, b: [min(a, b)]), "max": (2, lambda a, b: [max(a, b)]), "=": (2, lambda a, b: [-int(a == b)]),
    "<>": (2, lambda a, b: [-int(a != b)]), ">": (2, lambda a, b: [-int(a > b)]), ">=": (2, lambda a, b: [-int(a >= b)]), "<": (2, lambda a, b: [-int(a < b)]),
    "<=": (2, lambda a, b: [-int(a <= b)]), "0=": (1, lambda a: [-int(a == 0)]), "invert": (1, lambda a: [~a]), "and": (2, lambda a, b: [a & b]), "or": (2, lambda a, b: [a | b]),
    "xor": (2, lambda a, b: [a ^ b]), "lshift": (2, lambda a, b: [a << b]), "rshift": (2, lambda a, b: [a >> b]), "false": (0, lambda: [0]), "true": (0, lambda: [-1]),
    ".": (1, lambda a: []), "cr": (0, lambda: []), ".s": (0, lambda: []),
}
SMALL = (0, 1, -1, 2, -3, 7, -8, 21, 100)
LARGE = (5 << 33, -(7 << 34) - 1, (1 << 31) + 3)


def grid(word, n, bits):
    vals = SMALL + (LARGE if bits == 64 else ())
    for c in itertools.product(vals, repeat=n):
        if word in ("/", "mod", "/mod") and c[1] == 0:
            continue
        if word in ("lshift", "rshift") and not (0 <= c[1] < 31 and abs(c[0]) < (1 << 30 if bits == 64 else 256)) or word == "lshift" and n == 2 and c[1] > 20:
            continue
        if word == "*" and sum(abs(x) > 1 << 30 for x in c) > 1:
            continue
        yield c


def bits_of(cls):
    return 64 if "<long" in cls else 32


class V:
    def __init__(self, ck):
        self.ck, self.n, self.unknown = ck, 0, []
        self.bad = {}

    def rule(self, key, ok, fn, line, msg):
        self.n += 1
        if ok or (key, msg) not in self.bad:
            self.ck.ob(ok, "%s:%d" % (fn["path"], line or fn["l"]), "%s: %s" % (short(fn["q"]).split("<")[0], "word '%s'" % key if ok else msg))
        if not ok:
            self.bad[(key, msg)] = 1


def subst(t, pushes):
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ("opnd", "seg") and len(t) == 2 and isinstance(t[1], int) and t[1] < len(pushes):
        return pushes[t[1]]
    return tuple(subst(x, pushes) for x in t)


ROLES = {"variable": "variable_names_", "input": "input_names_", "output": "output_names_", "defined": "dictionary_names_"}


def named(facts, table, idx):
    """the name that the compiler found at this entry"""
    for f, b in facts.items():
        if b and f[0] == "op" and f[1] == "==" and len(f) == 4:
            for x, y in ((f[2], f[3]), (f[3], f[2])):
                if x == ("nameat", table, idx):
                    return y
    return None


def lint(t):
    """linear: ("dictsize", k) + c -> (k, c)"""
    t = deepstrip(t)
    k, c = None, 0
    st = [(t, 1)]
    while st:
        x, g = st.pop()
        if x[0] == "op" and x[1] in ("+", "-") and len(x) == 4:
            st += [(x[2], g), (x[3], g if x[1] == "+" else -g)]
        elif x[0] == "k" and isinstance(x[1], int):
            c += g * x[1]
        elif x[0] == "dictsize" and g == 1 and k is None:
            k = x[1]
        else:
            return None
    return None if k is None else (k, c)


def normal(w, pushes, comp, segs, base):
    """a decompiled token in terms of the source: "word", ("name", role), ("literal",), ("range", a, b)"""
    out = []
    for x in w:
        if isinstance(x, str):
            out.append(x)
            continue
        y = deepstrip(subst(x, pushes))
        if y[0] == "at" and y[1][0] == "fld" and y[1][2].endswith("_names_"):
            nm = named(comp.facts, y[1][2], y[2])
            if nm is None:
                if not any(z[:1] in (("call",), ("ext",), ("expr",)) for z in subterms(y[2])):
                    out.append(("entry of", y[1][2], y[2][0]))
                else:
                    raise Unknown()
            else:
                out.append(nm)
        elif y[0] == "at" and y[1] == fld("strings_"):
            out.append(("string", y[2]))
        elif y[0] == "text":
            out.append({("litvalue",): ("literal",), ("nbits",): ("nbits",)}.get(y[1], ("number", y[1])))
        elif y[0] == "segtext":
            l = lint(y[1])
            if l is None:
                raise Unknown()
            out.append(segs.get(l[0] + l[1], ("segment", l)))
        else:
            raise Unknown()
    return tuple(out)


def segments(s):
    """index in the dictionary -> what was compiled into it, on this path of the compiler"""
    out = {}
    for e in s.events:
        if e[0] == "cell" and e[1] == ("sym", "dictionary"):
            l = lint(e[2])
            if l is not None:
                out[l[0] + l[1]] = e[3]
    return out


FORMATS = {"?": ("bool", 1, "bool"), "b": ("signed char", 1, "int8"), "h": ("short", 2, "int16"), "i": ("int", 4, "int32"), "q": ("long", 8, "int64"), "n": ("long", 8, "intp"),
           "B": ("unsigned char", 1, "uint8"), "H": ("unsigned short", 2, "uint16"), "I": ("unsigned int", 4, "uint32"), "Q": ("unsigned long", 8, "uint64"), "N": ("unsigned long", 8, "uintp"),
           "f": ("float", 4, "float32"), "d": ("double", 8, "float64")}


def scenarios(tabs):
    K = lambda x: ("k", x)
    N = lambda x: ("name", x)
    out = [[K("halt")], [K("pause")], [K("exit")], [K("recurse")], [("literal",)], [N("defined")], [K('s"'), ("textbody",)], [K('."'), ("textbody",)]]
    out += [[N("variable"), K(w)] for w in ("!", "+!", "@")]
    out += [[N("input"), K(w)] for w in ("len", "pos", "end", "seek", "skip")]
    for p in tabs["input_parser_words_"][1] + ["5bit->", "!5bit->", "#5bit->", "#!5bit->"]:
        out += [[N("input"), K(p), K("stack")], [N("input"), K(p), N("output")]]
    out += [[N("output"), K("<-"), K("stack")], [N("output"), K("+<-"), K("stack")]] + [[N("output"), K(w)] for w in ("dup", "len", "rewind")]
    out += [[K(w)] for w in tabs["generic_builtin_words_"][0]]
    return out


def show(toks):
    return " ".join(t[1] if t[0] == "k" else "(%s)" % (t[1] if len(t) > 1 else t[0]) for t in toks)


def expect_words(toks):
    out = []
    for t in toks:
        if t[0] == "k" and "5bit->" in t[1]:
            a = t[1][:-6]
            out.append(((a,) if a else ()) + (("nbits",), "bit->"))
        elif t[0] == "k":
            out.append((t[1],))
        elif t == ("textbody",):
            out.append((("string", None), '"'))
        elif t == ("k", '"'):
            pass
        else:
            out.append((t,))
    return tuple(out)


def parser_word(w):
    rep = w.startswith("#")
    w = w[1:] if rep else w
    big = w.startswith("!")
    return rep, big, (w[1:] if big else w)[:-2]


def big_endian(facts):
    """native byte order of the path: decided by reading a 16-bit number whose first byte is zero"""
    for f, b in facts.items():
        g = deepstrip(f)
        if g[0] == "op" and len(g) == 4 and g[2][0] == "deref" and "short" in g[2][1] and g[3][0] == "k":
            return b if g[1] in ("<", "<=") else not b
    return None


def simple(v, prog, tabs, cls):
    bits = bits_of(cls)
    codes = {}
    for toks in scenarios(tabs):
        key = show(toks)
        try:
            fn, res, m = compile_of(prog, tabs, cls, toks)
        except (Unknown, AnalysisBroken, KeyError, IndexError, TypeError):
            v.unknown.append("compiling " + key)
            continue
        silent = [r for r in res if not r[0]]
        res = [r for r in res if r[0]]
        if not res:
            if m.throws and not silent:
                v.rule(key, False, fn, fn["l"], "'%s' does not compile to any instruction" % key)
            else:
                v.unknown.append("compiling " + key)
            continue
        if toks[0] == ("name", "input") and len(toks) == 3:
            writable(v, key, fn, toks, res)
        for pushes, s, line in {repr(r[0]): r for r in res}.values():
            slots = [p if p[0] == "k" else ("seg",) if p[0] == "at" and p[1] == fld("dictionary_bytecodes_") else ("x",) for p in pushes]
            if slots[0] == ("x",):
                v.unknown.append("instruction of " + key)
                continue
            consumed = s.env.get(m.cursor)
            if consumed is not None:
                c = deepstrip(consumed)
                n = 0 if c == ("sym", "start") else c[3][1] if c[0] == "op" and c[1] == "+" and c[2] == ("sym", "start") and c[3][0] == "k" else None
                if n:
                    v.rule(key, n == len(toks), fn, line, "after '%s' compilation goes on at token %d instead of %d" % (key, n, len(toks)))
            ident = tuple(x if x[0] == "k" else (x[0],) for x in slots)
            if toks != [("k", "recurse")]:
                v.rule(key, ident not in codes or codes[ident] == key, fn, line, "'%s' compiles to the same instruction as '%s'" % (key, codes.get(ident)))
                codes[ident] = key
            # decompiled
            want = expect_words(toks) if toks != [("k", "recurse")] else ((("name", "defined"),),)
            f2, texts, _ = textof(prog, cls, slots)
            good = 0
            for words, s2 in texts:
                if len(words) > 2 and words[0] == ("(anonymous",):
                    continue
                try:
                    if slots[0] == ("seg",):
                        # the entry whose segment is this one
                        got = None
                        for w in words:
                            for x in w:
                                x = deepstrip(x) if not isinstance(x, str) else x
                                if len(x) == 3 and x[0] == "at" and x[1] == fld("dictionary_names_"):
                                    cond = [f for f, b in s2.facts.items() if b and deepstrip(f) in (("op", "==", ("at", fld("dictionary_bytecodes_"), x[2]), ("seg", 0)), ("op", "==", ("seg", 0), ("at", fld("dictionary_bytecodes_"), x[2])))]
                                    src = deepstrip(pushes[0])
                                    nm = named(s.facts, "dictionary_names_", src[2])
                                    got = ((nm,),) if cond else ((("entry of another segment",),),)
                        if got is None:
                            raise Unknown()
                    else:
                        got = tuple(normal(w, pushes, s, {}, None) for w in words)
                except Unknown:
                    v.unknown.append("decompiling " + key)
                    continue
                if toks[0][0] == "k" and toks[0][1] in ('s"', '."'):
                    # the body is the string that was stored by the compiler
                    idx = pushes[1] if len(pushes) > 1 else None
                    same = ("string", deepstrip(idx))
                    got = tuple(tuple(("string", None) if x == same else x for x in w) for w in got)
                good += 1
                w2 = tuple(w for w in got)
                v.rule(key, w2 == want, f2, f2["l"], "'%s' is decompiled as '%s'" % (key, " ".join("".join(y if isinstance(y, str) else "(%s)" % (y[1] if len(y) > 1 else y[0],) for y in w) for w in got)))
            # width
            f3, ws = widthof(prog, cls, slots)
            ws = {w for w in ws if w[0] == "k"}
            v.rule(key, ws == {("k", len(slots))}, f3, f3["l"], "'%s' takes %d slots but its width is given as %s" % (key, len(slots), sorted(w[1] for w in ws)))
            # executed
            f4, paths = effect(prog, cls, slots, 0)
            execute(v, f4, key, toks, slots, paths, bits, cls)
    return codes


def writable(v, key, fn, toks, res):
    """many items of the other byte order are swapped in place: then, and only by then, the input has to be writable"""
    rep, big, code = parser_word(toks[1][1])
    for pushes, s, line in res:
        native = big_endian(s.facts)
        cells = {deepstrip(k[2]): x for k, x in s.heap.items() if k[0] == "cell" and k[1] == fld("input_must_be_writable_")}
        idx = deepstrip(pushes[1]) if len(pushes) > 1 else None
        for k, x in cells.items():
            old = ("at", fld("input_must_be_writable_"), k)
            y = deepstrip(x)
            if y[0] == "k":
                v.rule(key, bool(y[1]), fn, line, "'%s' takes back that its input has to be writable" % key)
        if toks[2] != ("k", "stack") and code in FORMATS and FORMATS[code][1] > 1 and rep and native is not None and big != native and idx is not None and idx[0] in ("idx", "k"):
            got = cells.get(idx)
            v.rule(key, got is not None and (got[0] != "k" or bool(got[1])), fn, line, "'%s' swaps bytes in place but does not ask for a writable input" % key)


def opnd(k):
    return ("opnd", k)


def execute(v, fn, key, toks, slots, paths, bits, cls):
    words = [t[1] if t[0] == "k" else None for t in toks]
    role = toks[0][1] if toks[0][0] == "name" else toks[0][0]
    n = len(slots)

    def R(ok, msg, line=None):
        v.rule(key, ok, fn, line, "'%s' %s" % (key, msg))

    if words[0] in ("halt", "pause", "exit"):
        if words[0] == "exit":
            for p in paths:
                r = deepstrip(p["rec"])
                if r[0] == "op" or r[0] == "k":
                    R(r == ("op", "-", ("k", R0), opnd(1)), "leaves a number of levels other than the one it was compiled with")
        return
    if not paths:
        v.unknown.append("no way through " + key)
        return
    if any(p["opaque"] for p in paths) or len(toks) == 1 and any(e[1] not in ("printf", "bytecodes_pointer_push", "bytecodes_pointer_pop", "abs", "min", "max", "labs", "llabs") for p in paths for e in p["events"]):
        v.unknown.append("calls in " + key)
        return
    for p in paths:
        w = p["where"]
        if role == "defined" or words[0] == "recurse":
            pass
        if w[0] == "k":
            R(w[1] == n, "takes %d slots but execution goes on after %d" % (n, w[1]))
        else:
            v.unknown.append("slots of " + key)
    depth = lambda p: p["depth"][1] - D0 if p["depth"][0] == "k" else None

    def stackcells(p):
        return {c[1][1]: t for (b, c), t in [((k[0], k), t) for k, t in p["cells"].items()] if b == STACK and c[1][0] == "k"}

    if words[0] in ARITH and len(toks) == 1:
        need, f = ARITH[words[0]]
        stop = False
        for args in grid(words[0], need, bits):
            if stop:
                break
            env = {("at", STACK, ("k", D0 - need + i)): a for i, a in enumerate(args)}
            base = [("at", STACK, ("k", D0 - 4 + i)) for i in range(4)]
            for i, b in enumerate(base):
                env.setdefault(b, 1000 + i)
            want = [env[b] for b in base][:4 - need] + f(*args)
            for p in paths:
                try:
                    if any(bool(value(c, env)) != b for c, b in p["facts"].items() if not any(isinstance(y, tuple) and y[:1] == ("idx",) for y in subterms(c))):
                        continue
                    d = depth(p)
                    if d is None:
                        raise Unknown()
                    cells = stackcells(p)
                    got = []
                    for i in range(D0 - 4, D0 + d):
                        t = cells.get(i, ("at", STACK, ("k", i)))
                        got.append(value(t, env))
                except Unknown:
                    v.unknown.append("value of " + key)
                    stop = True
                    break
                if got != want:
                    R(False, "of %s leaves %s instead of %s" % (list(args), got[4 - need:], want[4 - need:]))
                    stop = True
                    break
        v.n += 1
        if words[0] == ".":
            for p in paths:
                pr = [e for e in p["events"] if e[1] == "printf" and len(e[3]) == 2]
                R(not pr or stripconv(pr[0][3][1]) == ("at", STACK, ("k", D0 - 1)), "prints something other than the top of the stack")
        return
    if words[0] in ("i", "j", "k") and len(toks) == 1:
        for p in paths:
            t = stackcells(p).get(D0)
            if depth(p) is None or t is None:
                v.unknown.append("value of " + key)
                continue
            want = ("at", fld("do_i_"), ("k", L0 - 1 - "ijk".index(words[0])))
            R(depth(p) == 1 and deepstrip(t) == want, "gives the counter of another loop")
            R(not narrow(t, bits), "is cut to %s bits" % narrow(t, bits))
        return
    if role == "literal":
        for p in paths:
            t = stackcells(p).get(D0)
            if t is not None and depth(p) is not None:
                R(depth(p) == 1 and deepstrip(t) == opnd(1), "does not push its own value")
        return
    if role == "defined" or words[0] == "recurse":
        for p in paths:
            c = [deepstrip(e[3][0]) for e in p["events"] if e[1] == "bytecodes_pointer_push" and e[3]]
            if c and c[0][0] == "op":
                v.bases.append(("run", c[0]))
                R(c[0][2] == ("seg", 0), "calls another segment")
            elif not c:
                R(False, "does not enter its segment")
        return
    var = ("at", fld("variables_"), opnd(1))
    if role == "variable":
        for p in paths:
            cells = {(k[0], deepstrip(k[1])): deepstrip(t) for k, t in p["cells"].items()}
            sc = stackcells(p)
            top = ("at", STACK, ("k", D0 - 1))
            if words[1] == "@":
                ok = depth(p) == 1 and deepstrip(sc.get(D0, ("none",))) == var and not any(k[0] == fld("variables_") for k in cells)
            else:
                t = cells.get((fld("variables_"), opnd(1)), ("none",))
                raw = [x for k, x in p["cells"].items() if k[0] == fld("variables_")]
                if t[0] == "none" and not any(k[0] == fld("variables_") for k in cells) and depth(p) is None:
                    v.unknown.append("variable in " + key)
                    continue
                ok = depth(p) == -1 and (t == top if words[1] == "!" else t in (("op", "+", var, top), ("op", "+", top, var)))
                if raw:
                    R(not narrow(raw[0], bits), "is cut to %s bits" % narrow(raw[0], bits))
            R(ok, "does not act on its variable as the word says")
        return
    inp, outp = ("at", fld("current_inputs_"), opnd(1)), ("at", fld("current_outputs_"), opnd(1))
    top = ("at", STACK, ("k", D0 - 1))
    if role == "input" and len(toks) == 2:
        for p in paths:
            ev = [(e[1], deepstrip(e[2]) if e[2] else None, [deepstrip(a) for a in e[3]], e[4]) for e in p["events"] if e[2] is not None and e[2] != THIS]
            w = words[1]
            R([e[0] for e in ev] == [w] and ev[0][1] == inp, "does not ask its own input for '%s'" % w)
            if [e[0] for e in ev] != [w]:
                continue
            if w in ("seek", "skip"):
                R(depth(p) == -1 and ev[0][2][:1] == [top], "does not take its position from the stack")
            elif w in ("len", "pos"):
                t = stackcells(p).get(D0)
                if t is not None:
                    R(depth(p) == 1 and deepstrip(t)[:2] == ("ext", w), "does not push the result")
                    R(not narrow(t, bits), "is cut to %s bits" % narrow(t, bits))
            else:
                t = stackcells(p).get(D0)
                f = [(c, b) for c, b in p["facts"].items() if has_ext(c, "end")]
                if t is not None:
                    got = None
                    try:
                        env = {}
                        for x in subterms(t):
                            if x[:1] == ("ext",):
                                env[x] = 1
                        if f:
                            c, b = f[0]
                            q = b if c[0] == "ext" else None
                            got = (q, value(t, env)) if q is not None else None
                        else:
                            got = (True, value(t, env))
                    except Unknown:
                        pass
                    if got:
                        R(depth(p) == 1 and got[1] == (-1 if got[0] else 0), "gives %d at%s the end" % (got[1], "" if got[0] else " a point before"))
        return
    if role == "output":
        w = words[1]
        suf = "int%d" % bits
        name = {"<-": "write_one_" + suf, "+<-": "write_add_" + suf}.get(w, w)
        for p in paths:
            ev = [(e[1], deepstrip(e[2]), [deepstrip(a) for a in e[3]], e[4]) for e in p["events"] if e[2] is not None and e[2] != THIS]
            R([e[0] for e in ev] == [name] and ev[0][1] == outp, "does not do '%s' on its own output" % name)
            if [e[0] for e in ev] != [name]:
                continue
            if w == "len":
                t = stackcells(p).get(D0)
                if t is not None:
                    R(depth(p) == 1 and deepstrip(t)[:2] == ("ext", w), "does not push the result")
                    R(not narrow(t, bits), "is cut to %s bits" % narrow(t, bits))
            else:
                R(depth(p) == -1 and ev[0][2][:1] == [top], "does not take its argument from the stack")
                if w == "<-" and len(ev[0][2]) > 1:
                    R(ev[0][2][1] == FALSE or ev[0][2][1] == ("k", 0), "swaps the bytes of a value from the stack")
        return
    if role == "input":
        reads(v, R, key, toks, slots, paths, bits, depth, stackcells)


def subterms(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from subterms(x)


def has_ext(t, name):
    return any(x[:2] == ("ext", name) for x in subterms(t))


def narrow(t, bits):
    """bits that the value is cut to on the way, when fewer than the stack has"""
    while t[0] == "conv":
        if t[1][1] < bits and t[1][1] > 1 and t[2][0] not in ("deref",):
            return t[1][1]
        t = t[2]
        if t[0] == "deref":
            return None
    return None


def reads(v, R, key, toks, slots, paths, bits, depth, stackcells):
    word = toks[1][1]
    rep, big, code = parser_word(word)
    direct = toks[2] != ("k", "stack")
    top = ("at", STACK, ("k", D0 - 1))
    inp = ("at", fld("current_inputs_"), opnd(1))
    nbit = code == "5bit"
    outp = ("at", fld("current_outputs_"), opnd(3 if nbit else 2))
    count = top if rep else ("k", 1)
    for p in paths:
        if any(b and deepstrip(f)[0] == "op" and deepstrip(f)[1] == "==" and deepstrip(f)[2:] == (top, ("k", 0)) for f, b in p["facts"].items()):
            continue
        ev = [e for e in p["events"] if e[2] is not None and e[2] != THIS]
        rd = [e for e in ev if e[1] == "read"]
        wr = [e for e in ev if e[1].startswith("write")]
        oth = [e[1] for e in ev if e[1] != "read" and not e[1].startswith("write")]
        none = any((deepstrip(f)[0] == "op" and deepstrip(f)[1] == "<" and deepstrip(f)[2][0] in ("idx",) and not b) for f, b in p["facts"].items()) and not rd
        if none:
            continue                                  # the way without any item
        for e in rd:
            R(deepstrip(e[2]) == inp, "reads from another input", e[4])
        if not rd:
            if code in FORMATS:
                R(False, "does not read from its input")
            continue
        native = big_endian(p["facts"])
        swap = None if native is None else big != native
        d = depth(p)
        if d is not None and not (rep and not direct) and not nbit:
            R(d == (-1 if rep else 0) + (0 if direct else 1), "changes the depth of the stack by %d" % d)
        if direct:
            for e in wr:
                R(deepstrip(e[2]) == outp, "writes to another output", e[4])
            R((bool(wr) or nbit) and not stackcells(p).get(D0), "does not write to its output")
        else:
            R(not wr, "writes to an output")
        if code in FORMATS:
            ctype, size, suf = FORMATS[code]
            a = deepstrip(rd[0][3][0])
            okn = a in (("op", "*", count, ("k", size)), ("op", "*", ("k", size), count)) or a == ("k", size) and count == ("k", 1) or size == 1 and a == count
            if a[0] in ("op", "k", "at"):
                R(okn, "does not read %d bytes for each item" % size, rd[0][4])
            if direct and wr:
                nm = wr[0][1].split("_", 1)[1]
                one = nm.startswith("one_")
                R(nm == ("one_" if one else "") + suf, "writes its items as %s" % nm, wr[0][4])
                args = [deepstrip(x) for x in wr[0][3]]
                item = args[0] if one else args[1]
                t = item[1] if item[0] in ("deref", "pcast") else None
                if t is not None:
                    R(same_type(t, ctype), "reads its items as %s instead of %s" % (t, ctype), wr[0][4])
                if not one:
                    R(args[0] == count, "writes another number of items than it reads", wr[0][4])
                    if item[0] in ("deref",):
                        R(False, "writes from a single item", wr[0][4])
                elif rep:
                    R(any(b and deepstrip(f) in (("op", "==", top, ("k", 1)), ("op", "==", ("k", 1), top)) for f, b in p["facts"].items()), "writes a single item", wr[0][4])
                fl = args[-1]
                if fl[0] == "k" and swap is not None and size > 1:
                    R(bool(fl[1]) == swap, "%s the bytes on a %s-endian machine" % ("swaps" if fl[1] else "does not swap", "big" if native else "little"), wr[0][4])
            elif not direct:
                t = stackcells(p).get(D0 - (1 if rep else 0))
                sw = [e for e in p["events"] if e[1].startswith("byteswap")]
                if t is not None:
                    x = deepstrip(t)
                    if x[0] == "deref":
                        R(same_type(x[1], ctype), "reads its items as %s instead of %s" % (x[1], ctype))
                        c = t
                        cut = None
                        while c[0] == "conv":
                            if c[1][1] < min(bits, size * 8) and c[1][1] > 1:
                                cut = c[1][1]
                            c = c[2]
                        R(cut is None, "cuts its items to %s bits" % cut)
                if swap is not None and size > 1 and t is not None:
                    R(bool(sw) == swap, "%s the bytes on a %s-endian machine" % ("swaps" if sw else "does not swap", "big" if native else "little"))
                    for e in sw:
                        R(e[1] == "byteswap%d" % (size * 8), "swaps %s bits of items of %d" % (e[1][8:], size * 8), e[4])
        elif direct and wr:
            nm = wr[0][1]
            R(nm in {"varint": ("write_one_uint64", "write_one_int64"), "zigzag": ("write_one_int64",)}.get(code, ("write_one_uint64", "write_one_int64")) or not nm.startswith("write_one_"), "writes its items as " + nm, wr[0][4])
            a = [deepstrip(x) for x in wr[0][3]]
            R(not narrow(wr[0][3][0], 64), "cuts its items to %s bits" % narrow(wr[0][3][0], 64), wr[0][4])
            if a[-1][0] == "k":
                R(not a[-1][1], "swaps the bytes of a number already decoded", wr[0][4])


def same_type(a, b):
    f = lambda t: t.replace("const ", "").replace("long long", "long").replace("int8_t", "signed char").strip()
    return f(a) == f(b)


# ---------------------------------------------------------------- structured forms
FORMS = {   # word -> remembered -> decompiled
    "if": {0: ("if", "A", "then"), 1: ("if", "A", "else", "B", "then")},
    "do": {0: ("do", "A", "loop"), 1: ("do", "A", "+loop")},
    "begin": {0: ("begin", "A", "until"), "flag": ("begin", "A", "again"), "mid": ("begin", "A", "while", "B", "repeat")},
}
# closing words: token -> change of the nesting; "mark": remembered at the outermost level only
SCAN = {"if": {"if": 1, "then": -1, "else": 0}, "do": {"do": 1, "loop": -1, "+loop": -1}, "begin": {"begin": 1, "until": -1, "again": -1, "while": -1}}
MARK = {"if": {"else"}, "do": {"+loop"}, "begin": {"again", "while"}}


def structured(v, prog, tabs, cls, codes):
    start1 = ("op", "+", ("sym", "start"), ("k", 1))
    insts = {}
    for word in ("if", "do", "begin"):
        try:
            fn, res, m = compile_of(prog, tabs, cls, [("k", word)], True)
        except (Unknown, AnalysisBroken, KeyError, IndexError, TypeError):
            v.unknown.append("compiling " + word)
            continue
        # the search for the closing word
        for line, steps, init in m.scans:
            nest = [k for k, x in init.items() if x == ("k", 1)]
            if len(nest) != 1:
                v.unknown.append("search at %s" % line)
                continue
            nest = nest[0]
            inner = init.get(next((k for k in init if init[k] not in (("k", 1), ("k", 0), ("k", -1), ("k", False)) and init[k] != ("sym", "start")), None)) is not None
            table = {"while": 1, "repeat": -1} if inner and word == "begin" else SCAN[word]
            for toks, ch, facts, o in steps:
                tk = [t for t in toks if t in table]
                if inner:
                    tk = [t for t in toks if t == "repeat"] or ([t for t in toks if t == "while"] if nest in ch else [])
                elif len(tk) != 1:
                    tk = [t for t in tk]
                if len(tk) > 1:
                    continue
                t = tk[0] if tk else None
                dl = 0
                if nest in ch:
                    x = deepstrip(ch[nest])
                    if x[0] == "op" and x[1] in "+-" and x[2][:2] == ("in", nest) and x[3][0] == "k":
                        dl = x[3][1] if x[1] == "+" else -x[3][1]
                    else:
                        continue
                v.rule(word, dl == table.get(t, 0), fn, line, "the search for the end of '%s' counts %s as %+d" % (word, "'%s'" % t if t else "an ordinary word", dl))
                lvl = [b for f, b in facts.items() if deepstrip(f)[0] == "op" and deepstrip(f)[1] == "==" and deepstrip(f)[2][:2] == ("in", nest) and deepstrip(f)[3] == ("k", 1)]
                marks = [k for k in ch if k != nest and not (deepstrip(ch[k])[0] == "op" and deepstrip(ch[k])[2][:2] == ("in", k)) and ch[k][0] != "out"]
                if t is not None and not inner:
                    if t in MARK[word]:
                        if lvl:
                            v.rule(word, bool(marks) == lvl[0], fn, line, "'%s' is taken for the one of this '%s' at %s level" % (t, word, "an inner" if marks else "no"))
                        else:
                            v.rule(word, not marks, fn, line, "'%s' of an inner construct is taken for the one of this '%s'" % (t, word))
                    else:
                        v.rule(word, not marks, fn, line, "'%s' is remembered as if it belonged to the other form of '%s'" % (t, word))
        for pushes, s, line in res:
            rem = [e[1] for e in s.events if e[0] == "remember"]
            rem = rem[-1] if rem else ()
            segs = segments(s)
            if not segs or not pushes:
                v.unknown.append("segments of " + word)
                continue
            mid = any(x[0] == "found" for r in segs.values() if r[0] == "range" for x in r[1:3])
            if not rem:
                want = FORMS[word][0]
            elif word == "begin":
                want = FORMS[word]["mid" if mid else "flag"]
            else:
                want = FORMS[word][1]
            key = " ".join("..." if w in "AB" else w for w in want)
            slots = [p if p[0] == "k" else ("seg",) if lint(p) else ("x",) for p in pushes]
            out, found = [x for r in segs.values() if r[0] == "range" for x in r[1:3] if x[0] == "out"], [x for r in segs.values() if r[0] == "range" for x in r[1:3] if x[0] == "found"]
            # segments
            rng = {}
            for k, r in segs.items():
                if r[0] != "range":
                    continue
                a, b = r[1], r[2]
                if "B" in want:
                    part = "A" if a == start1 and b[0] == "found" else "B" if a[0] == "op" and a[1] == "+" and a[2][0] == "found" and a[3] == ("k", 1) and b[0] == "out" else "?"
                else:
                    part = "A" if a == start1 and b[0] == "out" else "?"
                rng[k] = part
                ex, do = r[3], r[4]
                v.rule(key, part != "?", fn, line, "a part of '%s' is compiled from other tokens than the ones between its words" % key)
                if ex[0] in ("op", "sym"):
                    v.rule(key, ex == ("op", "+", ("sym", "exitdepth"), ("k", 1)), fn, line, "a part of '%s' does not count as one level for 'exit'" % key)
                if do[0] in ("op", "sym"):
                    v.rule(key, do == (("op", "+", ("sym", "dodepth"), ("k", 1)) if word == "do" else ("sym", "dodepth")), fn, line, "a part of '%s' is compiled at the wrong depth of loops" % key)
            c = deepstrip(s.env.get(m.cursor, ("none",)))
            if c[0] == "op" and c[1] == "+" and c[2][0] == "out" and c[3][0] == "k":
                v.rule(key, c[3][1] == 1, fn, line, "after '%s' compilation goes on at the wrong token" % key)
            ident = tuple(x if x[0] == "k" else (x[0],) for x in slots)
            for other, k2 in {**codes, **insts}.items():
                a = [x for x in other if x[0] == "k"]
                b = [x for x in ident if x[0] == "k"]
                v.rule(key, not (a and b and a[0] == b[0]) or k2 == key, fn, line, "'%s' compiles to the same instruction as '%s'" % (key, k2))
            insts[ident] = key
            segno = {i: lint(p) for i, p in enumerate(pushes) if lint(p)}
            partof = {i: rng.get(l[0]) for i, l in segno.items()}
            for i, l in segno.items():
                v.bases.append(("compile", l[1]))
            # decompiled
            f2, texts, _ = textof(prog, cls, slots)
            for words, s2 in texts:
                got = []
                for w in words:
                    y = deepstrip(w[0]) if not isinstance(w[0], str) else None
                    if y is not None and y[0] == "segtext" and y[1][0] == "op" and y[1][2][0] == "seg":
                        got.append(partof.get(y[1][2][1], "?"))
                        if y[1][3][0] == "k":
                            v.bases.append(("decompile", y[1][3][1]))
                    elif y is not None:
                        got.append("?unknown")
                    else:
                        got.append("".join(x if isinstance(x, str) else "?" for x in w))
                if "?unknown" in got:
                    v.unknown.append("decompiling " + key)
                    continue
                v.rule(key, tuple(got) == want, f2, f2["l"], "'%s' is decompiled as '%s'" % (" ".join(want), " ".join(got)))
            f3, ws = widthof(prog, cls, slots)
            ws = {w for w in ws if w[0] == "k"}
            v.rule(key, ws == {("k", len(slots))}, f3, f3["l"], "'%s' takes %d slots but its width is given as %s" % (key, len(slots), sorted(w[1] for w in ws)))
            control(v, prog, cls, word, want, key, slots, partof)


def control(v, prog, cls, word, want, key, slots, partof):
    """what the interpreter does next"""
    at = [i for i, x in enumerate(slots) if x[0] == "k"]
    if len(at) != 1:
        return
    start = at[0]
    fn, paths = effect(prog, cls, slots, start)
    top = ("at", STACK, ("k", D0 - 1))
    n = len(slots)

    def R(ok, msg):
        v.rule(key, ok, fn, fn["l"], "'%s' %s" % (key, msg))
    if not paths:
        v.unknown.append("no way through " + key)
    for p in paths:
        zero = [b if deepstrip(f)[1] == "==" else not b for f, b in p["facts"].items() if deepstrip(f)[0] == "op" and deepstrip(f)[1] in ("==", "!=") and deepstrip(f)[2:] == (top, ("k", 0))]
        zero = zero[0] if zero else None
        # what is run next: a segment pushed now, or the instruction at `where`, and then where execution goes on
        push = [deepstrip(e[3][0]) for e in p["events"] if e[1] == "bytecodes_pointer_push" and e[3]]
        d = p["depth"][1] - D0 if p["depth"][0] == "k" else None
        w = p["where"][1] if p["where"][0] == "k" else None
        if w is None or d is None:
            v.unknown.append("control of " + key)
            continue
        seq = []
        for x in push[-1:]:
            if x[0] == "op" and x[1] == "-" and x[2][0] == "seg":
                seq.append(partof.get(x[2][1], "?"))
                if x[3][0] == "k":
                    v.bases.append(("run", x[3][1]))
            else:
                seq.append("?")
        if 0 <= w < n and slots[w][0] == "seg":
            seq.append(partof.get(w))
            w2 = w + 1
            while w2 < n and slots[w2][0] == "seg":
                seq.append(partof.get(w2))
                w2 += 1
            nxt = "end" if w2 >= n else "again" if w2 == start else w2
        else:
            nxt = "end" if w >= n else "again" if w == start else w
        got = (tuple(seq), nxt)
        if word == "do":
            cells = {(k[0], deepstrip(k[1])): deepstrip(t) for k, t in p["cells"].items()}
            lim = ("at", STACK, ("k", D0 - 2))
            R(d == -2 and p["loops"] == ("k", L0 + 1), "does not take its limit and start from the stack")
            R(cells.get((fld("do_i_"), ("k", L0))) == top and cells.get((fld("do_stop_"), ("k", L0))) == lim, "takes limit and start in the wrong order")
            R(got == (("A",), "end"), "does not run its body next")
            mk = cells.get((fld("do_recursion_depth_"), ("k", L0)))
            if mk is not None and mk[0] == "k":
                R((mk[1] < 0) == ("+loop" in want), "is marked as the other kind of loop")
                loop_step(v, prog, cls, key, R, mk, "+loop" in want)
            continue
        if want[-1] == "again":
            R(got == (("A",), "again") and d == 0, "does not start over")
            continue
        if zero is None:
            R(d == -1, "does not take its condition from the stack")
            R(False, "does not depend on its condition")
            continue
        R(d == -1, "does not take its condition from the stack")
        exp = {"if": {True: ((), "end"), False: (("A",), "end")}, "else": {True: (("B",), "end"), False: (("A",), "end")},
               "until": {True: (("A",), "again"), False: ((), "end")}, "repeat": {True: ((), "end"), False: (("B", "A"), "again")}}
        e = exp["until" if want[-1] == "until" else "repeat" if want[-1] == "repeat" else "else" if "else" in want else "if"][zero]
        R(got == e, "%s when its condition is %s" % ("goes on with %s%s" % ("".join(x + " " for x in seq if x), {"end": "what follows", "again": "its condition again"}.get(nxt, "slot %s" % nxt)), "false" if zero else "true"))


def loop_step(v, prog, cls, key, R, mark, step):
    """one round of the loop: the counter against its limit before, and the counter after it"""
    class H(RunH):
        def call(self, m, node, fr, q, obj, args, st):
            if short(q).split("<")[0] == "do_abs_recursion_depth":
                return None
            return super().call(m, node, fr, q, obj, args, st)

    fn = fn_of(prog, cls, "internal_run")
    i, stop = ("at", fld("do_i_"), ("k", L0 - 1)), ("at", fld("do_stop_"), ("k", L0 - 1))
    for where in (0, 1):
        m = FM(prog, H([("seg",)]), maxpaths=3000)
        st = St()
        st.heap[("cell", fld("current_where_"), ("k", R0 - 1))] = ("k", where)
        st.heap[("cell", fld("do_recursion_depth_"), ("k", L0 - 1))] = mark
        n = 0
        for s, _ in m.run(fn, THIS, [TRUE, ("k", 0)], st):
            if s.heap.get((THIS, "current_error_"), ("k", 0)) != ("k", 0):
                continue
            push = [e for e in s.events if e[0] == "do" and e[1] == "bytecodes_pointer_push"]
            cell = deepstrip(s.heap.get(("cell", fld("do_i_"), ("k", L0 - 1)), ("none",)))
            if where == 0:
                done = [b if deepstrip(f)[1] == ">=" else not b for f, b in s.facts.items() if deepstrip(f) in (("op", ">=", i, stop), ("op", "<", i, stop))]
                if done:
                    n += 1
                    loops = s.heap.get((THIS, "do_current_depth_"), ("k", L0))
                    if done[0]:
                        R(not push and loops == ("k", L0 - 1), "does not end when its counter reaches its limit")
                    else:
                        w = s.heap.get(("cell", fld("current_where_"), ("k", R0 - 1)))
                        R(bool(push) and loops == ("k", L0) and w in (("k", 0), None), "does not run its body once more when its counter is below its limit")
            elif cell[0] != "none":
                n += 1
                top = ("at", STACK, ("k", D0 - 1))
                inc = top if step else ("k", 1)
                R(cell in (("op", "+", i, inc), ("op", "+", inc, i)), "does not advance its counter by %s" % ("the top of the stack" if step else "one"))
                R(s.heap.get((THIS, "stack_depth_"), ("k", D0)) == ("k", D0 - (1 if step else 0)), "does not leave the stack as it should at the end of a round")
        if not n:
            v.unknown.append("round of " + key)


# ---------------------------------------------------------------- names, errors, outputs
def reserved(v, prog, tabs, cls):
    """words that mean something to the compiler cannot be declared as names; each name has one role"""
    fn = fn_of(prog, cls, "is_reserved")
    words = set()
    used = set()
    for x in walk(fn["body"]):
        if x["k"] == "ref" and x.get("n") in tabs:
            used.add(x["n"])
            words |= set(tabs[x["n"]][1])
    strs_ = {x["v"] for x in walk(fn["body"]) if x["k"] == "str"}
    words |= strs_
    pf = fn_of(prog, cls, "parse")
    if used:
        for t in ("generic_builtin_words_", "input_parser_words_", "output_dtype_words_"):
            if t in tabs:
                v.rule(t, not (set(tabs[t][1]) - words), fn, fn["l"], "these words of %s can be declared as names: %s" % (t, " ".join(sorted(set(tabs[t][1]) - words))))
        # words that the compiler tells apart
        for x in walk(pf["body"]):
            if x["k"] == "call" and x.get("op") in ("==", "!=") or x["k"] == "bin" and x["op"] in ("==", "!="):
                nodes = ([x["obj"]] if x.get("obj") else []) + x.get("c", [])
                c = [strip(y) for y in nodes]
                for y in c:
                    while y["k"] == "ctor" and y.get("c"):
                        y = strip(y["c"][0])
                    other = [z for z in c if not any(w["k"] == "str" for w in [z] + list(walk(z)))]
                    if y["k"] == "str" and y["v"] not in ("->",) and other and any(w.get("n") in ("word", "tokenized") for w in [other[0]] + list(walk(other[0]))):
                        v.rule(y["v"], y["v"] in words, pf, x.get("l"), "the word '%s' has a meaning but can be declared as a name" % y["v"])
    else:
        v.unknown.append("reserved words")
    # declarations refuse names that are taken
    for decl, tail in (("variable", []), ("input", []), ("output", [("k", "int32")]), (":", [("k", ";")])):
        for nm in (("name", "variable"), ("name", "input"), ("name", "output"), ("name", "defined"), ("literal",), ("k", "dup"), ("k", "if")):
            try:
                f, res, m = compile_of(prog, tabs, cls, [("k", decl), nm] + tail)
            except (Unknown, AnalysisBroken, KeyError, IndexError, TypeError):
                v.unknown.append("declaration %s" % decl)
                continue
            adds = [s for _, s, _ in res if any(e[0] == "push" and e[1][0] == "fld" and e[1][2].endswith("_names_") for e in s.events)]
            v.rule(decl, not adds, f, f["l"], "'%s' accepts a name that is already %s" % (decl, {"literal": "a number", "k": "a word of the language"}.get(nm[0], nm[-1])))
        f, res, m = compile_of(prog, tabs, cls, [("k", decl), ("name", "fresh")] + tail)
        want = {"variable": "variable_names_", "input": "input_names_", "output": "output_names_", ":": "dictionary_names_"}[decl]
        got = [{e[1][2] for e in s.events if e[0] == "push" and e[1][0] == "fld" and e[1][2].endswith("_names_")} for _, s, _ in res]
        got = [g for g in got if g]
        v.rule(decl, bool(got) and all(g == {want} for g in got), f, f["l"], "'%s' does not add its name to %s" % (decl, want))


def outputs(v, prog, tabs, cls):
    types = {"bool": "bool", "int8": "signed char", "int16": "short", "int32": "int", "int64": "long", "uint8": "unsigned char", "uint16": "unsigned short", "uint32": "unsigned int", "uint64": "unsigned long",
             "float32": "float", "float64": "double"}
    n = 0
    names = {}
    for q, e in prog.enums.items():
        if q.endswith("util::dtype"):
            names = {nn: vv for nn, vv in e["v"]}
    for w, (code, line) in tabs["output_dtype_words_"][0].items():
        g = tabs["output_dtype_words_"][2]
        want = {"bool": "boolean"}.get(w, w)
        if want in names:
            v.rule(w, names[want] == code, {"path": g["path"], "l": g["l"], "q": "output_dtype_words_"}, line, "the word '%s' declares an output of another type" % w)
    inv = {c: w for w, (c, _) in tabs["output_dtype_words_"][0].items()}
    for f in prog.funcs.values():
        if f.get("cls") != cls or not f.get("body"):
            continue
        for x in walk(f["body"]):
            if x["k"] != "switch":
                continue
            pend = []
            body = x["body"]
            for c in body.get("c", []):
                while c is not None and c["k"] == "case":
                    pend.append(c.get("ival"))
                    c = c.get("body")
                if c is None or c["k"] == "default":
                    continue
                made = set()
                for y in walk({"k": "block", "c": [c]}):
                    for t in [(y.get("f") or {}).get("ta") or ""]:
                        if "ForthOutputBufferOf<" in str(t):
                            made.add(str(t).split("ForthOutputBufferOf<")[1].split(",")[0].split(">")[0].strip())
                for t in made:
                    for i in pend:
                        if i in inv:
                            n += 1
                            v.rule(inv[i], same_type(t, types[inv[i]]), f, c.get("l"), "an output declared as '%s' holds items of type %s" % (inv[i], t))
                if any(z["k"] in ("break", "return") for z in walk({"k": "block", "c": [c]})):
                    pend = []
    return n


WIDTH = {"bool": 1, "signed char": 1, "char": 1, "short": 2, "int": 4, "long": 8, "unsigned char": 1, "unsigned short": 2,
         "unsigned int": 4, "unsigned long": 8, "float": 4, "double": 8}


class BH(Hooks):
    """output buffers: what is swapped, copied and counted"""
    def call(self, m, node, fr, q, obj, args, st):
        n = short(q).split("<")[0]
        if re.match(r"byteswap\d+$", n) and len(args) == 2:
            st.event("swap", int(n[8:]), args[0], args[1])
            return ("void",)
        if n in ("memcpy", "write_copy", "write_one"):
            st.event("copy", n, args)
            return ("void",)
        if n == "maybe_resize":
            st.event("resize", args[0])
            return ("void",)
        return None

    def inline(self, g, name, obj, args):
        return "/forth/ForthOutputBuffer" in g["path"]


def buffers(v, prog):
    """what the output buffers write, for every item type and byte order"""
    THIS_ = ("this",)
    LEN = ("fld", THIS_, "length_")
    n = 0
    for f in list(prog.funcs.values()):
        if not (f.get("cls") or "").startswith("awkward::ForthOutputBufferOf<") or not f.get("body"):
            continue
        out = f["cls"].split("<")[1][:-1]
        name = f["q"].split("::")[-1].split("<")[0]
        if not name.startswith("write_"):
            continue
        tys = [f["u"].types[p["t"]].replace("const ", "").strip() for p in f["ps"]]
        one, many = name.startswith("write_one_"), len(tys) == 3 and tys[1].endswith("*")
        if not (one and len(tys) == 2 or many and tys[2] == "bool"):
            continue
        t = tys[0] if one else tys[1][:-1].strip()
        t = {"ssize_t": "long", "int8_t": "signed char", "uint8_t": "unsigned char", "int16_t": "short", "uint16_t": "unsigned short", "int32_t": "int", "uint32_t": "unsigned int",
             "int64_t": "long", "uint64_t": "unsigned long", "size_t": "unsigned long"}.get(t, t)
        if t not in WIDTH:
            continue
        wd = WIDTH[t]
        src = ("sym", "value") if one else ("sym", "values")
        cnt = ("k", 1) if one else ("sym", "num")
        for bs in (True, False):
            m = Mini(prog, BH(), maxpaths=200)
            try:
                res = m.run(f, THIS_, [src, ("k", bs)] if one else [cnt, src, ("k", bs)])
            except Exception:
                continue
            word = "write of %s" % t
            for st, _ in res:
                pre = post = outsw = copies = 0
                good = True
                adv = None
                for e in st.events:
                    if e[0] == "swap":
                        tgt = deepstrip(e[3])
                        isout = any(x == ("fld", THIS_, "ptr_") for x in subterms(tgt))
                        good = good and e[1] == 8 * wd and deepstrip(e[2]) == cnt
                        if isout:
                            outsw += 1 if copies else 0
                            good = good and copies > 0
                        elif tgt == src:
                            if copies:
                                post += 1
                            else:
                                pre += 1
                        else:
                            good = None
                            break
                    elif e[0] == "copy":
                        copies += 1
                        a = [deepstrip(x) for x in e[2]]
                        if e[1] == "memcpy":
                            okc = a[1] == src and same_poly(a[2], ("op", "*", ("k", wd), cnt)) and a[0] == ("at", ("fld", THIS_, "ptr_"), LEN) and t == out
                        elif e[1] == "write_copy":
                            okc = a[0] == cnt and a[1] == src
                        else:
                            okc = a[0] == src and one
                        good = good and okc
                if good is None or copies == 0:
                    continue
                n += 1
                v.rule(word, good and copies == 1, f, f["l"], "%s into an output of %s swaps, copies or counts other bytes than those of the items" % (name, out))
                want = 1 if bs and wd > 1 else 0
                if wd > 1 or pre + post + outsw:
                    v.rule(word, (pre + outsw) % 2 == want, f, f["l"], "%s into an output of %s %s the bytes of the items" % (name, out, "does not swap" if want else "swaps"))
                if many:
                    v.rule(word, (pre + post) % 2 == 0, f, f["l"], "%s leaves the bytes of the input swapped" % name)
                if any(e[0] == "copy" and e[1] == "memcpy" for e in st.events):
                    L = st.heap.get((THIS_, "length_"))
                    v.rule(word, L is not None and same_poly(deepstrip(L), ("op", "+", LEN, cnt)), f, f["l"], "%s does not lengthen the output by the number of items" % name)
                    rs = [deepstrip(e[1]) for e in st.events if e[0] == "resize"]
                    v.rule(word, any(same_poly(x, ("op", "+", LEN, cnt)) for x in rs), f, f["l"], "%s does not make room for the items" % name)
    return n


def same_poly(a, b):
    from checks.C16 import poly
    try:
        return poly(a) == poly(b)
    except Exception:
        return a == b


def errors(v, prog):
    """each error: its own message, its own name in Python, its own flag"""
    from checks.C05 import errors_enum
    errs = errors_enum(prog)
    nmsg = nflag = 0
    for cls in CLS:
        fn = fn_of(prog, cls, "maybe_throw")

        for name, code in errs.items():
            if name in ("none", "size"):
                continue
            for ignored in (0, 1):
                class H(FH):
                    def field(self, base, nm, st):
                        return ("k", code) if base == THIS and nm == "current_error_" else None

                    def call(self, m, node, fr, q, obj, args, st):
                        n = short(q).split("<")[0]
                        if n in ("count",):
                            return ("k", ignored)
                        if n == "find":
                            return ("found",) if ignored else ("endmark",)
                        if n == "end":
                            return ("endmark",)
                        return None

                    def truth(self, t, st):
                        if t[0] == "op" and t[1] in ("==", "!=") and {t[2][0], t[3][0]} <= {"found", "endmark"}:
                            return (t[2] == t[3]) == (t[1] == "==")
                        return None
                m = FM(prog, H())
                res = m.run(fn, THIS, [("k", code), ("sym", "ignore")])
                if ignored:
                    v.rule(name, not m.throws, fn, fn["l"], "the error '%s' is raised although it is to be ignored" % name)
                    continue
                v.rule(name, not res, fn, fn["l"], "the error '%s' is not raised" % name)
                for t in m.throws:
                    if isinstance(t[1], dict):
                        text = [x["v"] for x in walk(t[1]) if x["k"] == "str"]
                    else:
                        text = [x[1] for x in subterms(t[1]) if x[:1] == ("k",) and len(x) == 2 and isinstance(x[1], str)] if isinstance(t[1], tuple) else []
                    if text:
                        nmsg += 1
                        own = "'%s'" % name.replace("_", " ")
                        others = ["'%s'" % o.replace("_", " ") for o in errs if o != name]
                        full = "".join(text)
                        v.rule(name, full.startswith(own) or not any(full.startswith(o) for o in others), fn, fn["l"], "the error '%s' is reported as %s" % (name, full[:40]))
    # Python
    from checks.C08py import lambda_of, argnames
    prog.load("python", lambda p: p.endswith("python/forth.cpp"))
    flags = {}
    for f in list(prog.funcs.values()):
        if not f.get("body") or not f.get("path", "").endswith("python/forth.cpp"):
            continue
        sw = [x for x in walk(f["body"]) if x["k"] == "call" and x.get("f") and short(x["f"]["q"]).split("<")[0] == "maybe_throw" and x.get("obj")]
        bools = [i for i, p in enumerate(f["ps"]) if f["u"].types[p["t"]].strip() == "bool"]
        if not sw or len(bools) < 2:
            continue
        errp = [i for i, p in enumerate(f["ps"]) if "ForthError" in f["u"].types[p["t"]]]
        if len(errp) != 1:
            continue

        class H(Hooks):
            def call(self, m, node, fr, q, obj, args, st):
                n = short(q).split("<")[0]
                if n in ("insert", "emplace"):
                    st.event("ignore", args[0])
                    return ("void",)
                if n == "maybe_throw":
                    st.event("thrown", tuple(args))
                    return ("void",)
                return None

            def inline(self, g, name, obj, args):
                return g.get("path", "").endswith("python/forth.cpp")
        for i in bools:
            m = FM(prog, FMH(H))
            args = [("sym", p["n"]) for p in f["ps"]]
            for j in bools:
                args[j] = ("k", j != i)
            args[errp[0]] = ("k", 0)
            for s, _ in m.run(f, None, args):
                ig = [e[1] for e in s.events if e[0] == "ignore"]
                if all(x[0] == "k" for x in ig):
                    inv = {c: n for n, c in errs.items()}
                    got = {inv.get(x[1]) for x in ig}
                    v.rule(f["ps"][i]["n"], len(got) == 1, f, f["l"], "the flag %s ignores %s" % (f["ps"][i]["n"], sorted(map(str, got)) or "nothing"))
                    if len(got) == 1:
                        flags[(f["q"].split("<")[0], i)] = got.pop()
                th = [k for k, e in enumerate(s.events) if e[0] == "thrown"]
                last = [k for k, e in enumerate(s.events) if e[0] == "ignore"]
                v.rule("maybe_throw", bool(th) and (not last or max(last) < th[0]), f, f["l"], "the flags are not complete when the error is raised")
        seen = {}
        for name, code in errs.items():
            if name == "size":
                continue
            m = FM(prog, FMH(H))
            args = [("sym", p["n"]) for p in f["ps"]]
            for j in bools:
                args[j] = TRUE
            args[errp[0]] = ("k", code)
            for s, r in m.run(f, None, args):
                text = [x[1] for x in subterms(r) if x[:1] == ("k",) and len(x) == 2 and isinstance(x[1], str)]
                if name == "none":
                    v.rule("none", not text, f, f["l"], "no error is reported as '%s'" % (text and text[0]))
                elif text:
                    nflag += 1
                    v.rule(name, text[0] == name.replace("_", " "), f, f["l"], "the error '%s' is called '%s'" % (name, text[0]))
    ncall = 0
    for f in list(prog.funcs.values()):
        if not f.get("body") or not f.get("path", "").endswith("python/forth.cpp"):
            continue
        for x in walk(f["body"]):
            if x["k"] != "call" or not x.get("f") or not x["f"].get("cls", "").startswith("pybind11::class_") or len(x.get("c", [])) < 2:
                continue
            lam = lambda_of(x["c"][1], f)
            if lam is None:
                continue
            names = argnames(x["c"][2:])
            ps = lam["ps"][1:]
            if not names or len(names) != len(ps):
                continue
            pos = {p["d"]: nm for p, nm in zip(ps, names)}
            for y in walk(lam["body"]):
                if y["k"] == "call" and y.get("f") and short(y["f"]["q"]).split("<")[0] == "maybe_throw" and not y.get("obj"):
                    for i, a in enumerate(y["c"]):
                        a = strip(a)
                        key = (y["f"]["q"].split("<")[0], i)
                        if key in flags and a["k"] == "ref" and a.get("d") in pos and pos[a["d"]]:
                            ncall += 1
                            v.rule(pos[a["d"]], pos[a["d"]] == "raise_" + flags[key], f, y.get("l"), "in '%s' the argument %s decides about the error '%s'" % (x["c"][0].get("v", "?") if strip(x["c"][0])["k"] == "str" else "?", pos[a["d"]], flags[key]))
    return nmsg, nflag, ncall


def whole(v, prog):
    """a number is a whole word"""
    for cls in CLS:
        fn = fn_of(prog, cls, "is_integer")
        for x in walk(fn["body"]):
            if x["k"] == "call" and x.get("f") and short(x["f"]["q"]) in ("stoul", "stol", "stoi", "stoll", "stoull"):
                a = [strip(y) for y in x["c"]]
                if len(a) < 2:
                    continue
                null = a[1]["k"] in ("nullptr",) or a[1]["k"] == "int" and a[1].get("v") == 0 or a[1]["k"] == "default"
                d = [y["d"] for y in [a[1]] + list(walk(a[1])) if y["k"] == "ref" and y.get("dk") == "var"]
                used = d and any(y["k"] == "bin" and y["op"] in CMP and any(z["k"] == "ref" and z.get("d") == d[0] for z in walk(y)) for y in walk(fn["body"]))
                v.rule("literal", not null and (not d or bool(used)), fn, x.get("l"), "a word that only begins with digits is taken for a number")
    for f in prog.funcs.values():
        if not f.get("body") or not f.get("path", "").endswith("python/forth.cpp"):
            continue
        for x in walk(f["body"]):
            if x["k"] == "call" and x.get("f") and short(x["f"]["q"]) in ("getitem_at_nowrap", "getitem_at", "decompiled_segment") and x.get("c"):
                nodes = [x["c"][0]] + list(walk(x["c"][0]))
                through = any(y["k"] == "call" and y.get("op") is None for y in nodes) or any(y["k"] == "sub" or y.get("op") == "[]" for y in nodes)
                refs = [y for y in nodes if y["k"] == "ref" and y.get("dk") == "var"]
                if refs and not through and "Forth" in "".join(map(str, (f["u"].types[p["t"]] for p in f["ps"]))) + f["q"] + "Forth":
                    inits = [w["init"] for y in walk(f["body"]) if y["k"] == "decl" for w in y["v"] if w["d"] == refs[0]["d"] and w.get("init")]
                    counted = any(y["k"] == "un" and "++" in y["op"] and strip(y["c"][0]).get("d") == refs[0]["d"] for y in walk(f["body"]))
                    v.rule("segment", not counted, f, x.get("l"), "the segment of a word is taken from the position of its name in the dictionary")


def FMH(H):
    """hooks with the default for cells"""
    class X(H):
        def cell(self, b, i, st):
            return None
    return X()


def run():
    ck = Check("C06", "abstract interpretation over the clang AST", __doc__)
    prog = Program().load("libawkward", lambda p: "/forth/" in p)
    tabs = tables(prog)
    v = V(ck)
    v.bases = []
    nout = 0
    for cls in CLS:
        codes = simple(v, prog, tabs, cls)
        structured(v, prog, tabs, cls, codes)
        reserved(v, prog, tabs, cls)
        nout += outputs(v, prog, tabs, cls)
    g = fn_of(prog, CLS[0], "parse")
    bases = {b[1] if isinstance(b[1], int) else b[1][3][1] if b[1][0] == "op" and b[1][3][0] == "k" else None for b in v.bases} - {None}
    v.rule("segments", len(bases) == 1, g, g["l"], "segments are numbered from different places: %s" % sorted(bases))
    nbuf = buffers(v, prog)
    ck.floor("output_writes", nbuf, 100)
    nmsg, nflag, ncall = errors(v, prog)
    whole(v, prog)
    ck.floor("obligations_checked", v.n, 3000)
    ck.floor("words", len(scenarios(tabs)), 60)
    ck.cov["words_not_understood"] = len(v.unknown)
    ck.cov["not_understood"] = sorted(set(v.unknown))[:20]
    ck.cov["output_types"] = nout
    ck.cov["error_messages"], ck.cov["error_names"], ck.cov["flag_arguments"] = nmsg, nflag, ncall
    ck.assumptions += ["names of variables, inputs, outputs and words are found by the search loops of the compiler", "value rules are decided on a grid of operands over the extracted transfer functions; a difference is reported with its operands"]
    return ck.finish()
