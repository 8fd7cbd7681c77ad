"""SSA facts over simplified LLVM IR: integer values as polynomials over
symbolic atoms, conditions as formulas collected along dominating edges and
joins, and entailment of linear clauses over those facts."""
import concurrent.futures as cf
import json
import os
import subprocess
from fractions import Fraction
from . import core
from .core import AnalysisBroken, BUILD, LLVM, REPO, JOBS, _sha, _read, build_tool, flags, headers_hash, sources


# ------------------------------------------------------------------ front end
def irdump_tool():
    return build_tool("irdump", [])


def _one(a):
    tool, src, out, fl, opts = a
    bc = out + ".%d.bc" % os.getpid()
    cmd = ["clang++-18"] + fl + ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names",
                                 "-emit-llvm", "-c", src, "-o", bc]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return src, r.stdout[-2000:]
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run([tool, bc, tmp] + opts, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    os.unlink(bc)
    if r.returncode:
        return src, r.stdout[-2000:]
    os.replace(tmp, out)
    return src, None


def dump_ir(group, only=None, opts=("--noalias-args", "--inline-all")):
    tool = irdump_tool()
    fl = flags(group)
    srcs = sources(group)
    if only:
        srcs = [s for s in srcs if only(os.path.relpath(s, REPO))]
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    todo, res = [], []
    for s in srcs:
        key = _sha(tool, s, _read(s), headers_hash(), repr(fl), repr(opts))
        out = os.path.join(cache, key + ".ir.json")
        res.append((s, out))
        if not os.path.exists(out):
            todo.append((tool, s, out, fl, list(opts)))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for src, err in ex.map(_one, todo):
            if err is not None:
                raise AnalysisBroken("cannot compile %s:\n%s" % (src, err))
    return res


def load_ir(group, only=None, opts=("--noalias-args", "--inline-all")):
    fns = {}
    for src, path in dump_ir(group, only, opts):
        with open(path) as f:
            d = json.load(f)
        for x in d["funcs"]:
            if x["n"] not in fns:
                x["src"] = os.path.relpath(src, REPO)
                fns[x["n"]] = SFn(x)
    return fns


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = {m: c for m, c in d.items() if c}
        self._h = None

    def key(self):
        if self._h is None:
            self._h = frozenset(self.d.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.d.items()})

    def __mul__(self, o):
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = tuple(sorted(m1 + m2, key=repr))
                d[m] = d.get(m, 0) + c1 * c2
        return Poly(d)

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def atoms(self):
        s = set()
        for m in self.d:
            s.update(m)
        return s

    def __repr__(self):
        if not self.d:
            return "0"
        return " + ".join("%s%s" % ("" if c == 1 and m else c, "*".join(fmt(a) for a in m) and ("" if c == 1 else "*") + "*".join(fmt(a) for a in m))
                          for m, c in sorted(self.d.items(), key=repr))


def fmt(a):
    if a[0] == "arg":
        return a[1]
    if a[0] == "ld":
        return "%s[%r]" % (fmtroot(a[1]), a[2])
    return "%s%s" % (a[0], a[1])


def fmtroot(r):
    return r[1] if r[0] == "arg" else "%s%s" % r[:2]


def K(c):
    return Poly({(): c})


def A(a):
    return Poly({(a,): 1})


# formulas: ("ge",p) p>=0 | ("eq",p) | ("ne",p) | ("and",[..]) | ("or",[..]) | ("true",) | ("false",)
TRUE = ("true",)
FALSE = ("false",)


def NOT(f):
    k = f[0]
    if k == "ge":
        return ("ge", -f[1] - K(1))
    if k == "eq":
        return ("ne", f[1])
    if k == "ne":
        return ("eq", f[1])
    if k == "and":
        return ("or", [NOT(x) for x in f[1]])
    if k == "or":
        return ("and", [NOT(x) for x in f[1]])
    if k == "true":
        return FALSE
    if k == "unk":
        return f
    return TRUE


class SFn:
    def __init__(self, d):
        self.d = d
        self.n = d["n"]
        self.src = d["src"]
        self.args = d["args"]
        self.blocks = d["b"]
        self.ins = {}
        self.succ = [[] for _ in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for b, bl in enumerate(self.blocks):
            for pos, i in enumerate(bl["i"]):
                i["blk"], i["pos"] = b, pos
                self.ins[i["id"]] = i
            t = bl["i"][-1]
            self.succ[b] = list(t.get("succ", []))
        for b in range(len(self.blocks)):
            for k, s in enumerate(self.succ[b]):
                self.pred[s].append((b, k))
        self._dom()
        self._forms = {}
        self._cond = {}
        self._between = {}

    # -- dominators
    def _dom(self):
        n = len(self.blocks)
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        self.rpo = rpo
        num = {b: i for i, b in enumerate(rpo)}
        self.num = num
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p, _ in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = new, p
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.back = set()
        for b in rpo:
            for k, s in enumerate(self.succ[b]):
                if self.dominates(s, b):
                    self.back.add((b, k))
        self.headers = {self.succ[b][k] for b, k in self.back}
        self.loops = {}
        for h in self.headers:
            body = {h}
            w = [b for b, k in self.back if self.succ[b][k] == h]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(p for p, _ in self.pred[x] if p in self.num)
            self.loops[h] = body

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def loc(self, i):
        f = i.get("f") or self.src
        if f.startswith(REPO):
            f = os.path.relpath(f, REPO)
        return "%s:%s" % (f, i.get("l", "?"))

    # -- values
    def argname(self, i):
        return self.args[i]["n"]

    def width(self, v):
        if v["k"] == "int":
            return v["w"]
        return None

    def form(self, v):
        k = v["k"]
        if k == "int":
            return K(v["v"])
        if k == "arg":
            return A(("arg", self.argname(v["i"])))
        if k == "null":
            return K(0)
        if k == "i":
            return self.iform(v["id"])
        if k == "glob":
            return A(("glob", v["n"]))
        return A(("opq", json.dumps(v, sort_keys=True)))

    def iform(self, id):
        if id in self._forms:
            return self._forms[id]
        self._forms[id] = A(("v", id))
        r = self._iform(self.ins[id])
        self._forms[id] = r
        return r

    def _iform(self, i):
        op, id = i["op"], i["id"]
        if op in ("add", "sub", "mul", "shl"):
            a, b = self.form(i["c"][0]), self.form(i["c"][1])
            if i["t"].startswith("i1") and i["t"] == "i1":
                return A(("v", id))
            if op == "add":
                return a + b
            if op == "sub":
                return a - b
            if op == "mul":
                return a * b
            if b.const() is not None and 0 <= b.const() < 62:
                return a.scale(1 << b.const())
            return A(("v", id))
        if op == "sext" or op == "zext" or op == "freeze":
            if i.get("ot") == "i1":
                return A(("b2i", id))
            return self.form(i["c"][0])
        if op == "load":
            root, off = self.addr(i["c"][0])
            sz = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8, "i1": 1}.get(i["t"])
            if sz and root is not None and root[0] == "arg" and not self.stored(root):
                if all(c % sz == 0 for c in off.d.values()):
                    return A(("ld", root, Poly({m: c // sz for m, c in off.d.items()})))
                return A(("ld", root, off, "bytes", i["t"]))
            return A(("v", id))
        if op in ("sdiv", "srem", "udiv", "urem", "and", "or", "xor", "lshr", "ashr", "trunc"):
            ops = tuple(self.form(c) for c in i["c"])
            if op in ("sdiv", "ashr", "udiv", "srem", "urem", "and", "trunc", "lshr", "or", "xor"):
                return A((op, ops, i["t"]))
        if op in ("call", "invoke") and i.get("callee"):
            return self.callform(i)
        if op == "phi" and i["blk"] in self.headers and i["t"] in ("i8", "i16", "i32", "i64"):
            snap = dict(self._forms)
            r = self.loadphi(i)
            self._forms = snap
            if r is not None:
                return r
        return A(("v", id))

    def loadphi(self, i):
        """a header phi carrying input[q] from one iteration to the next"""
        h = i["blk"]
        ini = [e for e in i["inc"] if e["b"] not in self.loops[h]]
        bk = [e for e in i["inc"] if e["b"] in self.loops[h]]
        if len(ini) != 1 or not bk:
            return None

        def ld(v):
            f = self.form(v)
            a = list(f.atoms())
            if len(a) == 1 and f == A(a[0]) and a[0][0] == "ld" and len(a[0]) == 3:
                return a[0]
            return None
        l0 = ld(ini[0]["v"])
        l1 = [ld(e["v"]) for e in bk]
        if l0 is None or any(x is None or x[1] != l0[1] for x in l1):
            return None
        for q in self.blocks[h]["i"]:
            if q["op"] != "phi" or q is i or q["t"] != "i64":
                continue
            inc = {e["b"]: self.form(e["v"]) for e in q["inc"]}
            c = l0[2] - inc[ini[0]["b"]]
            if all(x[2] == inc[e["b"]] + c for x, e in zip(l1, bk)):
                return A(("ld", l0[1], A(("v", q["id"])) + c))
        return None

    def callform(self, i):
        return A(("v", i["id"]))

    def stored(self, root):
        if not hasattr(self, "_stored"):
            s = set()
            for i in self.ins.values():
                if i["op"] == "store":
                    s |= self.roots(i["c"][1])
                elif i["op"] in ("call", "invoke"):
                    for c in i.get("c", []):
                        if c["k"] in ("arg", "i", "gep"):
                            s |= self.roots(c)
            self._stored = s
        return root in self._stored

    def roots(self, v, seen=None):
        """set of objects a pointer value may be based on (no offsets)"""
        seen = set() if seen is None else seen
        k = v["k"]
        if k == "arg":
            return {("arg", self.argname(v["i"]))}
        if k == "glob":
            return {("glob", v["n"])}
        if k == "gep":
            return self.roots(v["base"], seen)
        if k == "i":
            if v["id"] in seen:
                return set()
            seen.add(v["id"])
            i = self.ins[v["id"]]
            if i["op"] == "getelementptr":
                return self.roots(i["gep"], seen)
            if i["op"] in ("phi", "select"):
                out = set()
                for x in ([e["v"] for e in i["inc"]] if i["op"] == "phi" else i["c"][1:]):
                    out |= self.roots(x, seen)
                return out
            return {("v", v["id"])}
        return {(k, json.dumps(v, sort_keys=True))}

    def addr(self, v, seen=()):
        """(root, byte offset polynomial)"""
        k = v["k"]
        if k == "arg":
            return ("arg", self.argname(v["i"])), K(0)
        if k == "glob":
            return ("glob", v["n"]), K(0)
        if k == "gep":
            r, o = self.addr(v["base"], seen)
            for x in v["idx"]:
                o = o + self.form(x["v"]).scale(x["s"])
            return r, o + K(v["c"])
        if k == "i":
            i = self.ins[v["id"]]
            if i["op"] == "getelementptr":
                return self.addr(i["gep"], seen)
            if i["op"] in ("bitcast",):
                return self.addr(i["c"][0], seen)
            if i["op"] == "phi" and v["id"] not in seen:
                from math import gcd
                roots, unit, inits = set(), 0, []
                for e in i["inc"]:
                    r, o = self.addr(e["v"], seen + (v["id"],))
                    if r == ("v", v["id"]):
                        c = o.const()
                        unit = gcd(unit, abs(c)) if c is not None else 1
                        continue
                    roots.add(r)
                    inits.append(o)
                if len(roots) == 1:
                    if unit == 0 or any(c % unit for o in inits for c in o.d.values()):
                        unit = 1
                    return roots.pop(), A(("pphi", v["id"])).scale(unit)
            return ("v", v["id"]), K(0)
        return (k, json.dumps(v, sort_keys=True)), K(0)

    # -- conditions
    def cond(self, v, truth):
        k = v["k"]
        if k == "int":
            return TRUE if bool(v["v"]) == truth else FALSE
        if k != "i":
            f = ("ne", self.form(v)) if truth else ("eq", self.form(v))
            return f
        key = (v["id"], truth)
        if key not in self._cond:
            self._cond[key] = TRUE
            self._cond[key] = self._mkcond(self.ins[v["id"]], truth)
        return self._cond[key]

    def _mkcond(self, i, truth):
        op = i["op"]
        if op == "icmp":
            a, b = i["c"]
            p = i["pred"]
            if i["ot"] == "ptr":
                if p in ("eq", "ne"):
                    (ra, oa), (rb, ob) = self.addr(a), self.addr(b)
                    fa = oa + (K(0) if ra[0] == "null" else A(("ptr", ra)))
                    fb = ob + (K(0) if rb[0] == "null" else A(("ptr", rb)))
                    return ("eq" if (p == "eq") == truth else "ne", fa - fb)
                (ra, oa), (rb, ob) = self.addr(a), self.addr(b)
                if ra == rb:
                    fa, fb = oa, ob
                else:
                    return TRUE
            else:
                if i["ot"] == "i1":
                    if b["k"] == "int":
                        t = (bool(b["v"]) == (p == "eq")) == truth
                        return self.cond(a, t) if p in ("eq", "ne") else TRUE
                    return TRUE
                # comparison of a widened i1 with 0
                for x, y in ((a, b), (b, a)):
                    if x["k"] == "i" and self.ins[x["id"]]["op"] in ("zext", "sext") and self.ins[x["id"]].get("ot") == "i1" \
                            and y["k"] == "int" and y["v"] == 0 and p in ("eq", "ne"):
                        return self.cond(self.ins[x["id"]]["c"][0], (p == "ne") == truth)
                fa, fb = self.form(a), self.form(b)
            if p == "eq" or p == "ne":
                return ("eq" if (p == "eq") == truth else "ne", fa - fb)
            uns = p[0] == "u"
            p = p[1:]
            neg = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}
            if not truth:
                p = neg[p]
            f = {"lt": ("ge", fb - fa - K(1)), "le": ("ge", fb - fa), "gt": ("ge", fa - fb - K(1)), "ge": ("ge", fa - fb)}[p]
            if uns and i["ot"] == "i64":
                # unsigned comparison of 64-bit values: a <u b with b >= 0 means 0 <= a < b;
                # the negation with b >= 0 means a < 0 or a >= b
                if p in ("lt", "le"):
                    return ("or", [("and", [f, ("ge", fa)]), ("and", [("ge", -fb - K(1))])])
                return ("or", [("and", [f, ("ge", fb)]), ("and", [("ge", -fa - K(1))])])
            return f
        if op == "xor" and i["t"] == "i1":
            a, b = i["c"]
            if b["k"] == "int":
                return self.cond(a, truth != bool(b["v"]))
            return TRUE
        if op in ("and", "or") and i["t"] == "i1":
            fs = [self.cond(c, truth) for c in i["c"]]
            return (("and" if (op == "and") == truth else "or"), fs)
        if op == "select" and i["t"] == "i1":
            c, a, b = i["c"]
            return ("or", [("and", [self.cond(c, True), self.cond(a, truth)]), ("and", [self.cond(c, False), self.cond(b, truth)])])
        if op == "phi" and i["t"] == "i1":
            if i["blk"] in self.headers:
                return TRUE
            alts = []
            for e in i["inc"]:
                alts.append(("and", [self.edgefacts_between(i["blk"], e["b"]), self.cond(e["v"], truth)]))
            return ("or", alts)
        if op == "trunc" and i["t"] == "i1":
            f = self.form(i["c"][0])
            s = i["c"][0]
            if s["k"] == "i" and self.ins[s["id"]]["op"] in ("zext",) and self.ins[s["id"]].get("ot") == "i1":
                return self.cond(self.ins[s["id"]]["c"][0], truth)
            if s["k"] == "i" and self.ins[s["id"]]["op"] == "phi" and self.ins[s["id"]]["blk"] not in self.headers:
                ph = self.ins[s["id"]]
                alts = []
                for e in ph["inc"]:
                    v = e["v"]
                    if v["k"] == "int":
                        c = TRUE if bool(v["v"] & 1) == truth else FALSE
                    elif v["k"] == "i" and self.ins[v["id"]]["op"] == "zext" and self.ins[v["id"]].get("ot") == "i1":
                        c = self.cond(self.ins[v["id"]]["c"][0], truth)
                    else:
                        c = TRUE
                    alts.append(("and", [self.edgefacts_between(ph["blk"], e["b"]), c]))
                return ("or", alts)
            return ("ne", f) if truth else ("eq", f)
        f = A(("v", i["id"]))
        return ("ne", f) if truth else ("eq", f)

    def edgecond(self, b, k):
        t = self.blocks[b]["i"][-1]
        if t["op"] == "br" and len(t["succ"]) == 2:
            if t["succ"][0] == t["succ"][1]:
                return TRUE
            return self.cond(t["c"][0], k == 0)
        if t["op"] == "switch":
            f = self.form(t["c"][0])
            if k == 0:
                return ("and", [("ne", f - K(c)) for c in t["cases"]])
            return ("eq", f - K(t["cases"][k - 1]))
        return TRUE

    def edgefacts_between(self, join, predblk):
        """facts on the edge predblk->join that are not already facts at idom(join)"""
        key = (join, predblk)
        if key in self._between:
            return self._between[key]
        self._between[key] = TRUE
        top = self.idom[join]
        alts = []
        for b, k in self.pred[join]:
            if b == predblk:
                alts.append(("and", [self.path(b, top), self.edgecond(b, k)]))
        r = alts[0] if len(alts) == 1 else ("or", alts)
        self._between[key] = r
        return r

    def path(self, b, top):
        """facts gathered from block `top` (exclusive) down to block b along the dominator tree"""
        fs = []
        while b != top and b != 0:
            d = self.idom[b]
            fs.append(self.blockfacts(b))
            b = d
        return ("and", fs)

    def blockfacts(self, b):
        """facts that entering b adds to those at idom(b)"""
        if not hasattr(self, "_bf"):
            self._bf = {}
        if b in self._bf:
            return self._bf[b]
        self._bf[b] = TRUE
        fs = []
        preds = [(p, k) for p, k in self.pred[b] if p in self.num]
        if b in self.headers:
            fs += self.inductions(b)
            ent = [(p, k) for p, k in preds if (p, k) not in self.back]
        else:
            ent = preds
            if len(ent) == 1 and ent[0][0] == self.idom[b]:
                fs.append(self.edgecond(*ent[0]))
            elif len(ent) > 1:
                alts = []
                phis = [i for i in self.blocks[b]["i"] if i["op"] == "phi"]
                for p, k in ent:
                    c = [self.path(p, self.idom[b]), self.edgecond(p, k)]
                    for ph in phis:
                        if ph["t"] in ("i1", "float", "double"):
                            continue
                        for e in ph["inc"]:
                            if e["b"] == p:
                                if ph["t"] == "ptr":
                                    r, o = self.addr(e["v"])
                                    r2, o2 = self.addr({"k": "i", "id": ph["id"]})
                                    if r == r2:
                                        c.append(("eq", o2 - o))
                                else:
                                    c.append(("eq", self.iform(ph["id"]) - self.form(e["v"])))
                                break
                    alts.append(("and", c))
                fs.append(("or", alts))
        for i in self.blocks[b]["i"]:
            if i["op"] == "select" and i["t"] not in ("i1", "ptr", "float", "double"):
                c, x, y = i["c"]
                v = self.iform(i["id"])
                fs.append(("or", [("and", [self.cond(c, True), ("eq", v - self.form(x))]),
                                  ("and", [self.cond(c, False), ("eq", v - self.form(y))])]))
        self._bf[b] = ("and", fs)
        return self._bf[b]

    def steps(self, id, v, seen):
        """set of constant increments of v relative to header phi id, through inner joins; None if unknown"""
        f = self.form(v)
        base = A(("v", id))
        c = (f - base).const()
        if c is not None:
            return {c}
        # f = innerphi + const
        rest = [a for a in f.atoms() if a[0] == "v" and self.ins.get(a[1], {}).get("op") in ("phi", "select")]
        if len(rest) == 1 and rest[0][1] not in seen:
            d = (f - A(rest[0])).const()
            ph = self.ins[rest[0][1]]
            if d is not None:
                out = set()
                vs = [e["v"] for e in ph["inc"]] if ph["op"] == "phi" else ph["c"][1:]
                for x in vs:
                    if x["k"] == "i" and x["id"] == ph["id"]:
                        continue
                    s = self.steps(id, x, seen + (ph["id"],))
                    if s is None:
                        return None
                    out |= {q + d for q in s}
                if ph["op"] == "phi" and ph["blk"] in self.headers:
                    # inner loop counter: a repeated nonnegative increment
                    if any(q < 0 for q in out):
                        return None
                return out
        return None

    def inductions(self, h):
        fs = []
        for i in self.blocks[h]["i"]:
            if i["op"] != "phi":
                continue
            isptr = i["t"] == "ptr"
            if i["t"] in ("float", "double", "i1"):
                continue
            inits, backs = [], []
            for e in i["inc"]:
                if self.dominates(h, e["b"]) and e["b"] in self.loops[h]:
                    backs.append(e["v"])
                else:
                    inits.append(e["v"])
            if isptr:
                r, me = self.addr({"k": "i", "id": i["id"]})
                if me.const() is not None:
                    continue
                ini = [self.addr(v) for v in inits]
                bk = [self.addr(v) for v in backs]
                if any(x[0] != r for x in ini + bk):
                    continue
                st = [(x[1] - me).const() for x in bk]
                if None in st:
                    continue
                for x in ini:
                    if all(s >= 0 for s in st):
                        fs.append(("ge", me - x[1]))
                    if all(s <= 0 for s in st):
                        fs.append(("ge", x[1] - me))
                continue
            me = A(("v", i["id"]))
            st = set()
            ok = True
            for v in backs:
                s = self.steps(i["id"], v, (i["id"],))
                if s is None:
                    ok = False
                    break
                st |= s
            if not ok:
                continue
            i["steps"] = st
            if len(inits) == 1:
                f0 = self.form(inits[0])
                if all(s >= 0 for s in st):
                    fs.append(("ge", me - f0))
                if all(s <= 0 for s in st):
                    fs.append(("ge", f0 - me))
        return fs

    def path_all(self, b):
        fs = []
        while True:
            fs.append(self.blockfacts(b))
            if b == 0:
                break
            b = self.idom[b]
        return ("and", fs)

    def facts_edge(self, b, k):
        return ("and", [self.path_all(b), self.edgecond(b, k)])


# ---------------------------------------------------------------- entailment
class Budget(Exception):
    pass


def flatten(f, lits, ors):
    """False if f is trivially false"""
    st = [f]
    while st:
        x = st.pop()
        k = x[0]
        if k == "and":
            st.extend(x[1])
        elif k == "or":
            ors.append(x)
        elif k == "true" or k == "unk":
            pass
        elif k == "false":
            return False
        else:
            c = x[1].const()
            if c is not None:
                if k == "ge" and c < 0 or k == "eq" and c != 0 or k == "ne" and c == 0:
                    return False
                continue
            lits.append(x)
    return True


def linear_unsat(lits):
    """contradiction among p>=0 / p==0 literals (rational relaxation with integer tightening)"""
    eqs = [l[1] for l in lits if l[0] == "eq"]
    ges = [l[1] for l in lits if l[0] == "ge"]
    nes = [l[1] for l in lits if l[0] == "ne"]
    # Gaussian substitution on unit-coefficient monomials
    while eqs:
        p = eqs.pop()
        c = p.const()
        if c is not None:
            if c != 0:
                return True
            continue
        m = None
        for mm, cc in p.d.items():
            if mm and abs(cc) == 1:
                if m is None or len(mm) < len(m) or repr(mm) > repr(m):
                    m = mm
        if m is None:
            ges += [p, -p]
            continue
        r = (p - Poly({m: p.d[m]})).scale(-p.d[m])   # m == r

        def sub(q):
            if m in q.d:
                return q - Poly({m: q.d[m]}) + r.scale(q.d[m])
            return q
        eqs = [sub(q) for q in eqs]
        ges = [sub(q) for q in ges]
        nes = [sub(q) for q in nes]
    for q in nes:
        if q.const() == 0:
            return True
    gs = {}
    for q in ges:
        c = q.const()
        if c is not None:
            if c < 0:
                return True
            continue
        k = tuple(sorted(((m, v) for m, v in q.d.items() if m), key=repr))
        b = q.d.get((), 0)
        if k not in gs or b < gs[k]:
            gs[k] = b
    # ne tightening: q >= 0 and q != 0  =>  q >= 1
    for q in nes:
        for s in (q, -q):
            k = tuple(sorted(((m, v) for m, v in s.d.items() if m), key=repr))
            b = s.d.get((), 0)
            if k in gs and gs[k] == b:
                gs[k] = b - 1
    ges = [Poly(dict(list(k) + [((), b)])) for k, b in gs.items()]
    n = 0
    while True:
        ms = {}
        for q in ges:
            for m, c in q.d.items():
                if m:
                    a = ms.setdefault(m, [0, 0])
                    a[c > 0] += 1
        if not ms:
            return False
        m = min(ms, key=lambda x: (ms[x][0] * ms[x][1], repr(x)))
        pos = [q for q in ges if q.d.get(m, 0) > 0]
        neg = [q for q in ges if q.d.get(m, 0) < 0]
        rest = [q for q in ges if m not in q.d]
        new = set(rest)
        for p in pos:
            for q in neg:
                r = p.scale(-q.d[m]) + q.scale(p.d[m])
                c = r.const()
                if c is not None:
                    if c < 0:
                        return True
                    continue
                new.add(r)
        n += len(pos) * len(neg)
        if len(new) > 400 or n > 4000:
            return False
        ges = list(new)


def refute(formulas, budget=None, depth=0):
    """True if the conjunction of formulas is contradictory (sound)"""
    if budget is None:
        budget = [6000]
    lits, ors = [], []
    for f in formulas:
        if not flatten(f, lits, ors):
            return True
    budget[0] -= 1
    if budget[0] <= 0:
        return False
    if linear_unsat(lits):
        return True
    # ne splitting is left to the disjunctions
    base = list(dict.fromkeys(lits))
    # unit disjunctions first
    ors2 = []
    for o in ors:
        alts = []
        taut = False
        for a in o[1]:
            l2, o2 = [], []
            if not flatten(a, l2, o2):
                continue
            if not l2 and not o2:
                taut = True
                break
            if linear_unsat(base + l2):
                continue
            alts.append((a, len(l2), len(o2)))
        if taut:
            continue
        if not alts:
            return True
        if len(alts) == 1:
            return refute(base + [alts[0][0]] + [x for x in ors if x is not o], budget, depth)
        ors2.append((o, alts))
    if depth > 16:
        return False
    if ors2:
        ors2.sort(key=lambda x: len(x[1]))
        o, alts = ors2[0]
        rest = [x for x, _ in ors2[1:]]
        return all(refute(base + [a] + rest, budget, depth + 1) for a, _, _ in alts)
    # remaining ne literals
    nes = [l for l in base if l[0] == "ne"]
    if nes and depth < 6:
        for l in nes:
            rest = [x for x in base if x is not l]
            if linear_unsat(rest + [("ge", l[1] - K(1))]) and linear_unsat(rest + [("ge", -l[1] - K(1))]):
                return True
            if linear_unsat(rest + [("ge", l[1] - K(1))]):
                return refute(rest + [("ge", -l[1] - K(1))], budget, depth + 1)
            if linear_unsat(rest + [("ge", -l[1] - K(1))]):
                return refute(rest + [("ge", l[1] - K(1))], budget, depth + 1)
    return False


def proves(facts, goal):
    return refute([facts, NOT(goal)])
