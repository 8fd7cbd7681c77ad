"""C01: an error reported by a kernel is never dropped.

Dataflow over every function of the kernels, the core library and the Python
bindings: a value of the kernels' result type is an obligation, which must be
returned, handed to a handler (a function proven to throw whenever the error
text is non-null), or tested for null, on every path before it dies."""
from vlib.core import *
from vlib.cfg import CFG, NoReturn, lambdas, single_defs

ERR = "Error"


def is_err_type(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t in ("Error", "awkward::Error")


class Analysis:
    def __init__(self, prog, ck):
        self.p = prog
        self.ck = ck
        self.nr = NoReturn(prog)
        self.handler_memo = {}
        self.pred_memo = {}
        self.cf_memo = {}

    # --- which parameter positions a function handles
    def handles(self, fn, i):
        key = (fn["key"], i)
        if key in self.handler_memo:
            return self.handler_memo[key]
        self.handler_memo[key] = False
        p = fn["ps"][i]
        bad = self.flow(fn, {p["d"]: frozenset([fn["l"]])}, None)
        self.handler_memo[key] = not any(b[0] == p["d"] for b in bad)
        return self.handler_memo[key]

    def predicate(self, call, fn):
        """call is a bool helper over an Error argument: ('null'|'nonnull', arg) or None"""
        g = self.p.callee(call, fn["u"])
        if g is None or "body" not in g:
            return None
        key = g["key"]
        if key not in self.pred_memo:
            self.pred_memo[key] = None
            b = g["body"]
            st = b["c"] if b["k"] == "block" else [b]
            if len(st) == 1 and st[0]["k"] == "return" and st[0].get("v"):
                r = self.leaf(st[0]["v"], g)
                if r:
                    for i, p in enumerate(g["ps"]):
                        if p["d"] == r[0]:
                            self.pred_memo[key] = (i, r[1])
        r = self.pred_memo[key]
        if r is None:
            return None
        a = call["c"][r[0]] if r[0] < len(call["c"]) else None
        a = strip(a) if a else None
        if a and a["k"] == "ref":
            return a["d"], r[1]
        return None

    def leaf(self, e, fn):
        """leaf condition on err.str: (var decl, truth value meaning NULL) or None"""
        e = strip(e)
        if e["k"] == "un" and e["op"] == "!":
            r = self.leaf(e["c"][0], fn)
            return (r[0], not r[1]) if r else None
        if e["k"] == "bin" and e["op"] in ("==", "!="):
            a, b = strip(e["c"][0]), strip(e["c"][1])
            if a["k"] == "nullptr" or (a["k"] == "int" and a["v"] == 0):
                a, b = b, a
            if b["k"] == "nullptr" or (b["k"] == "int" and b["v"] == 0):
                v = self.strfield(a)
                if v is not None:
                    return v, e["op"] == "=="
            return None
        v = self.strfield(e)
        if v is not None:
            return v, False
        if e["k"] == "ref" and e.get("dk") == "var" and e["d"] in single_defs(fn) and "bool" in tstr(e, fn):
            return self.leaf(single_defs(fn)[e["d"]], fn)
        if e["k"] == "call":
            return self.predicate(e, fn)
        return None

    @staticmethod
    def strfield(e):
        e = strip(e)
        if e["k"] == "mem" and e["n"] == "str" and e["q"].split("::")[-2:-1] in (["Error"],):
            b = strip(e["c"][0])
            if b["k"] == "ref":
                return b["d"]
        return None

    def source(self, e, fn):
        """e produces a fresh obligation"""
        if not (e["k"] == "call" and e.get("op") != "=" and is_err_type(tstr(e, fn))):
            return False
        return not self.cannot_fail(e, fn)

    def cannot_fail(self, e, fn):
        """success(), or a function all of whose returns are of that kind: its
        result is statically null and carries no obligation"""
        if not e.get("f"):
            return False
        if e["f"]["q"] == "success":
            return True
        g = self.p.callee(e, fn["u"])
        if g is None or "body" not in g or e["f"].get("virt"):
            return False
        if g["key"] not in self.cf_memo:
            self.cf_memo[g["key"]] = False
            rs = [x for x in walk_nolambda(g["body"]) if x.get("k") == "return"]
            # a result obtained through a CUDA function pointer belongs to the
            # CUDA library, which is not part of this build
            self.cf_memo[g["key"]] = bool(rs) and all(
                r.get("v") and (lambda v: v["k"] == "call" and (v.get("fn") is not None or self.cannot_fail(v, g)))(strip(r["v"]))
                for r in rs)
        return self.cf_memo[g["key"]]

    # --- the dataflow
    def flow(self, fn, init, report):
        if fn["key"] not in self._cfgs:
            self._cfgs[fn["key"]] = CFG(fn["body"], self.nr)
        cfg = self._cfgs[fn["key"]]
        state = {cfg.entry.id: dict(init)}
        work = [cfg.entry]
        bad = set()
        while work:
            n = work.pop()
            s = dict(state[n.id])
            if n.ast is not None and n.kind in ("stmt", "decl", "cond", "ret", "switch", "throw"):
                self.transfer(n, s, fn, bad)
            if n is cfg.exit:
                for d, o in s.items():
                    for l in o:
                        bad.add((d, l, "may reach the end of the function without being handled"))
                continue
            for t, lab in n.succ:
                s2 = dict(s)
                if n.kind == "cond" and lab in (True, False):
                    r = self.leaf(n.ast, fn)
                    if r and r[1] == lab:
                        s2.pop(r[0], None)
                if t is cfg.texit:
                    continue
                if lab == "exc":
                    # an exception is under way: nothing is silently lost, but
                    # the handler may swallow it; obligations die here, the
                    # swallowing rule covers handlers
                    s2 = {}
                old = state.get(t.id)
                if old is None:
                    state[t.id] = s2
                    work.append(t)
                else:
                    new = dict(old)
                    ch = False
                    for d, o in s2.items():
                        m = new.get(d, frozenset()) | o
                        if m != new.get(d):
                            new[d] = m
                            ch = True
                    if ch:
                        state[t.id] = new
                        work.append(t)
        return bad

    _cfgs = {}

    def value(self, e, s, fn, bad):
        """evaluate an Error-typed expression whose value is consumed by the caller
        of this method; returns the obligation set"""
        e = strip(e)
        if e["k"] == "ref":
            return s.pop(e["d"], frozenset())
        if e["k"] == "ctor" and len(e["c"]) == 1:
            return self.value(e["c"][0], s, fn, bad)
        if e["k"] == "cond":
            self.expr(e["c"][0], s, fn, bad)
            return self.value(e["c"][1], s, fn, bad) | self.value(e["c"][2], s, fn, bad)
        if e["k"] == "bin" and e["op"] == ",":
            self.expr(e["c"][0], s, fn, bad)
            return self.value(e["c"][1], s, fn, bad)
        if e["k"] == "call" and e.get("f") and e["f"]["q"].startswith("std::move"):
            return self.value(e["c"][0], s, fn, bad)
        self.expr(e, s, fn, bad, used=True)
        if self.source(e, fn):
            return frozenset([e["l"]])
        return frozenset()

    def expr(self, e, s, fn, bad, used=False):
        k = e["k"]
        if k == "lambda":
            return
        if k == "call":
            if e.get("op") == "=" and e.get("f") and is_err_type(e["f"].get("cls", "")):
                lhs = strip(e["c"][0])
                o = self.value(e["c"][1], s, fn, bad)
                if lhs["k"] == "ref":
                    for l in s.get(lhs["d"], ()):
                        bad.add((lhs["d"], l, "is overwritten at line %d before being handled" % e["l"]))
                    s.pop(lhs["d"], None)
                    if o:
                        s[lhs["d"]] = o
                return
            if e.get("obj"):
                self.expr(e["obj"], s, fn, bad, used=True)
            if e.get("fn"):
                self.expr(e["fn"], s, fn, bad, used=True)
            g = self.p.callee(e, fn["u"])
            for i, a in enumerate(e["c"]):
                a0 = strip(a)
                if is_err_type(tstr(a0, fn)) and a0["k"] in ("ref", "call", "ctor", "cond"):
                    if e.get("f") and e["f"]["q"] == "awkward::util::handle_error":
                        self.value(a0, s, fn, bad)
                    elif g is not None and "body" in g and i < len(g["ps"]) and self.handles(g, i):
                        self.value(a0, s, fn, bad)
                    elif self.predicate(e, fn) is not None:
                        pass
                    elif a0["k"] == "ref":
                        pass
                    else:
                        for l in self.value(a0, s, fn, bad):
                            bad.add((None, l, "is passed to a function that does not raise it"))
                else:
                    self.expr(a, s, fn, bad, used=True)
            if not used and self.source(e, fn):
                bad.add((None, e["l"], "is discarded"))
            return
        if k == "vardecl" or k == "init":
            for c in e["c"]:
                self.expr(c, s, fn, bad, used=True)
            return
        for c in children(e):
            if "k" in c:
                self.expr(c, s, fn, bad, used=True)

    def transfer(self, n, s, fn, bad):
        a = n.ast
        if n.kind == "decl":
            if is_err_type(fn["u"].types[a["t"]]) and not a.get("range"):
                if "&" in fn["u"].types[a["t"]] and a["c"] and strip(a["c"][0])["k"] == "ref":
                    return
                for l in s.get(a["d"], ()):
                    bad.add((a["d"], l, "goes out of scope unhandled (declared again at line %d)" % a["l"]))
                s.pop(a["d"], None)
                if a["c"]:
                    o = self.value(a["c"][0], s, fn, bad)
                    if o:
                        s[a["d"]] = o
            else:
                for c in a["c"]:
                    for x in walk_nolambda(c):
                        if x.get("k") == "mem" and "basic_string" in fn["u"].types[a["t"]]:
                            d = self.strfield(x)
                            if d is not None:
                                s.pop(d, None)
                    self.expr(c, s, fn, bad, used=True)
            return
        if n.kind == "ret":
            v = a.get("v")
            if v is not None:
                if is_err_type(tstr(strip(v), fn)):
                    self.value(v, s, fn, bad)
                else:
                    # the error text is part of the returned value
                    for x in walk_nolambda(v):
                        if x.get("k") == "mem":
                            d = self.strfield(x)
                            if d is not None:
                                s.pop(d, None)
                    self.expr(v, s, fn, bad, used=True)
            return
        if n.kind == "stmt":
            self.expr(a, s, fn, bad, used=False)
        else:
            self.expr(a, s, fn, bad, used=True)


def run():
    ck = Check("C01", "interprocedural obligation dataflow on the AST/CFG",
               "every value of the kernel result type is returned, thrown by a proven handler or tested for null on every path; "
               "handlers throw whenever the error text is set; failure()/success() build what they say; no catch block swallows a kernel error")
    p = Program()
    for g in ("kernels", "libawkward", "python"):
        p.load(g)
    an = Analysis(p, ck)
    sites = 0
    nfun = 0
    handle = [f for f in p.funcs.values() if f["q"] == "awkward::util::handle_error"]
    if not handle:
        raise AnalysisBroken("awkward::util::handle_error not found")
    # handler of handlers
    for h in handle:
        i = [j for j, q in enumerate(h["ps"]) if is_err_type(h["u"].types[q["t"]])][0]
        ck.ob(an.handles(h, i), loc(h), "handle_error throws on every path where the error text is set")
    # constructors of results
    for name in ("success", "failure", "failure_pass_through"):
        fs = [f for f in p.funcs.values() if f["q"] == name]
        if not fs:
            raise AnalysisBroken(name + "() not found")
        for f in fs:
            check_result_ctor(ck, p, f, name)
    for fn in list(p.funcs.values()):
        if "body" not in fn:
            continue
        for f in [fn] + lambdas(fn):
            srcs = [x for x in walk_nolambda(f["body"]) if x.get("k") == "call" and an.source(x, f)]
            if not srcs:
                continue
            if f["q"] in ("success", "failure", "failure_pass_through"):
                continue
            nfun += 1
            sites += len(srcs)
            bad = an.flow(f, {}, None)
            badl = {}
            for d, l, why in bad:
                badl.setdefault(l, why)
            for x in srcs:
                callee = x["f"]["q"] if x.get("f") else "(function pointer)"
                ck.ob(x["l"] not in badl, loc(f, x), "%s: the error returned by %s %s" % (
                    f["q"], callee, badl.get(x["l"], "is handled")))
    ck.floor("functions_with_error_values", nfun, 500)
    ck.floor("error_producing_call_sites", sites, 700)
    swallow(ck, p, an)
    return ck.finish()


def check_result_ctor(ck, p, f, name):
    """abstractly evaluate the straight-line body: fields of the returned struct"""
    rec = next((r for t, r in p.recs.items() if is_err_type(t)), None)
    order = [x["n"] for x in rec["fields"]] if rec else ["str", "filename", "identity", "attempt", "pass_through"]
    val = {}

    def ev(e, env):
        e = strip(e)
        if e["k"] == "ref" and e.get("dk") == "parm":
            return env.get(e["d"], ("?",))
        if e["k"] == "nullptr" or (e["k"] == "int" and e["v"] == 0 and False):
            return ("null",)
        if e["k"] == "bool":
            return ("bool", e["v"])
        if e["k"] == "str":
            return ("lit",)
        if e["k"] == "cond":
            a, b = ev(e["c"][1], env), ev(e["c"][2], env)
            return a if a == b else ("?",)
        return ("?",)

    def exec_fn(g, args):
        env = {q["d"]: a for q, a in zip(g["ps"], args)}
        st = {}

        def obj(e):
            e = strip(e)
            if e["k"] == "ref":
                return st.get(e["d"], {})
            if e["k"] == "init":
                return {order[i]: ev(x, env) for i, x in enumerate(e["c"]) if i < len(order)}
            if e["k"] == "ctor" and len(e["c"]) == 1:
                return obj(e["c"][0])
            if e["k"] == "call":
                h = p.callee(e, g["u"])
                if h is not None and "body" in h:
                    return exec_fn(h, [ev(x, env) for x in e["c"]])
            return {}

        def block(b):
            for s in (b["c"] if b["k"] == "block" else [b]):
                if s["k"] == "decl":
                    for v in s["v"]:
                        st[v["d"]] = dict(obj(v["init"])) if v.get("init") else {}
                elif s["k"] == "bin" and s["op"] == "=" and s["c"][0]["k"] == "mem":
                    b0 = strip(s["c"][0]["c"][0])
                    if b0["k"] == "ref":
                        st.setdefault(b0["d"], {})[s["c"][0]["n"]] = ev(s["c"][1], env)
                elif s["k"] == "return":
                    return dict(obj(s["v"]))
                elif s["k"] == "block":
                    r = block(s)
                    if r is not None:
                        return r
            return None
        return block(g["body"]) or {}

    r = exec_fn(f, [("arg", i) for i in range(len(f["ps"]))])
    want_str = ("null",) if name == "success" else ("arg", 0)
    ck.ob(r.get("str") == want_str, loc(f), "%s() sets the error text to %s" % (name, "null" if name == "success" else "its argument"))
    ck.ob(r.get("pass_through") == ("bool", 1 if name == "failure_pass_through" else 0), loc(f), "%s() sets pass_through" % name)


BROAD = ("std::exception", "std::logic_error", "std::invalid_argument", "std::runtime_error")


def swallow(ck, p, an):
    """a handler broad enough to catch handle_error's exception must rethrow, or
    sit in an extern-C boundary function (property C07), or guard code that
    cannot reach a kernel error."""
    reach = {}
    ovr = p.overriders()

    def calls(fn):
        for x in walk(fn["body"]):
            if x.get("k") in ("call", "ctor"):
                yield x

    def reaches(body, unit, seen):
        st = [(body, unit)]
        while st:
            b, u = st.pop()
            for x in walk(b):
                if x.get("k") not in ("call", "ctor"):
                    continue
                f = x.get("f")
                if not f:
                    continue
                if f["q"] == "awkward::util::handle_error":
                    return True
                ms = [f["m"]]
                if f.get("virt"):
                    ms += list(ovr.get(f["m"], ()))
                for m in ms:
                    if m in seen:
                        continue
                    seen.add(m)
                    g = p.funcs.get(m) if x["k"] == "call" else p.callee(x, u)
                    if g and "body" in g:
                        st.append((g["body"], g["u"]))
        return False
    n = 0
    for fn in p.funcs.values():
        if "body" not in fn or fn.get("externc"):
            continue
        for x in walk(fn["body"]):
            if x.get("k") != "try":
                continue
            for h in x["h"]:
                t = fn["u"].types[h["t"]].replace("const ", "").replace("&", "").strip() if h.get("t") is not None else "..."
                if t != "..." and t not in BROAD:
                    continue
                n += 1
                c = CFG(h["body"], an.nr)
                if c.exit.id not in c.reachable():
                    ck.ob(True, loc(fn, h), "catch (%s) rethrows" % t)
                    continue
                ok = not reaches(x["body"], fn["u"], set())
                ck.ob(ok, loc(fn, h), "%s: catch (%s) swallows an exception that can carry a kernel error" % (fn["q"], t))
    ck.floor("broad_catch_handlers", n, 5)
