"""C05: the AwkwardForth machine stays inside its storage.

Abstract interpretation (linear facts, symbolic capacities; vlib/absint.py) of
every method of the machine, of the input and of the output buffers: each
subscript of an owned buffer is proved to lie inside its capacity from the
class invariant and the guards on the path, each method re-establishes the
class invariant, each division is proved not to trap, and each exit with an
error is proved to be taken only in the documented situation."""
from vlib.core import *
from vlib.absint import *
from vlib import absint
from vlib import core as _core


def walk(n):
    return (x for x in _core.walk(n) if "k" in x)



def inv_machine(st, I, T="int"):
    f = lambda n: I.load(("f", n), st, None, None, "long")[0][1]
    d, m = f("stack_depth_"), f("stack_max_depth_")
    r, rm = f("recursion_current_depth_"), f("recursion_max_depth_")
    l = f("do_current_depth_")
    return [("0 <= stack depth", ge(d, ZERO)), ("stack depth <= capacity", ge(m, d)),
            ("0 <= recursion depth", ge(r, ZERO)), ("recursion depth <= capacity", ge(rm, r)),
            ("0 <= loop depth", ge(l, ZERO)), ("loop depth <= capacity", ge(rm, l)),
            ("recursion capacity >= 1", ge(rm, K(1)))]


class MachineHooks(Hooks):
    BUFS = {"stack_buffer_": "stack_max_depth_", "current_which_": "recursion_max_depth_", "current_where_": "recursion_max_depth_",
            "do_recursion_depth_": "recursion_max_depth_", "do_stop_": "recursion_max_depth_", "do_i_": "recursion_max_depth_"}

    def __init__(self, ck, prog, errs, ijk):
        self.ck, self.p, self.errs, self.ijk = ck, prog, errs, ijk
        self.target = None
        self.vec = False
        self.pause = self.step = None
        self.bad = {}

    def capof(self, I, buf):
        m = self.BUFS.get(buf)
        if m is None:
            return None
        return lambda st: I.load(("f", m), st, None, None, "long")[0][1]

    def fval(self, I, st, n):
        v = I.load(("f", n), st, None, None, "long")[0]
        return v[1] if v[0] == "i" else None

    # --- external objects
    def call(self, I, name, e, st, fr):
        f = e.get("f")
        if not f:
            return None
        cls = f.get("cls", "") or ""
        if self.vec and name == "size" and e.get("obj") is not None and strip(e["obj"])["k"] == "mem":
            return [(("i", I.named("size of " + strip(e["obj"])["n"], "unsigned int")), st)]
        if self.vec and e.get("op") == "[]" and strip(e["c"][0])["k"] == "mem":
            out = []
            for v, s in I.ev(e["c"][1], st, fr):
                i, s = I.poly(v, "unsigned long", s)
                I.need(s, lt(i, I.named("size of " + strip(e["c"][0])["n"], "unsigned int")), e, fr, "the position is below the number of elements")
                out.append((U, s))
            return out
        if name == "internal_run":
            out = []
            for vs, s in I.args(e, st, fr):
                t, s = I.poly(vs[1], "long", s)
                r = self.fval(I, s, "recursion_current_depth_")
                I.need(s, AND(ge(t, ZERO), ge(r, t)), e, fr, "the run starts at or above its target depth")
                I.need(s, eq(self.err(I, s), ZERO), e, fr, "the run starts without a pending error")
                s = self.forget(I, s)
                r = self.fval(I, s, "recursion_current_depth_")
                out.append((U, s))
            return out
        if name in ("tokenize", "compile"):
            return [(U, s) for vs, s in I.args(e, st, fr)]
        if "ForthInputBuffer" in cls or "ForthOutputBuffer" in cls:
            return self.buffer_call(I, name, cls, e, st, fr)
        if name == "top" and "stack" in cls:
            out = []
            t = I.fresh("long")
            r = self.fval(I, st, "recursion_current_depth_")
            # every pushed target is a depth the machine had, and depths below the target are left only by the pop
            return [(("i", t), st.assume(AND(ge(t, ZERO), ge(r, t))))]
        if name == "push" and "stack" in cls:
            out = []
            for vs, s in I.args(e, st, fr):
                t, s = I.poly(vs[0], "long", s)
                r = self.fval(I, s, "recursion_current_depth_")
                I.need(s, AND(ge(t, ZERO), ge(r, t)), e, fr, "a target depth is not above the current depth")
                out.append((U, s))
            return out
        if name in ("byteswap16", "byteswap32", "byteswap64"):
            size = {"byteswap16": 2, "byteswap32": 4, "byteswap64": 8}[name]
            out = []
            for vs, s in I.args(e, st, fr):
                if vs[1][0] == "addr":
                    n, s = I.poly(vs[0], "long", s)
                    t = I.ty(strip(e["c"][1])["c"][0], fr) if strip(e["c"][1])["k"] == "un" else ""
                    have = SIZES.get(norm(t))
                    if have:
                        I.need(s, AND(ge(n, ZERO), ge(K(have), n.scale(size))), e, fr, "byte swapping stays inside the value")
                    s = I.clobber(e, vs, s, fr)
                out.append((U, s))
            return out
        return None

    def err(self, I, st):
        v = I.load(("f", "current_error_"), st, None, None, "int")[0]
        return v[1]

    def forget(self, I, st):
        """state after internal_run: the invariant, nothing else"""
        s = st.copy()
        for n in ("stack_depth_", "recursion_current_depth_", "do_current_depth_", "current_error_"):
            s.env[("f", n)] = ("i", I.fresh("long" if n != "current_error_" else "int"))
        s.cells = {}
        for w, f in inv_machine(s, I):
            s = s.assume(f)
        return s

    def buffer_call(self, I, name, cls, e, st, fr):
        out = []
        objs = I.ev(e["obj"], st, fr) if e.get("obj") is not None else [(U, st)]
        for ov, s0 in objs:
            for vs, s in I.args(e, s0, fr):
                if name == "read":
                    n, s = I.poly(vs[0], "long", s)
                    # the argument has to be the true byte count: read() itself rejects every count it does not have
                    l = I.lval(e["c"][1], s, fr)[0][0]
                    x = I.fresh("int")
                    s = s.set(l, ("i", x))
                    self.ipn = getattr(self, "ipn", 0) + 1
                    # on success (error none) at least n bytes are there and n >= 0
                    g = I.fresh("long")
                    s = s.assume(OR(("ne", x), AND(ge(n, ZERO), eq(g, n))))
                    s = s.assume(OR(eq(x, ZERO), eq(g, K(-1))))
                    out.append((("ip", g, ZERO, 1), s))
                    continue
                ft = [fr.fn["u"].types[t] for t in e["f"]["pt"]]
                if name.startswith("write_") and len(vs) >= 2 and ft[1].endswith("*"):
                    n, s = I.poly(vs[0], "long", s)
                    I.need(s, ge(n, ZERO), e, fr, "the number of items to copy is not negative")
                    size = SIZES.get(norm(ft[1][:-1]), 1)
                    if vs[1][0] == "ip":
                        I.need(s, ge(vs[1][1], vs[1][2] + n.scale(size)), e, fr, "the items to copy are within the bytes obtained")
                    elif vs[1][0] == "p":
                        cap = I.cap(vs[1][1], s)
                        if cap is not None:
                            c = cap(s) if callable(cap) else cap
                            I.need(s, ge(c, vs[1][2] + n), e, fr, "the items to copy are within the buffer")
                    out.append((U, s))
                    continue
                for i, t in enumerate(ft):
                    if "ForthError" in t and t.endswith("&"):
                        for l, s2 in I.lval(e["c"][i], s, fr):
                            s = s2.set(l, ("i", I.fresh("int")))
                out.append((I.unknown(I.ty(e, fr)), s))
        return out

    def case(self, I, ival, st):
        if self.pause is not None and ival is not None:
            st = st.set(("f", "$case"), ("i", K(ival)))
        need = self.ijk.get(ival)
        if need:
            l = self.fval(I, st, "do_current_depth_")
            return st.assume(ge(l, K(need)))
        return st

    def assigned(self, I, loc, v, st):
        if loc == ("f", "do_current_depth_") and v[0] == "i":
            old = self.fval(I, st, "do_current_depth_")
            if old is not None and (v[1] - old).const() == -1:
                r = self.fval(I, st, "recursion_current_depth_")
                x = st.cells.get(("do_recursion_depth_", old - K(1)))
                ok = x is not None and x[0] == "i" and I.prove(st, OR(AND(ge(x[1], ZERO), ge(x[1], r)), AND(lt(x[1], ZERO), ge(-x[1] - K(1), r))))
                if not I.quiet:
                    self.bad.setdefault("loop pop", []).append(ok)

        if loc == ("f", "recursion_current_depth_") and v[0] == "i" and self.target is not None:
            old = self.fval(I, st, "recursion_current_depth_")
            d = (v[1] - old)
            if d.const() is None and v[1].const() is None:
                # leaving several segments at once: the count was fixed at compile time as the nesting inside the word
                st = st.assume(AND(ge(v[1], self.target + K(1)), ge(old, v[1])))
        return st

    def candidates(self, I, st):
        out = []

        def get(s, n):
            x = s.env.get(("f", n))
            if x is None:
                return A(("f", n))
            return x[1] if x[0] == "i" else None
        pairs = [("stack_depth_", "stack_max_depth_"), ("recursion_current_depth_", "recursion_max_depth_"), ("do_current_depth_", "recursion_max_depth_")]
        for a, b in pairs:
            out.append((("inv", a, "<=max"), lambda s, a=a, b=b: ge(get(s, b), get(s, a)) if get(s, a) is not None else None))
            out.append((("inv", a, ">=0"), lambda s, a=a: ge(get(s, a), ZERO) if get(s, a) is not None else None))
        if self.target is not None:
            for c in (1, 0):
                out.append((("inv", "target", c), lambda s, c=c: ge(get(s, "recursion_current_depth_"), self.target + K(c)) if get(s, "recursion_current_depth_") is not None else None))
        out.append((("inv", "noerr"), lambda s: eq(self.err(I, s), ZERO)))
        return out

    def backedge(self, I, st, node, fr):
        if self.target is not None and fr.depth == 0:
            I.need(st, eq(self.err(I, st), ZERO), node, fr, "the program does not go on after an error")

    def ret(self, I, st, val, node, fr):
        if I.quiet:
            return
        n = node if node is not None else fr.fn
        for w, f in inv_machine(st, I):
            I.need(st, f, n, fr, "on return: " + w)
        if self.target is None:
            return
        e = self.err(I, st)
        c = e.const()
        r = self.fval(I, st, "recursion_current_depth_")
        hc = self.errs.get("user_halt")
        if c is None and I.prove(st, eq(e, ZERO)):
            c = 0
        if c is None or c != hc:
            I.need(st, ge(r, self.target), n, fr, "on return: the depth is not below the target of the run")
        d, m = self.fval(I, st, "stack_depth_"), self.fval(I, st, "stack_max_depth_")
        rm, l = self.fval(I, st, "recursion_max_depth_"), self.fval(I, st, "do_current_depth_")
        if c is not None:
            if c == self.errs["stack_overflow"]:
                I.need(st, eq(d, m), n, fr, "'stack overflow' is reported only when the stack is full")
            elif c == self.errs["stack_underflow"]:
                I.need(st, lt(d, K(3)), n, fr, "'stack underflow' is reported only when the stack is nearly empty")
            elif c == self.errs["recursion_depth_exceeded"]:
                I.need(st, OR(eq(r, rm), eq(l, rm)), n, fr, "'recursion depth exceeded' is reported only at the maximum depth")
            elif c == self.errs["division_by_zero"]:
                vs = [v[1] for (b, i), v in st.cells.items() if b == "stack_buffer_" and v[0] == "i"]
                I.need(st, TRUE if any(I.prove(st, eq(v, ZERO)) for v in vs) else ("false",), n, fr,
                       "'division by zero' is reported only for a zero divisor")
            elif c == self.errs["none"]:
                if self.pause is not None and node is not None:
                    k = st.env.get(("f", "$case"))
                    paused = eq(k[1], K(self.pause)) if k is not None and k[0] == "i" else ("false",)
                    I.need(st, OR(paused, ("ne", self.step) if self.step is not None else ("false",), eq(r, self.target)), n, fr,
                           "the program stops without an error only at its end, at 'pause' or when single-stepping")


class InHooks(Hooks):
    def ret(self, I, st, val, node, fr):
        n = node if node is not None else fr.fn
        p = I.load(("f", "pos_"), st, None, None, "long")[0][1]
        L = I.load(("f", "length_"), st, None, None, "long")[0][1]
        I.need(st, ge(p, ZERO), n, fr, "on return: the position is not negative")
        I.need(st, ge(L, p), n, fr, "on return: the position is not beyond the length")
        name = fr.fn["q"].split("::")[-1]
        if name in ("seek", "skip"):
            er = st.env.get(("v", fr.fn["ps"][1]["d"], fr.id))[1]
            p0, n0 = A(("f", "pos_")), self.n0
            to = n0 if name == "seek" else p0 + n0
            request(I, st, n, fr, er, ERRS[name + "_beyond"], OR(lt(to, ZERO), lt(L, to)), eq(p, to), eq(p, p0))
        if name == "read":
            prm = fr.fn["ps"]
            nb = st.env.get(("v", prm[0]["d"], fr.id))
            er = st.env.get(("v", prm[1]["d"], fr.id))
            p0, n0 = A(("f", "pos_")), self.n0
            if val[0] == "null":
                I.need(st, eq(er[1], K(ERRS["read_beyond"])), n, fr, "a failed read reports 'read beyond'")
                I.need(st, eq(p, p0), n, fr, "a failed read leaves the position")
                I.need(st, OR(lt(n0, ZERO), lt(L - p0, n0)), n, fr, "a read fails only when the bytes are not there")
            else:
                I.need(st, eq(er[1], self.e0), n, fr, "a successful read reports no error")
                I.need(st, AND(ge(n0, ZERO), ge(L - p0, n0)), n, fr, "a successful read has all its bytes inside the input")
                I.need(st, eq(p, p0 + n0), n, fr, "a successful read advances by the bytes it returned")


def request(I, st, n, fr, er, code, outside, done, same):
    """an operation that either does what was asked, or reports its own error and changes nothing"""
    I.need(st, OR(eq(er, ZERO), eq(er, K(code))), n, fr, "the error reported is the documented one")
    I.need(st, OR(eq(er, ZERO), outside), n, fr, "an error is reported only for a request out of range")
    I.need(st, OR(("ne", er), done), n, fr, "without an error, the request was carried out")
    I.need(st, OR(eq(er, ZERO), same), n, fr, "with an error, nothing has changed")


class OutHooks(Hooks):

    def capof(self, I, buf):
        if buf == "ptr_":
            return lambda st: I.load(("f", "reserved_"), st, None, None, "long")[0][1]
        return None

    def call(self, I, name, e, st, fr):
        f = e.get("f")
        if not f:
            return None
        if name in ("byteswap16", "byteswap32", "byteswap64"):
            out = []
            for vs, s in I.args(e, st, fr):
                out.append((U, I.clobber(e, vs, s, fr) if vs[1][0] == "addr" else s))
                size = {"byteswap16": 2, "byteswap32": 4, "byteswap64": 8}[name]
                n, s = I.poly(vs[0], "long", s)
                I.need(s, ge(n, ZERO), e, fr, "the number of items to swap is not negative")
                if vs[1][0] == "ip":
                    I.need(s, ge(vs[1][1], vs[1][2] + n.scale(size)), e, fr, "byte swapping stays inside the values")
                elif vs[1][0] == "addr":
                    a = strip(e["c"][1])
                    t = I.ty(a["c"][0], fr) if a["k"] == "un" else ""
                    have = SIZES.get(norm(t))
                    if have:
                        I.need(s, AND(ge(n, ZERO), ge(K(have), n.scale(size))), e, fr, "byte swapping stays inside the value")
            return out
        return None

    def ret(self, I, st, val, node, fr):
        if I.quiet:
            return
        n = node if node is not None else fr.fn
        ln = I.load(("f", "length_"), st, None, None, "long")[0][1]
        rs = I.load(("f", "reserved_"), st, None, None, "long")[0][1]
        I.need(st, ge(ln, ZERO), n, fr, "on return: the length is not negative")
        I.need(st, ge(rs, ln), n, fr, "on return: the length is within the reservation")
        name = fr.fn["q"].split("::")[-1]
        if name in ("rewind", "dup"):
            er = st.env.get(("v", fr.fn["ps"][1]["d"], fr.id))[1]
            l0, n0 = A(("f", "length_")), self.n0
            if name == "rewind":
                request(I, st, n, fr, er, ERRS["rewind_beyond"], OR(lt(n0, ZERO), lt(l0, n0)), eq(ln, l0 - n0), eq(ln, l0))
            else:
                request(I, st, n, fr, er, ERRS["rewind_beyond"], eq(l0, ZERO), OR(lt(n0, K(1)), eq(ln, l0 + n0)), eq(ln, l0))
        v = st.env.get(("f", "ptr_"))
        if v is not None and v[0] == "sp" and v[1] != "ptr_":
            cap = I.cap(v[1], st)
            if cap is not None:
                I.need(st, ge(cap, rs), n, fr, "on return: the reservation is within the allocated buffer")
        elif v is None or v[0] == "sp":
            I.need(st, ge(A(("f", "reserved_")), rs), n, fr, "on return: the reservation did not grow without a new buffer")


def errors_enum(prog):
    for q, e in prog.enums.items():
        if q.endswith("ForthError"):
            return {n: v for n, v in e["v"]}
    raise AnalysisBroken("enum ForthError not found")


def report(I):
    return [(ok, where, "%s: %s" % (fn.replace("awkward::", ""), msg)) for (where, msg, fn), ok in sorted(I.obs.items())]


PROG = ERRS = IJK = PAUSE = None


def task(t):
    sys.setrecursionlimit(20000)
    kind, key = t
    fn = PROG.funcs[key]
    return {"in": input_method, "out": output_method, "mach": machine_method, "ctor": machine_ctor}[kind](fn)


def methods(prog, cls):
    return [f for f in prog.funcs.values() if f.get("cls") == cls and "body" in f]


def run():
    global PROG, ERRS, IJK, PAUSE
    import multiprocessing as mp
    ck = Check("C05", "abstract interpretation over the clang AST", __doc__)
    prog = PROG = Program().load("libawkward", lambda p: "/forth/" in p)
    ERRS = errors_enum(prog)
    words = word_table(prog)
    IJK = {words[w]: k for w, k in (("i", 1), ("j", 2), ("k", 3)) if w in words}
    PAUSE = pause_code(prog)
    if len(IJK) != 3:
        raise AnalysisBroken("words i, j, k not found")
    tasks = []
    n = {"in": 0, "out": 0, "mach": 0, "ctor": 0}
    for fn in prog.funcs.values():
        cls = fn.get("cls") or ""
        name = fn["q"].split("::")[-1]
        kind = None
        if "body" not in fn or name.startswith("~") or fn.get("dtor"):
            continue
        if cls == "awkward::ForthInputBuffer" and not fn.get("ctor") and not fn.get("static"):
            kind = "in"
        elif cls == "awkward::ForthOutputBuffer" or cls.startswith("awkward::ForthOutputBufferOf<"):
            # private helpers are analysed inside their callers
            if not (name.startswith("to") or acc(prog, fn) == "private" or fn.get("ctor") and cls == "awkward::ForthOutputBuffer"):
                kind = "out"
        elif cls.startswith("awkward::ForthMachineOf<"):
            if fn.get("ctor"):
                kind = "ctor"
            elif name in MACHINE_ROOTS:
                kind = "mach"
        if kind:
            n[kind] += 1
            tasks.append((kind, fn["key"]))
    tasks.sort(key=lambda t: 0 if "internal_run" in t[1] else 1)
    with mp.get_context("fork").Pool(JOBS) as pool:
        for res in pool.imap(task, tasks, chunksize=1):
            for ok, where, what in res:
                ck.ob(ok, where, what)
    compile_time(ck, prog)
    bindings(ck)
    ck.floor("input_buffer_methods", n["in"], 5)
    ck.floor("output_buffer_methods", n["out"], 200)
    ck.floor("machine_roots", n["mach"] + n["ctor"], 10)
    ck.assumptions = ["memory exhaustion is excluded", "operands in the bytecode were put there by the compiler (C06)",
                      "64-bit counters that advance by one do not reach 2**63"]
    return ck.finish()


MACHINE_ROOTS = ("internal_run", "begin", "step", "run", "resume", "call", "reset", "stack_clear", "stack", "string_at",
                 "current_bytecode_position", "current_instruction")


def acc(prog, fn):
    return "private" if fn["q"].split("::")[-1] in ("write_one", "write_copy", "maybe_resize", "write_add") else "public"


def input_method(fn):
    h = InHooks()
    I = Interp(PROG, h)
    st = State({}, (), {})
    p, L = I.named("pos_"), I.named("length_")
    st = st.assume(AND(ge(p, ZERO), ge(L, p)))
    for i, prm in enumerate(fn["ps"]):
        t = fn["u"].types[prm["t"]]
        x = I.fresh(norm(t))
        st = st.set(("v", prm["d"], "param"), ("i", x))
        if i == 0:
            h.n0 = x
        if i == 1:
            h.e0 = x
            st = st.assume(eq(x, ZERO))
    I.run(fn, st)
    return report(I)


def output_method(fn):
    name = fn["q"].split("::")[-1]
    h = OutHooks()
    I = Interp(PROG, h)
    st = State({}, (), {})
    if not fn.get("ctor"):
        ln, rs = I.named("length_"), I.named("reserved_")
        st = st.assume(AND(ge(ln, ZERO), ge(rs, ln), ge(K(2**60), rs)))
    nn = None
    for i, prm in enumerate(fn["ps"]):
        t = fn["u"].types[prm["t"]]
        if norm(t) in RANGES:
            x = I.fresh(norm(t))
            st = st.set(("v", prm["d"], "param"), ("i", x))
            if fn.get("ctor"):
                st = st.assume(ge(x, ZERO))      # new OUT[n] throws for a negative n
            if i == 0:
                h.n0 = x
            if i == 1 and name in ("rewind", "dup"):
                st = st.assume(eq(x, ZERO))
            if i == 0 and name == "dup":
                st = st.assume(ge(K(2**60), x))  # more cannot be allocated
            if i == 0 and len(fn["ps"]) > 1 and fn["u"].types[fn["ps"][1]["t"]].endswith("*"):
                # established at the call sites in the machine
                st = st.assume(AND(ge(x, ZERO), ge(K(2**60), x)))
                nn = x
        elif t.endswith("*") and nn is not None:
            size = SIZES.get(norm(t[:-1]), 1)
            st = st.set(("v", prm["d"], "param"), ("ip", nn.scale(size), ZERO, size))
    I.run(fn, st)
    return report(I)


def machine_method(fn):
    name = fn["q"].split("::")[-1]
    h = MachineHooks(None, PROG, ERRS, IJK)
    I = Interp(PROG, h)
    st = State({}, (), {})
    for w, f in inv_machine(st, I):
        st = st.assume(f)
    h.vec = name == "string_at"
    if name == "internal_run":
        h.pause = PAUSE
        if norm(fn["u"].types[fn["ps"][0]["t"]]) == "bool":
            h.step = I.fresh("bool", "single_step")
            st = st.set(("v", fn["ps"][0]["d"], "param"), ("i", h.step))
        t = I.fresh("long", "target")
        h.target = t
        st = st.set(("v", fn["ps"][1]["d"], "param"), ("i", t))
        st = st.assume(AND(ge(t, ZERO), ge(I.named("recursion_current_depth_"), t)))
        st = st.set(("f", "current_error_"), ("i", ZERO))
    I.run(fn, st)
    out = report(I)
    for k, oks in h.bad.items():
        out.append((all(oks), loc(fn), "%s: a loop is dropped from the loop stack only if it belongs to the segments being left" % fn["q"]))
    return out


def machine_ctor(fn):
    h = MachineHooks(None, PROG, ERRS, IJK)
    I = Interp(PROG, h)
    st = State({}, (), {})
    h.ret = lambda *a: None
    for prm in fn["ps"]:
        t = fn["u"].types[prm["t"]]
        if norm(t) in RANGES:
            st = st.set(("v", prm["d"], "param"), ("i", I.fresh(norm(t))))
    res, fr = I.run(fn, st)
    out = []
    for v, s in res:
        for b, m in h.BUFS.items():
            x = s.env.get(("f", b))
            cap = s.env.get(("cap", x[1])) if x is not None and x[0] == "p" else None
            mx = s.env.get(("f", m))
            ok = cap is not None and mx is not None and mx[0] == "i" and I.prove(s, ge(cap, mx[1]))
            out.append((ok, loc(fn), "%s: %s is allocated with at least %s elements" % (fn["q"], b, m)))
        for m in set(h.BUFS.values()):
            mx = s.env.get(("f", m))
            s = s.assume(ge(mx[1], ZERO))        # new T[n] with a negative n throws
        for w, f in inv_machine(s, I):
            out.append((I.prove(s, f), loc(fn), "%s establishes: %s" % (fn["q"], w)))
    return out


def word_table(prog):
    """builtin word -> bytecode, from the initialiser of the generic table"""
    out = {}
    for q, g in prog.globals.items():
        if "generic_builtin_words" in q:
            for n in walk(g["init"]) if g.get("init") else []:
                if n["k"] in ("ctor", "ilist", "init"):
                    c = [strip(x) for x in n.get("c", [])]
                    if len(c) == 2:
                        s = [y for y in walk(c[0]) if y["k"] == "str"]
                        i = [y for y in walk(c[1]) if y["k"] == "int"]
                        if len(s) == 1 and len(i) == 1:
                            out[s[0]["v"]] = i[0]["v"]
    return out


def pause_code(prog):
    """the instruction that the word 'pause' compiles to"""
    out = set()
    for fn in prog.funcs.values():
        if (fn.get("cls") or "").startswith("awkward::ForthMachineOf<") and fn["q"].split("::")[-1] == "parse" and "body" in fn:
            for x in walk(fn["body"]):
                if x["k"] == "if" and strings(x["cond"]) == {"pause"}:
                    for y in walk(x["then"]):
                        if y["k"] == "call" and y.get("f") and y["f"]["q"].endswith("push_back"):
                            out |= {z["v"] for z in walk(y) if z["k"] == "int"}
    return out.pop() if len(out) == 1 else None


# --------------------------------------------------- what the compiler ensures
def enclosing(root):
    """node id -> list of conditions of the if statements whose then branch contains it"""
    out = {}

    def go(n, conds):
        out[id(n)] = conds
        if n.get("k") == "if":
            for c in ("cond", "init", "var"):
                if isinstance(n.get(c), dict):
                    go(n[c], conds)
            go(n["then"], conds + [n["cond"]])
            if n.get("else"):
                go(n["else"], conds)
            return
        for c in children(n):
            go(c, conds)
    go(root, [])
    return out


def strings(n):
    return {x["v"] for x in walk(n) if x["k"] == "str"}


def linear(e, ps):
    """(param index or None, constant) of param + c"""
    e = strip(e)
    if e["k"] == "int":
        return None, e["v"]
    if e["k"] == "ref" and e.get("d") in ps:
        return ps[e["d"]], 0
    if e["k"] == "bin" and e["op"] in "+-":
        a, b = linear(e["c"][0], ps), linear(e["c"][1], ps)
        if a and b and (a[0] is None or b[0] is None) and not (e["op"] == "-" and b[0] is not None):
            return (a[0] if a[0] is not None else b[0]), a[1] + (b[1] if e["op"] == "+" else -b[1])
    return None


def compile_time(ck, prog):
    n = 0
    for fn in prog.funcs.values():
        if not (fn.get("cls") or "").startswith("awkward::ForthMachineOf<") or fn["q"].split("::")[-1] != "parse" or "body" not in fn:
            continue
        ps = {p["d"]: i for i, p in enumerate(fn["ps"])}
        enc = enclosing(fn["body"])
        do_i, exit_i = len(fn["ps"]) - 1, len(fn["ps"]) - 2
        # the words i, j and k are refused outside of enough loops
        seen = {}
        for x in walk(fn["body"]):
            if x["k"] != "if" or not any(y["k"] == "throw" for y in walk(x["then"])):
                continue
            for w, k in (("i", 1), ("j", 2), ("k", 3)):
                if w in strings(x["cond"]):
                    for c in walk(x["cond"]):
                        if c["k"] == "bin" and c["op"] in ("<", "<=", ">", ">="):
                            a, b = linear(c["c"][0], ps), linear(c["c"][1], ps)
                            op = c["op"]
                            if a and b and a[0] is None and b[0] == do_i:
                                a, b, op = b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
                            if a and b and a[0] == do_i and b[0] is None and op in ("<", "<="):
                                least = b[1] - a[1] + (1 if op == "<=" else 0)   # refused when dodepth < least
                                seen[w] = True
                                ck.ob(least >= k, loc(fn, x), "the word '%s' is refused with fewer than %d enclosing loops" % (w, k))
        for w in "ijk":
            ck.ob(w in seen or w in strings(fn["body"]), loc(fn), "the word '%s' is refused outside of loops" % w)
        # nested segments
        for x in walk(fn["body"]):
            if x["k"] == "call" and x.get("f") and x["f"]["q"] == fn["q"] and len(x["c"]) == len(fn["ps"]):
                ex, do = linear(x["c"][exit_i], ps), linear(x["c"][do_i], ps)
                if not ex or not do:
                    continue
                n += 1
                words = set()
                for c in enc[id(x)]:
                    words |= strings(c)
                if do[0] is None:
                    ck.ob(do[1] == 0, loc(fn, x), "a definition starts outside of any loop")
                    ck.ob(ex == (None, 0), loc(fn, x), "'exit' in a definition leaves that definition")
                else:
                    inner = do[0] == do_i and do[1]
                    ck.ob(do[0] == do_i and (inner == 0 or inner == 1 and "do" in words), loc(fn, x), "the number of enclosing loops grows by one in the body of 'do', and nowhere else")
                    ck.ob(ex == (exit_i, 1), loc(fn, x), "'exit' in a nested segment leaves one segment more")
    ck.floor("nested_segments_compiled", n, 4)


def bindings(ck):
    prog = Program().load("python", lambda p: p.endswith("forth.cpp"))
    n = 0
    for fn in prog.funcs.values():
        if "body" not in fn or not fn["path"].startswith("src/python"):
            continue
        for x in walk(fn["body"]):
            if x["k"] == "call" and x.get("f") and x["f"]["q"].split("::")[-1] in ("stack_push", "stack_pop") and "ForthMachine" in (x["f"].get("cls") or ""):
                n += 1
        for x in walk(fn["body"]):
            if x["k"] != "lambda" or not x.get("body"):
                continue
            if any(y is not x and y["k"] == "lambda" for y in walk(x["body"])):
                continue
            if not any(y["k"] == "call" and y.get("f") and y["f"]["q"].split("::")[-1] in ("stack_push", "stack_pop") for y in walk(x["body"])):
                continue
            h = BindHooks()
            I = Interp(prog, h)
            fr = Frame(dict(fn), None, this=False)
            fr.retref = False
            I.exec(x["body"], [State({}, (), {})], fr)
            for ok, where, what in report(I):
                ck.ob(ok, where, what)
    ck.floor("stack_accesses_in_bindings", n, 2)


class BindHooks(Hooks):
    inline_free = False

    def call(self, I, name, e, st, fr):
        if name in ("stack_can_push", "stack_can_pop"):
            return [(("i", I.named(name, "bool")), st)]
        if name in ("stack_push", "stack_pop"):
            I.need(st, eq(I.named("stack_can_" + name[6:], "bool"), K(1)), e, fr, "the stack is accessed only after asking whether it can be")
            return [(I.unknown(I.ty(e, fr)), st)]
        return None
