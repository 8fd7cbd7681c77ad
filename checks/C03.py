"""C03: kernel dispatch is faithful and exhaustive.

(1) every dispatch function (namespace awkward::kernel, a backend parameter):
    path-sensitive dataflow of the backend value; under cpu exactly the kernel
    of its own name is called, with the caller's arguments in order and only
    complex->component pointer reinterpretation; under cuda the same symbol or
    a throw; no normal exit for any other backend value.
(2) every exported (extern "C") specialisation forwards its parameters, in
    order and uncast, to the template of its own kernel.
(3) every specialisation in kernel-specification.yml exists with the specified
    number, type and constness of arguments."""
import re
from vlib.core import *
from vlib.cfg import CFG, NoReturn, single_defs, written_vars

WIDTH = {"bool": 1, "signed char": 8, "unsigned char": 8, "char": 8, "short": 16, "unsigned short": 16, "int": 32,
         "unsigned int": 32, "long": 64, "unsigned long": 64, "float": 32, "double": 64}
ALL = frozenset(["cpu", "cuda", "other"])

TYPETOK = re.compile(r"^(u?int(8|16|32|64)|float(16|32|64|128)?|complex(64|128|256)?|bool|U?(8|16|32|64)|"
                     r"to(U?(8|16|32|64)|u?int(8|16|32|64)|float(32|64)|bool|complex(64|128))|"
                     r"from(U?(8|16|32|64)|u?int(8|16|32|64)|float(32|64)|bool|complex(64|128))|"
                     r"tocomplex|fromcomplex|tobool|frombool|impl)$")


def norm(name):
    n = name
    if n.startswith("awkward_"):
        n = n[len("awkward_"):]
    out = []
    for tok in n.split("_"):
        if TYPETOK.match(tok):
            continue
        t = re.sub(r"(U?(8|16|32|64)|float(32|64)|bool)$", "", tok)
        # embedded widths: simplify32, to64, mask8, ListArrayU32
        out.append(t.lower())
    out = [t for t in out if t not in ("", "to", "from")]
    if out and out[0] == "numpyarray" and len(out) > 1 and out[1] in ("sort", "argsort", "quick"):
        out = out[1:]
    return "_".join(out)


# dispatch functions whose kernel has a different base name, one reason each
ALIAS = {
    "identities_to_identities": "identities_to_identities",
}


def is_lib(t):
    return "awkward::kernel::lib" in t and "*" not in t


class Dispatch:
    def __init__(self, p, ck):
        self.p, self.ck = p, ck
        self.nr = NoReturn(p)

    def libcond(self, e, fn, lib):
        """(value, polarity) for leaf `lib == X`"""
        e = strip(e)
        if e["k"] == "ref" and e.get("dk") == "var" and e["d"] in single_defs(fn):
            return self.libcond(single_defs(fn)[e["d"]], fn, lib)
        if e["k"] in ("bin", "call") and e.get("op") in ("==", "!="):
            a, b = strip(e["c"][0]), strip(e["c"][1])
            for x, y in ((a, b), (b, a)):
                if x["k"] == "ref" and x["d"] in lib and y["k"] == "ref" and y.get("dk") == "enum":
                    v = y["n"] if y["n"] in ("cpu", "cuda") else "other"
                    return v, e["op"] == "=="
        return None

    def arg(self, e, fn):
        """(param decl or None, how) of a forwarded argument"""
        sd = single_defs(fn)
        casts = []
        while True:
            if e["k"] in ("icast", "cast"):
                casts.append((tstr(e["c"][0], fn), tstr(e, fn)))
                e = e["c"][0]
                continue
            if e["k"] == "ref" and e.get("dk") == "var" and e["d"] in sd:
                e = sd[e["d"]]
                continue
            if e["k"] == "ctor" and len(e["c"]) == 1:
                e = e["c"][0]
                continue
            break
        if e["k"] == "ref" and e.get("dk") == "parm":
            if e["d"] in written_vars(fn):
                return None, "?", casts
            return e["d"], "id", casts
        if e["k"] == "bin" and e["op"] == "*":
            a, b = strip(e["c"][0]), strip(e["c"][1])
            if a["k"] == "int":
                a, b = b, a
            if a["k"] == "ref" and a.get("dk") == "parm" and b["k"] == "int" and b["v"] == 2:
                return a["d"], "x2", casts
        if e["k"] == "call" and e.get("obj") and e["f"]["q"].split("::")[-1] == "real":
            o = strip(e["obj"])
            if o["k"] == "ref" and o.get("dk") == "parm":
                return o["d"], "real", casts
        return None, "?", casts

    def run(self, fn):
        ck, u = self.ck, fn["u"]
        params = [q for q in fn["ps"] if not is_lib(u.types[q["t"]])]
        lib = {q["d"] for q in fn["ps"] if is_lib(u.types[q["t"]])}
        cfg = CFG(fn["body"], self.nr)
        state = {cfg.entry.id: ALL}
        work = [cfg.entry]
        while work:
            n = work.pop()
            s = state[n.id]
            for t, lab in n.succ:
                s2 = s
                if n.kind == "cond" and lab in (True, False):
                    r = self.libcond(n.ast, fn, lib)
                    if r:
                        s2 = s & {r[0]} if (lab == r[1]) and r[0] != "other" else (s - {r[0]} if r[0] != "other" else s)
                elif n.kind == "switch":
                    c = strip(n.ast)
                    if c["k"] == "ref" and c["d"] in lib:
                        if isinstance(lab, tuple):
                            v = {0: "cpu", 1: "cuda"}.get(lab[1], "other")
                            s2 = s & {v}
                        else:
                            # default: values without a case
                            vals = set()
                            for t2, l2 in n.succ:
                                if isinstance(l2, tuple):
                                    vals.add({0: "cpu", 1: "cuda"}.get(l2[1]))
                            s2 = s - vals
                if not s2:
                    continue
                old = state.get(t.id)
                new = s2 if old is None else old | s2
                if new != old:
                    state[t.id] = new
                    work.append(t)
        name = fn["q"] + ("<%s>" % fn["ta"] if fn.get("ta") else "")
        return cfg, state, params, name

    def check(self, fn):
        ck, u = self.ck, fn["u"]
        cfg, state, params, name = self.run(fn)
        cpu, strs, fps = [], [], []
        for n in cfg.nodes:
            if n.ast is None or n.id not in state or n.kind in ("join", "catch"):
                continue
            for x in walk_nolambda(n.ast):
                if x.get("k") != "call":
                    continue
                if x.get("f") and re.match(r"awkward_", x["f"]["q"]):
                    cpu.append((x, state[n.id]))
                elif x.get("f") and x["f"]["q"].endswith("acquire_symbol"):
                    for y in walk_nolambda(x):
                        if y.get("k") == "str":
                            strs.append((y["v"], state[n.id], y))
                elif x.get("fn") is not None:
                    fps.append((x, state[n.id]))
        for x, s in cpu:
            sym = x["f"]["q"]
            ck.count("cpu_calls")
            ck.ob(s == {"cpu"}, loc(fn, x), "%s: %s is called only for the cpu backend" % (name, sym))
            a, b = norm(sym), norm(fn["n"])
            ck.ob(a == b, loc(fn, x), "%s dispatches to %s, a different kernel" % (name, sym))
            self.args(fn, x, params, name, sym)
        csym = {x["f"]["q"] for x, s in cpu}
        for v, s, y in strs:
            ck.count("cuda_symbols")
            ck.ob(not csym or v in csym, loc(fn, y), "%s: the CUDA branch looks up %s but the CPU branch calls %s" % (name, v, sorted(csym)))
        for x, s in fps:
            ck.ob("cpu" not in s, loc(fn, x), "%s: the loaded symbol is called only for its own backend" % name)
            if cpu:
                self.args(fn, x, params, name, "(CUDA symbol)")
        # under cpu a normal exit must have passed a cpu kernel call
        if cpu or fps:
            ex = state.get(cfg.exit.id, frozenset())
            ck.ob("other" not in ex, loc(fn), "%s: an unknown backend cannot return normally" % name)
        if cpu:
            ids = set()
            for n in cfg.nodes:
                if n.ast is not None and n.kind not in ("join", "catch"):
                    for x in walk_nolambda(n.ast):
                        if x.get("k") == "call" and (x.get("fn") is not None or (x.get("f") and re.match(r"awkward_", x["f"]["q"]))):
                            ids.add(n.id)
            seen, st = set(), [cfg.entry]
            bad = False
            while st:
                n = st.pop()
                if n.id in seen or n.id in ids:
                    continue
                seen.add(n.id)
                if n is cfg.exit:
                    bad = True
                for t, lab in n.succ:
                    if t.id in state:
                        st.append(t)
            ck.ob(not bad, loc(fn), "%s: every normal return comes from the kernel" % name)
        return bool(cpu)

    def args(self, fn, x, params, name, sym):
        ck, u = self.ck, fn["u"]
        if len(x["c"]) != len(params):
            ck.ob(False, loc(fn, x), "%s passes %d arguments to %s, has %d" % (name, len(x["c"]), sym, len(params)))
            return
        scaled = any(self.arg(a, fn)[1] == "x2" for a in x["c"])
        for q in params:
            t = u.types[q["t"]]
            if "complex" in t and "*" in t and x.get("f"):
                want = "complex64" if "complex<float>" in t else "complex128"
                ck.ob(scaled or want in sym, loc(fn, x), "%s: %s buffers go to a %s kernel, not to %s" % (name, t, want, sym))
        nptr = sum(1 for q in params if "complex" in u.types[q["t"]] and "*" in u.types[q["t"]])
        for i, (a, q) in enumerate(zip(x["c"], params)):
            d, how, casts = self.arg(a, fn)
            ok = d == q["d"]
            if ok and how == "x2":
                ok = nptr == 2
            if ok and how == "real":
                ok = "complex" in u.types[q["t"]]
            if ok:
                for f, t in casts:
                    if "*" in t or "*" in f:
                        f1 = f.replace("const ", "").replace("std::complex<", "").replace(">", "").strip()
                        t1 = t.replace("const ", "").strip()
                        fc, tc = "const" in f, "const" in t
                        ok = ok and f1 == t1 and (not fc or tc)
                    elif f != t:
                        # value conversion: nothing narrower than what the kernel takes
                        pt = tstr(a, fn)
                        w, src = WIDTH.get(t), WIDTH.get(u.types[q["t"]].replace("const ", ""))
                        if w is not None and src is not None and pt in WIDTH:
                            ok = ok and w >= min(src, WIDTH[pt])
            ck.ob(ok, loc(fn, x), "%s: argument %d of %s is the caller's argument %s" % (name, i + 1, sym, q["n"]))


def run():
    ck = Check("C03", "path-sensitive dispatch dataflow + forwarding identity on the AST",
               "each dispatch entry calls the kernel of its own name with its own parameters in order, only for the cpu backend; "
               "cuda uses the same symbol or throws; no other backend returns; exported specialisations forward identically; "
               "exported signatures agree with kernel-specification.yml")
    import yaml
    p = Program()
    p.load("kernels")
    p.load("libawkward", lambda s: s.startswith("src/libawkward/kernel-dispatch") or "kernel" in os.path.basename(s))
    D = Dispatch(p, ck)
    nd = 0
    for fn in p.funcs.values():
        if not fn["q"].startswith("awkward::kernel::") or "body" not in fn:
            continue
        if not fn["path"].startswith("src/libawkward/"):
            continue
        if any(is_lib(fn["u"].types[q["t"]]) for q in fn["ps"]):
            if D.check(fn):
                nd += 1
    ck.floor("dispatch_functions", nd, 700)
    # ---- exported specialisations
    spec = yaml.load(open(os.path.join(REPO, "kernel-specification.yml")), Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader))["kernels"]
    group, specargs = {}, {}
    for k in spec:
        for s in k["specializations"]:
            group[s["name"]] = k["name"]
            specargs[s["name"]] = s["args"]
    gfull = set(group.values())
    ne = 0
    ext = {f["q"]: f for f in p.funcs.values() if f.get("externc") and f["path"].startswith("src/cpu-kernels") and "body" in f}
    for q, f in sorted(ext.items()):
        g = group.get(q)
        for x in walk_nolambda(f["body"]):
            if x.get("k") != "call" or not x.get("f") or not x["f"]["q"].startswith("awkward_"):
                continue
            callee = x["f"]["q"]
            if callee == "awkward_ListArray_combinations_step_64":
                continue  # recursive step function, its own argument list
            if g is not None and callee in gfull and (q, callee) not in TEMPLATE_ALIAS:
                ck.ob(callee == g, loc(f, x), "%s forwards to %s, the template of another kernel" % (q, callee))
            if norm(callee) != norm(q) and (q, callee) not in TEMPLATE_ALIAS:
                continue
            ne += 1
            pd = [z["d"] for z in f["ps"]]
            got = []
            okc = True
            for a in x["c"]:
                d, how, casts = D.arg(a, f)
                got.append(d if how == "id" else None)
                for c0, c1 in casts:
                    if "*" in c0 or "*" in c1:
                        okc = okc and base_t(c0) == base_t(c1)
            ok = got == pd[:len(got)] and okc
            if ok and len(got) < len(pd):
                ok = boolcombo(f, x, pd[len(got):])
            ck.ob(ok, loc(f, x), "%s forwards its parameters in order to %s%s" % (q, callee, "<%s>" % x["f"].get("ta") if x["f"].get("ta") else ""))
    ck.floor("exported_forwarders", ne, 600)
    # ---- specification
    ns = 0
    for s, args in sorted(specargs.items()):
        f = ext.get(s)
        if f is None:
            ck.ob(False, "kernel-specification.yml", "%s is specified but not exported by any kernel source" % s)
            continue
        ns += 1
        ts = [f["u"].types[z["t"]] for z in f["ps"]]
        want = [ctype(a["type"]) for a in args]
        same = len(ts) == len(want) and all(norm_t(a) == norm_t(b) for a, b in zip(ts, want))
        ck.ob(same, loc(f), "%s: exported signature (%s) agrees with the specification (%s)" % (s, ", ".join(ts), ", ".join(want)))
    ck.floor("specified_kernels", ns, 650)
    return ck.finish()


# exported name -> template, where the file uses a historical template name
TEMPLATE_ALIAS = {
    # file-local template in awkward_carry_SliceMissing64_outindex.cpp
    ("awkward_carry_SliceMissing64_outindex", "awkward_carry_SliceJagged_nextcarry"),
}


def boolcombo(f, call, rest):
    """trailing bool parameters turned into template arguments: under the path
    condition of the call each must equal its template argument"""
    ta = [t.strip() for t in call["f"].get("ta", "").split(",") if t.strip() in ("true", "false")]
    if len(ta) != len(rest):
        return False
    cfg = CFG(f["body"])
    # facts per node: param -> True/False established on all paths
    state = {cfg.entry.id: {}}
    work = [cfg.entry]
    while work:
        n = work.pop()
        s = state[n.id]
        for t, lab in n.succ:
            s2 = dict(s)
            if n.kind == "cond" and lab in (True, False):
                e = strip(n.ast)
                neg = False
                while e["k"] == "un" and e["op"] == "!":
                    e = strip(e["c"][0])
                    neg = not neg
                if e["k"] == "ref" and e["d"] in rest:
                    v = lab != neg
                    if s2.get(e["d"], v) != v:
                        continue
                    s2[e["d"]] = v
            old = state.get(t.id)
            if old is None:
                state[t.id] = s2
                work.append(t)
            else:
                m = {k: v for k, v in old.items() if s2.get(k) == v}
                if m != old:
                    state[t.id] = m
                    work.append(t)
    for n in cfg.nodes:
        if n.ast is not None and n.kind not in ("join",) and any(x is call for x in walk_nolambda(n.ast)):
            s = state.get(n.id, {})
            return all(s.get(d) == (t == "true") for d, t in zip(rest, ta))
    return False


def base_t(t):
    t = t.replace("const ", "").strip()
    return "char *" if t in ("unsigned char *", "signed char *", "char *") else t


def norm_t(t):
    if "*" not in t:
        t = t.replace("const ", "")
        if t in ("float", "double"):
            return "floating"
    return t.replace("signed char", "int8_t").replace("unsigned char", "uint8_t").replace("unsigned short", "uint16_t") \
        .replace("unsigned int", "uint32_t").replace("unsigned long", "uint64_t").replace("short", "int16_t") if "unsigned" in t or "char" in t else t


C = {"int8_t": "signed char", "uint8_t": "unsigned char", "int16_t": "short", "uint16_t": "unsigned short",
     "int32_t": "int", "uint32_t": "unsigned int", "int64_t": "long", "uint64_t": "unsigned long",
     "float": "float", "double": "double", "bool": "bool"}


def ctype(t):
    t = t.strip()
    m = re.match(r"Const\[(.*)\]$", t)
    if m:
        return "const " + ctype(m.group(1))
    depth = 0
    while True:
        m = re.match(r"List\[(.*)\]$", t)
        if not m:
            break
        depth += 1
        t = m.group(1)
    t = t.replace("const ", "")
    c = C.get(t, t)
    return c + (" " + "*" * depth if depth else "")
