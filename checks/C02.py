"""C02: existing arrays are never modified.

(a) kernels: every store in the LLVM IR of an exported kernel goes to a stack
    slot, a heap block of its own or an argument that the specification
    declares as output (interprocedural over helpers that are not inlined);
(b) library: the storage behind every output argument of a kernel call, every
    memcpy destination, every element store and every receiver of a mutating
    method was allocated by the operation itself (AST provenance analysis);
(c) bindings and Python layer: mutating methods of nodes are only called by
    the documented setters; NumPy buffers of existing arrays are not written."""
import os
import yaml
from vlib.core import Program, Check, REPO, walk, loc, tstr, strip
from vlib.prov import Prov, THIS, OWN, dname, isptr
from vlib.ssa import load_ir

MUTABLE = ("Builder", "GrowableBuffer", "Forth", "ToJson", "Handler", "Iterator", "ArrayGenerator", "SliceGenerator", "ArrayCache",
           "LibraryCallback", "LibraryPathCallback", "FileLikeObject", "Options")


def load_spec():
    return yaml.load(open(os.path.join(REPO, "kernel-specification.yml")), Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader))["kernels"]


# ------------------------------------------------------------------ kernels
class Effects:
    """argument numbers a function may store through"""

    def __init__(self, fns):
        self.fns = fns
        self.memo = {}

    def ptrs(self, fn, v, seen):
        """roots, following pointers kept in stack slots"""
        out = set()
        for r in fn.roots(v):
            if r[0] == "v":
                i = fn.ins[r[1]]
                if i["op"] == "load" and r not in seen:
                    s2 = seen | {r}
                    for slot in fn.roots(i["c"][0]):
                        if slot[0] == "v" and fn.ins[slot[1]]["op"] == "alloca":
                            for j in fn.ins.values():
                                if j["op"] == "store" and slot in fn.roots(j["c"][1]):
                                    out |= self.ptrs(fn, j["c"][0], s2)
                        elif slot[0] == "arg":
                            out.add(("via", slot[1]))
                    continue
                if i["op"] in ("inttoptr", "bitcast", "addrspacecast", "freeze", "ptrtoint") and r not in seen:
                    out |= self.ptrs(fn, i["c"][0], seen | {r})
                    continue
            out.add(r)
        return out

    def writes(self, name):
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = {}
        changed = True
        while changed:
            changed = False
            res = self._once(self.fns[name])
            if set(res) != set(self.memo[name]):
                changed = True
            self.memo[name] = res
        return self.memo[name]

    def _once(self, fn):
        out = {}

        def note(v, i):
            for r in self.ptrs(fn, v, frozenset()):
                if r[0] in ("arg", "via"):
                    out.setdefault(r[1], i)
        for i in fn.ins.values():
            if i["op"] == "store":
                note(i["c"][1], i)
            elif i["op"] in ("call", "invoke"):
                c = i.get("callee") or ""
                a = i.get("c", [])
                if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or c in ("memcpy", "memmove", "memset", "strcpy", "strncpy"):
                    note(a[0], i)
                elif c in self.fns:
                    w = self.writes(c)
                    names = {self.fns[c].argname(k): k for k in range(len(self.fns[c].args))}
                    for q in w:
                        k = names.get(q)
                        if k is not None and k < len(a):
                            note(a[k], i)
            elif i["op"] in ("atomicrmw", "cmpxchg"):
                note(i["c"][0], i)
        return out


def kernels(ck, spec):
    fns = load_ir("kernels")
    eff = Effects(fns)
    written = {}
    n = 0
    for k in spec:
        for s in k["specializations"]:
            fn = fns.get(s["name"])
            if fn is None:
                continue
            n += 1
            sret = 1 if len(fn.args) == len(s["args"]) + 1 else 0
            w = eff.writes(s["name"])
            pos = {fn.argname(q): q for q in range(len(fn.args))}
            for q, a in enumerate(s["args"]):
                if "List" not in a["type"]:
                    continue
                if q + sret >= len(fn.args):
                    continue
                nm = fn.argname(q + sret)
                i = w.get(nm)
                if i is not None:
                    written.setdefault(s["name"], set()).add(q)
                if "Const[" in a["type"]:
                    ck.ob(i is None, fn.loc(i) if i is not None else fn.src,
                          "%s does not write through its input argument %s" % (s["name"], a["name"]))
                    ck.count("kernel_input_arguments")
    ck.floor("kernels_analysed", n, 500)
    ck.cov["kernels_writing_arguments"] = len(written)
    return written


# ------------------------------------------------------------------ library
def dispatch_table(p, spec, written):
    """mangled dispatch function -> parameter numbers the kernel behind it writes"""
    wr = {}
    for k in spec:
        for sp in k["specializations"]:
            w = set(written.get(sp["name"], ()))
            w |= {q for q, a in enumerate(sp["args"]) if a["dir"] != "in"}
            wr[sp["name"]] = w
    t = {}
    for f in p.funcs.values():
        if not f["q"].startswith("awkward::kernel::") or "body" not in f:
            continue
        pos = {a["d"]: q for q, a in enumerate(f["ps"])}
        for x in walk(f["body"]):
            if x.get("k") == "call" and x.get("f") and x["f"]["q"] in wr:
                for q in wr[x["f"]["q"]]:
                    if q < len(x["c"]):
                        for y in walk(x["c"][q]):
                            if y.get("k") == "ref" and y["d"] in pos:
                                t.setdefault(f["m"], set()).add(pos[y["d"]])
                t.setdefault(f["m"], set())
    return t


def mkoutargs(p, spec, written, stat):
    t = dispatch_table(p, spec, written)
    stat["dispatch"] = len(t)

    def outargs(x, fn):
        q = x["f"]["q"]
        if not q.startswith("awkward::kernel::"):
            return None
        n = q.split("::")[-1]
        if n in ("copy_to", "index_setitem_at_nowrap"):
            a = [c for c in x["c"] if isptr(tstr(strip(c), fn)) or isptr(tstr(c, fn))]
            return [("to_ptr", a[0])] if a else []
        w = t.get(x["f"]["m"])
        if w is None:
            if n == "malloc":
                return None
            stat["unmapped"].add(n)
            return []
        stat["kernel_calls"] += 1
        stat["output_arguments"] += len(w)
        return [(str(q), x["c"][q]) for q in sorted(w) if q < len(x["c"])]
    return outargs


def mutable_class(f):
    c = f.get("cls") or f["q"]
    c = c.split("<")[0].split("::")[-1] if f.get("cls") else "::".join(c.split("::")[:-1])
    return any(m in c for m in MUTABLE)


def immut_target(x, fn):
    """is the receiver's class one of the immutable ones (for mutator calls)"""
    f = x.get("f") or {}
    c = (f.get("cls") or "").split("<")[0].split("::")[-1]
    return not any(m in c for m in MUTABLE)


def const_param(fn, i):
    t = fn["u"].types[fn["pt"][i]] if i < len(fn["pt"]) else ""
    return t.startswith("const ") and t.endswith("&") and "awkward::" in t


def library(ck, spec, written):
    p = Program()
    p.load("libawkward")
    stat = {"kernel_calls": 0, "output_arguments": 0, "unmapped": set()}
    pv = Prov(p, mkoutargs(p, spec, written, stat), lambda g: g["q"].startswith("awkward::kernel::"))
    fns = [f for f in p.funcs.values() if "body" in f and not f["q"].startswith("awkward::kernel::")]
    pv.solve(fns)
    nw = 0
    for f in fns:
        if mutable_class(f):
            continue
        for orig, x, what in pv.writes(f):
            nw += 1
            bad = None
            for r in orig:
                if r[0] == "this":
                    if f.get("ctor") or f.get("dtor") or pv.mutator(f):
                        continue
                    if x.get("k") == "call" and what.startswith("call of") and not immut_target(x, f):
                        continue
                    bad = "the array it is called on"
                elif r[0] == "param":
                    if r[-1] != "own" and const_param(f, r[1]) and not f.get("ctor"):
                        bad = "what its parameter %s refers to" % f["ps"][r[1]]["n"]
            ck.ob(bad is None, loc(f, x), "%s: %s writes %s" % (f["q"], what, bad or "only storage of its own"))
    ck.floor("library_write_sites", nw, 4000)
    ck.floor("dispatch_functions", stat["dispatch"], 600)
    ck.cov["unmapped_kernel_functions"] = sorted(stat["unmapped"])
    ck.floor("library_output_arguments", stat["output_arguments"], 1000)
    # state that could change behind const
    n = 0
    for t, r in p.recs.items():
        if not t.startswith("awkward::") or any(m in t.split("<")[0].split("::")[-1] for m in MUTABLE):
            continue
        for fl in r.get("fields", []):
            n += 1
            ck.ob(not fl.get("mutable"), "%s:%d" % (r["path"], r["l"]), "%s::%s is not mutable" % (t, fl["n"]))
    ck.floor("node_fields", n, 100)
    return p, pv


SETTERS = {"setidentities", "setparameter", "setparameters", "setitem_at_nowrap", "append", "become_sealed"}


def bindings(ck, spec, pv):
    p = Program()
    p.load("python")
    n = 0
    for f in p.funcs.values():
        if "body" not in f or not f["path"].startswith("src/python"):
            continue
        for x in walk(f["body"]):
            if x.get("k") != "call" or not x.get("f") or not x.get("obj"):
                continue
            g = x["f"]
            c = g.get("cls", "")
            if not c.startswith("awkward::") or any(m in c.split("<")[0].split("::")[-1] for m in MUTABLE):
                continue
            if g.get("const") or g.get("static"):
                continue
            n += 1
            nm = g["q"].split("::")[-1]
            o = strip(x["obj"])
            local = o["k"] == "ref" and o.get("dk") == "var" and not tstr(o, f).endswith("&") and not isptr(tstr(x["obj"], f))
            ck.ob(nm in SETTERS or nm.startswith("operator") or local, loc(f, x),
                  "%s calls the mutating method %s on an existing node" % (f["q"], g["q"]))
    ck.floor("binding_mutator_calls", n, 5)


def python_layer(ck):
    from vlib.pyprov import Module, Analysis
    n = nf = 0
    top = os.path.join(REPO, "src/awkward")
    for d, ds, fs in os.walk(top):
        rel = os.path.relpath(d, REPO)
        ds[:] = [x for x in sorted(ds) if x not in ("_v2", "_typeparser", "_numba", "_jax", "__pycache__")]
        for b in sorted(fs):
            if not b.endswith(".py") or b == "nplike.py":
                continue
            m = Module(os.path.join(d, b), os.path.join(rel, b))
            a = Analysis(m)
            nf += len(m.funcs)
            for f, line, kind, bad in a.violations():
                n += 1
                ck.ob(bad is None, "%s:%d" % (m.rel, line), "%s: %s writes %s" % (f.qual, kind, bad or "only arrays made here"))
    ck.floor("python_write_sites", n, 60)
    ck.floor("python_functions", nf, 400)


def run():
    ck = Check("C02", "store-effect analysis of the kernels' LLVM IR + storage-provenance analysis over the clang AST and the Python AST",
               "kernels store only through output arguments; the library passes only storage allocated by the operation as outputs, "
               "writes and mutates only what it allocated; Python operations write only arrays they created")
    spec = load_spec()
    written = kernels(ck, spec)
    p, pv = library(ck, spec, written)
    bindings(ck, spec, pv)
    python_layer(ck)
    return ck.finish()
