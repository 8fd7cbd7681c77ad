"""Shared driver: tool building, AST extraction, evidence, verdicts.

Exit codes of every check: 0 held, 1 + VIOLATION line broken, 3 the analysis
itself could not be carried out (tool or parse failure, vanished anchor)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class AnalysisBroken(Exception):
    pass


# --------------------------------------------------------------------- tools
def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def build_tool(name, libs):
    src = os.path.join(VERIF, "tools", name + ".cpp")
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s" % (name, _sha(_read(src))))
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    cmd = ["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I" + LLVM + "/include",
           src, "-o", tmp] + libs + ["-L" + LLVM + "/lib", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build %s:\n%s" % (name, r.stdout[-3000:]))
    os.replace(tmp, out)
    return out


def astdump_tool():
    return build_tool("astdump", [LLVM + "/lib/libclang-cpp.so.18.1"])


def version_info():
    try:
        return open(os.path.join(REPO, "VERSION_INFO")).read().strip()
    except OSError:
        return "0"


def flags(group):
    f = ["-std=c++11", "-I" + REPO + "/include", "-I" + REPO + "/rapidjson/include",
         "-I" + REPO + "/dlpack/include", "-I/opt/vp/cmake/include",
         '-DVERSION_INFO="%s"' % version_info(), "-DNDEBUG", "-w",
         "-resource-dir", LLVM + "/lib/clang/18"]
    if group == "libawkward":
        f.append("-DLIBAWKWARD_EXPORT_SYMBOL=EXPORT_SYMBOL")
    if group == "python":
        f += ["-isystem", "/usr/include/python3.12", "-D_ext_EXPORTS"]
    return f


def sources(group):
    if group == "kernels":
        pat = "src/cpu-kernels/**/*.cpp"
    elif group == "libawkward":
        pat = "src/libawkward/**/*.cpp"
    elif group == "python":
        pat = "src/python/**/*.cpp"
    else:
        raise AnalysisBroken("unknown group " + group)
    fs = sorted(glob.glob(os.path.join(REPO, pat), recursive=True))
    return fs


_hdr = None


def headers_hash():
    global _hdr
    if _hdr is None:
        fs = sorted(glob.glob(REPO + "/include/**/*.h", recursive=True) +
                    glob.glob(REPO + "/src/**/*.h", recursive=True))
        _hdr = _sha(*[p.encode() + _read(p) for p in fs])
    return _hdr


def _run_astdump(a):
    tool, src, out, fl = a
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run([tool, src, tmp, REPO, "--"] + fl, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(tmp):
        return src, r.stdout[-2000:]
    os.replace(tmp, out)
    return src, None


def dump_asts(group, only=None):
    """returns list of (source, json path) for the group's translation units"""
    tool = astdump_tool()
    fl = flags(group)
    srcs = sources(group)
    if only is not None:
        srcs = [s for s in srcs if only(os.path.relpath(s, REPO))]
    if not srcs:
        raise AnalysisBroken("no sources for group " + group)
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    todo, res = [], []
    for s in srcs:
        key = _sha(tool, s, _read(s), headers_hash(), repr(fl))
        out = os.path.join(cache, key + ".ast.json")
        res.append((s, out))
        if not os.path.exists(out):
            todo.append((tool, s, out, fl))
    # the largest (pybind11) units first
    todo.sort(key=lambda a: -os.path.getsize(a[1]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for src, err in ex.map(_run_astdump, todo):
            if err is not None:
                raise AnalysisBroken("cannot parse %s:\n%s" % (src, err))
    return res


# ----------------------------------------------------------------- program
class Program:
    """Union of translation units: functions by mangled name, records, ..."""

    def __init__(self):
        self.funcs = {}      # key -> func dict
        self.decls = {}      # mangled -> decl (no body)
        self.recs = {}       # type string -> record
        self.globals = {}
        self.enums = {}
        self.units = []

    def load(self, group, only=None):
        for src, path in dump_asts(group, only):
            with open(path) as f:
                d = json.load(f)
            u = Unit(src, d)
            self.units.append(u)
            for fn in d["funcs"]:
                fn["u"] = u
                fn["path"] = os.path.relpath(u.files[fn["file"]], REPO)
                key = fn["m"]
                if fn.get("ctor"):
                    key = "C:" + fn["cls"] + "(" + ",".join(u.types[t] for t in fn["pt"]) + ")"
                elif fn.get("sc_static"):
                    key = fn["m"] + "@" + fn["path"]
                fn["key"] = key
                if key not in self.funcs:
                    self.funcs[key] = fn
            for fn in d["decls"]:
                fn["u"] = u
                fn["path"] = os.path.relpath(u.files[fn["file"]], REPO)
                self.decls.setdefault(fn["m"], fn)
            for r in d["recs"]:
                r["u"] = u
                r["path"] = os.path.relpath(u.files[r["file"]], REPO)
                self.recs.setdefault(r["t"], r)
            for g in d["globals"]:
                g["u"] = u
                g["path"] = os.path.relpath(u.files[g["file"]], REPO)
                self.globals.setdefault(g["q"], g)
            for e in d["enums"]:
                self.enums.setdefault(e["q"], e)
        return self

    def callee(self, call, unit=None):
        """definition of the (static) callee of a call/ctor node, or None"""
        f = call.get("f")
        if not f:
            return None
        if call["k"] == "ctor":
            u = unit
            key = "C:" + f["cls"] + "(" + ",".join(u.types[t] for t in f["pt"]) + ")"
            return self.funcs.get(key)
        g = self.funcs.get(f["m"])
        if g is None and unit is not None:
            g = self.funcs.get(f["m"] + "@" + os.path.relpath(unit.src, REPO))
        return g

    def derived(self, base):
        """type strings of all (transitive) subclasses of base, inclusive"""
        out, work = set(), [base]
        while work:
            b = work.pop()
            if b in out:
                continue
            out.add(b)
            for t, r in self.recs.items():
                if b in r["bases"]:
                    work.append(t)
        return out

    def overriders(self):
        """mangled base method -> set of function keys overriding it (transitive)"""
        if not hasattr(self, "_ovr"):
            m = {}
            for fn in list(self.funcs.values()) + list(self.decls.values()):
                for o in fn.get("ov", []):
                    m.setdefault(o, set()).add(fn["m"])
            # transitive
            changed = True
            while changed:
                changed = False
                for o in list(m):
                    for x in list(m[o]):
                        for y in m.get(x, ()):
                            if y not in m[o]:
                                m[o].add(y)
                                changed = True
            self._ovr = m
        return self._ovr


class Unit:
    def __init__(self, src, d):
        self.src = src
        self.types = d["types"]
        self.files = d["files"]


# children of a node in evaluation-ish order
_KEYS = ("init", "var", "range", "cond", "then", "else", "inc", "obj", "fn", "size", "v", "c", "h", "body", "inits", "val")


def children(n):
    out = []
    for k in _KEYS:
        x = n.get(k)
        if isinstance(x, dict):
            if "k" in x or "init" in x or "body" in x:
                out.append(x)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, dict):
                    out.append(y)
    return out


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(children(x)))


def walk_nolambda(n):
    """like walk, without entering the bodies of nested lambdas"""
    st = [n]
    while st:
        x = st.pop()
        yield x
        if x.get("k") == "lambda":
            continue
        st.extend(reversed(children(x)))


def strip(n):
    """through integral/implicit and explicit value casts"""
    while n and n["k"] in ("icast", "cast"):
        n = n["c"][0]
    return n


def tstr(n, fn):
    t = n.get("t")
    return fn["u"].types[t] if t is not None and t >= 0 else ""


def loc(fn, n=None):
    return "%s:%d" % (fn["path"], (n or fn).get("l", 0) or fn["l"])


# ------------------------------------------------------------------ verdict
class Check:
    def __init__(self, pid, technique, rule):
        self.pid = pid
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.cov = {}
        self.rule = rule
        self.technique = technique
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.known_list = load_known(pid)

    def ob(self, ok, where, what, ident=None):
        """one proof obligation of the rule; ident is a stable identity used
        to match the known-findings file"""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if len(self.samples) < 12 and self.obligations % 37 == 1:
                self.samples.append("%s: %s" % (where, what))
        else:
            for k in self.known_list:
                if ident is not None and k["ident"] == ident:
                    self.known.append((k, where, what))
                    self.discharged += 0
                    return ok
            self.violations.append((where, what))
        return ok

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def floor(self, name, n, minimum):
        self.cov[name] = n
        if n < minimum:
            raise AnalysisBroken("%s: only %d instances of '%s', expected at least %d: the rule lost its anchors"
                                 % (self.pid, n, name, minimum))

    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        cov = dict(self.cov)
        cov.update({
            "explanation": self.rule,
            "obligations": self.obligations,
            "discharged": self.discharged,
            "samples": self.samples or ["(none)"],
            "checker_cmd": "python3 /verif/run.py " + self.pid,
            "trusted_base": ["clang 18 front end / LLVM 18 IR generation", "the rule engine in /verif/vlib and /verif/checks"],
            "known_findings": len(self.known),
            "violating": ["%s: %s" % v for v in self.violations[:50]],
        })
        ev = {"property": self.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print("%s: %d obligations, %d discharged; %s" % (
            self.pid, self.obligations, self.discharged,
            ", ".join("%s=%s" % kv for kv in sorted(self.cov.items()) if not isinstance(kv[1], (list, dict)))))
        for k, where, what in self.known:
            print("KNOWN-FINDING: property=%s %s (%s: %s)" % (self.pid, k["what"], where, what))
        if self.violations:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for where, what in self.violations:
                    f.write("%s: %s\n" % (where, what))
            for where, what in self.violations[:40]:
                print("  %s: %s" % (where, what))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("known", []) if k["property"] == pid]


def main(argv):
    import importlib
    sys.setrecursionlimit(20000)
    pid = argv[1]
    try:
        mod = importlib.import_module("checks." + pid)
        rc = mod.run()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN %s: internal error" % pid)
        return 3
    return rc
