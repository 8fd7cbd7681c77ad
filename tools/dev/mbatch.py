#!/usr/bin/env python3
"""mbatch.py FILE [workers]: FILE defines MUTS=[(name, check, file, old, new[, idx])]; each is applied in a
scratch copy of /repo's sources and the check is run there (VERIF_REPO); prints caught/missed"""
import sys, subprocess, os, shutil, concurrent.futures as cf, threading
ns = {}
exec(open(sys.argv[1]).read(), ns)
W = int(sys.argv[2]) if len(sys.argv) > 2 else 3
loc = threading.local(); lk = threading.Lock(); cnt = [0]
def work(m):
    if not hasattr(loc, "d"):
        with lk:
            cnt[0] += 1; loc.d = "/tmp/mb%d" % cnt[0]
        subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "_build", "--exclude", ".git", os.environ.get("BASE", "/repo") + "/", loc.d + "/"])
    name, checks, edits = m[0], m[1], m[2:]
    if isinstance(edits[0], str):
        edits = [edits]
    saved = {}
    try:
        for e in edits:
            p = os.path.join(loc.d, e[0]); s = open(p).read(); saved.setdefault(p, s)
            idx = e[3] if len(e) > 3 else 0
            if s.count(e[1]) <= idx: return name, "BADEDIT(%d)" % s.count(e[1]), ""
            parts = s.split(e[1]); open(p, "w").write(e[1].join(parts[:idx+1]) + e[2] + e[1].join(parts[idx+1:]))
        out = []
        for c in checks.split(","):
            env = dict(os.environ, VERIF_REPO=loc.d, VERIF_JOBS=str(max(1, 8 // W)))
            r = subprocess.run(["python3", "/verif/run.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            out.append((c, r.returncode, r.stdout.splitlines()))
        return name, " ".join("%s:%s" % (c, {0: "missed", 1: "CAUGHT"}.get(rc, "rc%d" % rc)) for c, rc, _ in out), "\n".join("      " + l[:230] for c, rc, ls in out for l in (ls[1:4] if rc == 1 else ls[-3:] if rc not in (0, 1) else []))
    finally:
        for p, s in saved.items():
            open(p, "w").write(s)
with cf.ThreadPoolExecutor(W) as ex:
    for name, res, det in ex.map(work, ns["MUTS"]):
        print(name, "->", res, flush=True)
        if det: print(det, flush=True)
for i in range(cnt[0]): shutil.rmtree("/tmp/mb%d" % (i + 1), ignore_errors=True)
