#!/usr/bin/env python3
"""refac.py SPEC.py [--only ID] [--props C21,..]: runs checks over edited scratch copies of /repo (development aid).

SPEC.py defines EDITS: a list of (id, [(file, old, new)], expectation) with expectation "quiet" or a property that must be reported.
"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TAG = os.environ.get("REFAC_TAG", "")  # lets several runs go on side by side
RT, CACHE, DUMP = "/tmp/rt" + TAG, "/tmp/rcache" + TAG, "/tmp/rx%s.json" % TAG


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
props = sys.argv[sys.argv.index("--props") + 1] if "--props" in sys.argv else "all"
os.makedirs(CACHE, exist_ok=True)
if not os.path.exists(RT): sh("git clone -q /repo " + RT)
if not os.path.exists(CACHE + "/driver"): os.symlink(HERE + "/.cache/driver", CACHE + "/driver")
env = dict(os.environ, BINATE_CACHE=CACHE, BINATE_REPO=RT)
for i, edits, want in ns["EDITS"]:
    if only and i not in only: continue
    sh("git -C %s fetch -q /repo HEAD; git -C %s reset -q --hard FETCH_HEAD" % (RT, RT))
    bad = None
    for f, a, b in edits:
        p = "%s/binate/src/%s" % (RT, f)
        t = open(p).read()
        if t.count(a) != 1:
            bad = "%s: %d matches of %r" % (f, t.count(a), a[:60])
            break
        open(p, "w").write(t.replace(a, b))
    if bad:
        print(i, "BAD SPEC", bad)
        continue
    r = sh("%s/tools/dump.sh %s dev" % (HERE, DUMP), env=env)
    if r.returncode:
        print(i, "DOES NOT COMPILE", r.stderr[-900:])
        continue
    dumps = DUMP
    if "--both" in sys.argv:
        sh("%s/tools/dump.sh %s.rel release" % (HERE, DUMP), env=env)
        dumps += " %s.rel" % DUMP
    r = sh("python3 run.py %s %s" % (props if want == "quiet" or props != "all" else want, dumps), cwd=HERE + "/analysis", env=env)
    lines = r.stdout.splitlines()
    v = [l for l in lines if "violations=" in l and "violations=0" not in l]
    un = [l for l in lines if "undecided=" in l and "undecided=0" not in l]
    ok = (not v) if want == "quiet" else bool(v)
    print(i, "ok" if ok else "WRONG (%s)" % want, "undecided: %s" % [l.split()[0] for l in un] if un else "")
    if not ok or un:
        for l in [l for l in lines if "violations=0 undecided=0" not in l][:12]: print("    ", l[:260])
        if r.returncode: print(r.stderr[-800:])
    sys.stdout.flush()
