#!/usr/bin/env python3
"""seed.py SPEC.py [ID..]: makes planted bugs under /verif/seeded from a specification and confirms each.

SPEC.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)], demo (main.rs), needs, breaks.
A bug is kept when it builds, passes the existing tests, and its demo passes before and fails after it.
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = '''#!/bin/bash
# Runs main.rs against the library in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.1"
edition = "2018"
[workspace]
[dependencies]
binate = { path = "$repo/binate", features = ["frame"] }
bytes = "1"
%s
T
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$d/target}"
cd "$d" && cargo run -q --offline%s 2>"$d/log" || { tail -5 "$d/log"; exit 1; }
'''

INNER = '''#!/bin/bash
# Adds inner.rs as a test module to a scratch copy of the library in the current directory and runs it there.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
cp -r "$repo/Cargo.toml" "$repo/Cargo.lock" "$d/"; mkdir "$d/binate"; cp -r "$repo/binate/Cargo.toml" "$repo/binate/src" "$d/binate/"
cp "$repo/README.md" "$d/" 2>/dev/null; cp "$repo/binate/README.md" "$d/binate/" 2>/dev/null
{ echo; echo '#[cfg(test)] mod vp_demo { use super::*;'; cat "$here/inner.rs"; echo '}'; } >> "$d/binate/src/%s"
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$d/target}"
cd "$d" && timeout 240 cargo test -q --offline --all-features --lib%s vp_demo >"$d/log" 2>&1 || { tail -12 "$d/log"; exit 1; }
grep -q "test result: ok. [1-9]" "$d/log" || { tail -5 "$d/log"; exit 1; }
'''


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean(): sh("git -C /repo checkout -q -- .")


def tests():
    sh("rm -f /tmp/seedtest.json")
    r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedtest.json")
    if r.returncode not in (0, 1) : return False, r.stdout[-300:] + r.stderr[-300:]
    try: o = json.load(open("/tmp/seedtest.json"))
    except Exception as x: return False, str(x) + r.stderr[-500:]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    bad = base - set(o["passed"])
    return not bad, "failing: %s" % sorted(bad)[:4] if bad else "ok"


def checks(props):
    res = {}
    for p in props:
        r = sh("./check.sh %s quick" % p, cwd=HERE)
        res[p] = (r.returncode, "VIOLATION property=%s" % p in r.stdout, r.stdout)
    return res


def demo(d):
    e = dict(os.environ, DEMO_TARGET_DIR="/tmp/demotarget" + ("i" if os.path.exists(d + "/inner.rs") else ""))
    try: r = subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, env=e, capture_output=True, text=True, timeout=280)
    except subprocess.TimeoutExpired: return "timeout", ""
    return r.returncode, (r.stdout + r.stderr)[-400:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    for s in ns["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
        d = "%s/seeded/%s" % (HERE, s["id"])
        os.makedirs(d, exist_ok=True)
        rel = " --release" if s.get("release") else ""
        if s.get("inner"):
            open(d + "/demo.sh", "w").write(INNER % (s["inner"], rel))
            open(d + "/inner.rs", "w").write(s["demo"].lstrip())
        else:
            open(d + "/demo.sh", "w").write(DEMO % (s.get("deps", ""), rel))
            open(d + "/main.rs", "w").write(s["demo"].lstrip())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        keep = False
        try:
            for f, a, b in s["edits"]:
                p = "%s/binate/src/%s" % (REPO, f)
                t = open(p).read()
                assert t.count(a) == 1, "%s: %d matches of %r" % (f, t.count(a), a)
                open(p, "w").write(t.replace(a, b))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            ok, why = tests()
            if not ok: print(s["id"], "REJECTED tests", why); continue
            rc1, o1 = demo(d)
            ck = checks([s["property"]] + s.get("also", []))
            clean()
            rc0, o0 = demo(d)
            if rc0 != 0: print(s["id"], "REJECTED demo fails on the clean tree", o0); continue
            if rc1 == 0: print(s["id"], "REJECTED demo passes with the bug"); continue
            keep = True
            print(s["id"], "kept; demo:", rc1, o1.strip()[-100:].replace("\n", " "), {p: ("caught" if v[1] and v[0] == 1 else "MISSED rc=%s" % v[0]) for p, v in ck.items()})
            for p, v in ck.items():
                for l in v[2].splitlines():
                    if l.startswith("UNDECIDED"): print("     ", l[:200])
                if v[1]: print("     ", [l for l in v[2].splitlines() if l.startswith("  ")][0][:200])
                elif v[0] not in (0, 1): print(v[2][-600:])
        except AssertionError as x:
            print(s["id"], "BAD SPEC", x)
        finally:
            clean()
            if not keep: sh("rm -rf '%s'" % d)
        sys.stdout.flush()


main()
