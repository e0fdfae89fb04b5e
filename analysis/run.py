"""run.py PROPERTY [quick|thorough]: dumps the current source of /repo and runs one check on it.

run.py PROPERTY[,PROPERTY..] dev.json [release.json] runs checks on dumps made earlier (debugging).
"""
import fcntl
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASSUMPTIONS = [
    "rustc's MIR (nightly frontend, mir-opt-level 0) means what the release compiler compiles; the crate is analysed with all features, once with and once without overflow checks.",
    "The standard library, bytes, dashmap and tokio behave as documented where analysis/models.py summarises them; the parts of core that are not summarised are analysed from their own MIR.",
    "A generic Buf obeys its trait contract; conversions left open by a type parameter (Into<Bytes>, Into<String>, ...) keep the contents.",
    "No byte sequence is longer than 2^47-1 bytes; memory allocation does not fail.",
]


def load():
    reg = {}
    for mod in ("checks_codec", "checks_misc", "checks_conn", "checks_session", "checks_watch", "checks_api", "checks_values"):
        try: reg.update(importlib.import_module(mod).CHECKS)
        except ModuleNotFoundError as x:
            if x.name != mod: raise
    return reg


def analyse(pid, f, rule, tier, dumps):
    ctx = Ctx(pid, tier, dumps)
    ctx.rule = rule
    try: f(ctx)
    except Missing as x: ctx.violate(None, pid, "public item present", "missing: %s" % x)
    except Undecided as x: ctx.undecided(None, pid, str(x))
    except Enough: ctx.notes.append("stopped after %d violations" % len(ctx.viol))
    except (RecursionError, TypeError, ValueError, KeyError, IndexError, AttributeError, AssertionError) as x:
        if os.environ.get("BINATE_DEBUG"): raise
        ctx.undecided(None, pid, "internal: %s %s" % (type(x).__name__, str(x)[:200]))
    ctx.finish()
    return ctx


def unique(viol):
    seen, res = set(), []
    for v in viol:
        k = (v["construct"], v["rule"], v["message"])
        if k in seen: continue
        seen.add(k)
        res.append(v)
    return res


def known(pid):
    """Listed findings of a property: lines 'finding: property=<id> <construct> | <rule>'."""
    res = {}
    try: lines = open(os.path.join(HERE, "known_findings.txt")).read().splitlines()
    except OSError: return res
    for l in lines:
        if not l.startswith("finding: property=%s " % pid): continue
        res[l.split(" ", 2)[2].strip()] = True
    return res


def main(pid, tier):
    t0 = time.time()
    reg = load()
    if pid not in reg:
        print("no check for", pid)
        return 2
    cache = os.environ.get("BINATE_CACHE") or os.path.join(HERE, ".cache")
    os.makedirs(cache, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=cache)
    ev_path = os.path.join(HERE, "evidence", pid + ".json")
    try:
        dumps = []
        with open(os.path.join(cache, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            for cfg in ("dev", "release"):
                out = os.path.join(tmp, cfg + ".json")
                r = subprocess.run([os.path.join(HERE, "tools", "dump.sh"), out, cfg])
                if r.returncode:
                    print("cannot dump the MIR of the current tree (%s)" % cfg)
                    return r.returncode if r.returncode > 1 else 2
                dumps.append((cfg, out))
        f, rule = reg[pid]
        ctx = analyse(pid, f, rule, tier, dumps)
    finally:
        for n in os.listdir(tmp): os.unlink(os.path.join(tmp, n))
        os.rmdir(tmp)
    viol = unique(ctx.viol)
    listed = known(pid)
    new, old = [], []
    for v in viol: (old if "%s | %s" % (v["construct"], v["rule"]) in listed else new).append(v)
    n_obl = sum(ctx.obl.values())
    replay = os.path.join("evidence", "replay", pid + ".json")
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the MIR of the current /repo tree, no code is run. Rule: %s "
                           "An obligation is one question about one construct, argument shape and configuration, asked on every partition (abstract path) "
                           "the analysis finds; an obligation is undecided when the code uses a construct the analysis does not interpret there." % rule,
            "rule": rule,
            "obligations": n_obl, "discharged": n_obl - len(viol) - len(ctx.und),
            "obligations_by_rule": dict(sorted(ctx.obl.items())),
            "partitions": ctx.parts,
            "configurations": [c for c, _ in dumps],
            "functions_analysed": len(ctx.functions),
            "functions": sorted(x for x in ctx.functions if x.startswith("binate") or x.startswith("<binate")),
            "undecided": len(ctx.und), "undecided_obligations": ctx.und[:50],
            "notes": ctx.notes[:50],
            "samples": ctx.samples[:12],
        },
        "assumptions": ASSUMPTIONS + ctx.assume,
        "violations": len(new),
        "wall_s": round(time.time() - t0, 2),
    }
    with open(ev_path, "w") as h: json.dump(ev, h, indent=1)
    for v in old: print("KNOWN-FINDING: property=%s %s | %s: %s" % (pid, v["construct"], v["rule"], v["message"][:300]))
    print("%s: %d obligations on %d partitions of %d functions, %d undecided, %d violations (%.1f s)" % (pid, n_obl, ctx.parts, len(ctx.functions), len(ctx.und), len(new), time.time() - t0))
    for u in ctx.und[:10]: print("UNDECIDED %s: %s" % (u["construct"], u["reason"][:300]))
    if not new: return 0
    with open(os.path.join(HERE, replay), "w") as h:
        json.dump({"property": pid, "command": "./check.sh %s %s" % (pid, tier), "violations": new}, h, indent=1)
    for v in new[:10]:
        print("  %s | %s | %s" % (v["construct"], v["rule"], v["message"][:400]))
        if v["detail"]: print("      where " + "; ".join(v["detail"])[:400])
    if len(new) > 10: print("  ... and %d more" % (len(new) - 10))
    print("VIOLATION property=%s replay=%s" % (pid, replay))
    return 1


def debug(pids, files):
    reg = load()
    for p in (sorted(reg) if pids == "all" else pids.split(",")):
        f, rule = reg[p]
        t = time.time()
        ctx = analyse(p, f, rule, "quick", [("dev" if i == 0 else "release", x) for i, x in enumerate(files)])
        viol = unique(ctx.viol)
        print("%s %.1fs obligations=%d partitions=%d fns=%d violations=%d undecided=%d" % (p, time.time() - t, sum(ctx.obl.values()), ctx.parts, len(ctx.functions), len(viol), len(ctx.und)))
        for i, v in enumerate(viol[:13]):
            print("   VIOL %s | %s | %s" % (v["construct"], v["rule"], v["message"][:300]))
            if i < 2: print("        where:", "; ".join(v["detail"])[:600])
        for v in ctx.und[:8]: print("   UND", v["construct"], "|", v["reason"][:300])


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    if len(sys.argv) > 2 and sys.argv[2].endswith(".json"): debug(sys.argv[1], sys.argv[2:])
    else: sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
