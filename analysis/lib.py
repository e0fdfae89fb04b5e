"""What the checks share: looking up public items, running them abstractly, comparing values, reporting."""
import contextlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
import mir
import witness
from engine import Undecided, U
from state import State
from terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ------------------------------------------------------------------ printing
def pt(t):
    """A term for people."""
    if not isinstance(t, tuple) or not t: return repr(t)
    k = t[0]
    if k == "c": return hex(t[1]) if abs(t[1]) > 255 else str(t[1])
    if k == "a": return pname(t[1])
    if k == "lin":
        s = " + ".join(("%s*%s" % (c, pt(x)) if c != 1 else pt(x)) for x, c in t[2])
        return "(%s%s)" % (s, " + %d" % t[1] if t[1] else "")
    if k == "bits": return pbits(tuple(reversed(t[1])))
    if k == "op": return "%s(%s)" % (t[1], ", ".join(pt(x) for x in t[2]))
    return repr(t)[:80]


def pname(n):
    if isinstance(n, tuple):
        if n and n[0] == "in": return "/".join(map(str, n[1:]))
        if n and n[0] == "byte":
            return "%s[%s]" % (pname(n[1]), pt(engine.offset_of(n[2])))
        if n and n[0] == "len": return "len(%s)" % pname(n[1])
        return "<%s>" % " ".join(pname(x) for x in n)
    return str(n)


def pbit(b):
    if b in (0, 1): return str(b)
    if b[0] == "!": return "!" + pbit(b[1])
    if b[0] in ("&", "|", "^") and len(b) == 3: return "(%s%s%s)" % (pbit(b[1]), b[0], pbit(b[2]))
    if b[0] == "?": return "[%s]" % pb(b[1])
    return "%s.%d" % (pt(b[0]), b[1])


def pbits(bs):
    """Bits, most significant first, grouped into runs of one term."""
    out, i = [], 0
    while i < len(bs):
        b = bs[i]
        if b in (0, 1):
            j = i
            while j < len(bs) and bs[j] in (0, 1): j += 1
            out.append("0b" + "".join(map(str, bs[i:j])))
            i = j
            continue
        if isinstance(b[0], tuple):
            j = i
            while j + 1 < len(bs) and isinstance(bs[j + 1], tuple) and bs[j + 1][0] == b[0] and bs[j + 1][1] == bs[j][1] - 1: j += 1
            out.append("%s.%d..%d" % (pt(b[0]), b[1], bs[j][1]) if j > i else "%s.%d" % (pt(b[0]), b[1]))
            i = j + 1
            continue
        out.append(pbit(b))
        i += 1
    return "{" + " ".join(out) + "}"


def pb(b):
    if b is True or b is False: return str(b)
    h = b[0]
    if h == "at": return pname(b[1])
    if h == "ge": return "%s >= 0" % pt(b[1])
    if h == "eq": return "%s == 0" % pt(b[1])
    if h == "bit": return pbit(b[1])
    if h == "not": return "!(%s)" % pb(b[1])
    if h in ("and", "or"): return "(%s)" % ((" && " if h == "and" else " || ").join(pb(x) for x in b[1]))
    return repr(b)[:80]


def pq(q):
    out = []
    for s in q[1]:
        if s[0] == "be": out.append(pbits(s[1]))
        else: out.append("%s[%s..+%s]" % (pname(s[1]), pt(s[2]), pt(s[3])))
    return " ".join(out) or "(empty)"


def pv(e, v, depth=0):
    k = v[0]
    if depth > 5: return "..."
    if k == "I": return pt(v[1])
    if k == "B": return pb(v[1])
    if k == "Q": return pq(v)
    if k == "&": return "&" + pv(e, v[1], depth + 1)
    if k == "A":
        if v[1] is None: return "(%s)" % ", ".join(pv(e, f, depth + 1) for f in v[3])
        t = e.types[v[1]]
        n = t.get("path", t["s"]).split("::")[-1] if t["k"] == "adt" else ""
        if t["k"] == "adt" and t["kind"] == "enum": n = t["variants"][v[2]]["name"]
        return n + ("(%s)" % ", ".join(pv(e, f, depth + 1) for f in v[3]) if v[3] else "")
    if k == "S": return "<%s>" % pname(v[1])
    if k == "R": return "&.."
    return repr(v)[:80]


class Facts(list):
    """The facts of a partition in words, with the partition."""
    st = None


def facts(st):
    out = Facts()
    out.st = st
    for t, (a, b) in st.iv.items(): out.append("%s in [%s, %s]" % (pt(t), a, b))
    for t, p in st.pins.items(): out.append("%s = %s" % (pt(t), pt(p)))
    for b, v in st.bits.items(): out.append("%s = %d" % (pbit(b), v))
    for b, v in st.bools.items(): out.append("%s = %s" % (pb(b), v))
    for g in st.ges: out.append("%s >= 0" % pt(g))
    for n, p in st.vars.items(): out.append("%s is variant %s" % (pname(n), sorted(p)))
    del out[40:]
    return out


# ------------------------------------------------------------------ inputs
def iatom(name, lo, hi):
    return ("I", ("a", ("in", name), lo, hi))


def u(name, w):
    return iatom(name, 0, (1 << w) - 1)


def bytes_in(name):
    return engine.qatom(("in", name))


def len_in(name):
    return engine.len_atom(("in", name))


# ------------------------------------------------------------------ machines
class Enough(Exception):
    """So many violations that the rest of the analysis adds nothing."""


class Broken(Exception):
    """A violation met while setting up: (what, state)."""


class Missing(Exception):
    """A public item the property is about is not there."""


class M:
    """One compiled configuration of the crate and an engine over it."""

    def __init__(self, cfg, path):
        self.cfg = cfg
        self.d = mir.Dump(path)
        self.engines = []

    def engine(self, **kw):
        e = engine.Engine(self.d, **kw)
        self.engines.append(e)
        return e

    def adt(self, name):
        ps = [p for p in self.d.adts if p.split("::")[-1] == name]
        if not ps: raise Missing("type " + name)
        return ps[0]

    def tid(self, name):
        """Type index of a local type without parameters."""
        p = self.adt(name)
        for i, t in enumerate(self.d.types):
            if t["k"] == "adt" and t["path"] == p: return i
        raise Missing("type " + name)

    def method(self, adt, name):
        p = self.adt(adt)
        for f in self.d.inherent(p):
            if f.get("name") == name and f.get("inst") is not None: return f
        raise Missing("%s::%s" % (adt, name))

    def tmethod(self, adt, trait, name):
        p = self.adt(adt)
        for f in self.d.fns:
            if f.get("name") == name and f.get("trait", "").split("<")[0].split("::")[-1] == trait and "self" in f:
                if self.d.types[f["self"]].get("path") == p and f.get("inst") is not None: return f
        return None

    def need(self, adt, trait, name):
        f = self.tmethod(adt, trait, name)
        if f is None: raise Missing("<%s as %s>::%s" % (adt, trait, name))
        return f

    def retty(self, f):
        return self.d.bodies[f["inst"]]["locals"][0]

    def argty(self, f, i):
        return self.d.bodies[f["inst"]]["locals"][i + 1]


def mentions(d):
    """inst -> bodies (by path) of the crate that mention that function, called or as a value."""
    if getattr(d, "_mentions", None) is None:
        res = {}

        def walk(x, who):
            if isinstance(x, dict):
                c = x.get("callee")
                if isinstance(c, dict) and "inst" in c: res.setdefault(c["inst"], set()).add(who)
                for y in x.values(): walk(y, who)
            elif isinstance(x, list):
                for y in x: walk(y, who)
        for b in list(d.bodies) + list(d.coroutines):
            if b["path"].startswith("binate") or b["path"].startswith("<binate"): walk(b["blocks"], b["path"])
        d._mentions = res
    return d._mentions


def call(e, f, args, st):
    """Outcomes of one call."""
    return e.call_inst(f["inst"], list(args), st)


def ref(e, st, v):
    """A place of the caller's that holds v, apart from every other."""
    r = e.newcell(st, v)
    e.places.add(r)
    return ("R", r, ())


# ------------------------------------------------------------------ comparing
def same_int(st, a, b):
    a, b = st.nz(a), st.nz(b)
    if a == b: return True
    return st.decide(EQ(a, b, st))


def same_bool(st, a, b):
    a, b = st.nzb(a), st.nzb(b)
    if a == b: return True
    if a == NOT(b): return False
    x = OR([AND([a, b]), AND([NOT(a), NOT(b)])])
    return st.decide(x)


def same_q(e, st, a, b):
    a, b = e.qnorm(a, st), e.qnorm(b, st)
    if a == b: return True
    la, lb = e.qlen(a, st), e.qlen(b, st)
    d = st.decide(EQ(la, lb, st))
    if d is False: return False
    # compare piece by piece
    x, y = list(a[1]), list(b[1])
    verdict = True
    while x and y:
        s, t = x[0], y[0]
        if s == t:
            x.pop(0); y.pop(0)
            continue
        if s[0] == "be" and t[0] == "be":
            n = min(len(s[1]), len(t[1]))
            for p, q in zip(s[1][:n], t[1][:n]):
                if p == q: continue
                v = bitval(bxor(p, q), st)
                if v == 1: return False
                if v is None: verdict = None
            for l, z in ((x, s), (y, t)):
                l.pop(0)
                if len(z[1]) > n: l.insert(0, ("be", z[1][n:]))
            continue
        if s[0] == "sub" and t[0] == "sub" and s[1] == t[1] and same_int(st, s[2], t[2]) is True:
            if same_int(st, s[3], t[3]) is True:
                x.pop(0); y.pop(0)
                continue
        if s[0] == "be" and t[0] == "sub" or s[0] == "sub" and t[0] == "be":
            be, su = (s, t) if s[0] == "be" else (t, s)
            n = st.nz(su[3])
            if is_c(n) and n[1] <= 64:
                b2 = ("be", tuple(simp_bit(z, st) for z in engine.byte_bits(su[1], su[2], n[1])))
                if s[0] == "be": y[0] = b2
                else: x[0] = b2
                continue
        return None
    for r in x + y:
        z = st.decide(EQ(e.seglen(r), C(0), st))
        if z is False: return False
        if z is None: verdict = None
    return verdict


def same(e, st, a, b):
    """True, False or None (not shown either way)."""
    if a == b: return True
    if a[0] == "R":
        if b[0] == "R": return same(e, st, e.rd(st, a), e.rd(st, b))
        return same(e, st, e.rd(st, a), b)
    if b[0] == "R": return same(e, st, a, e.rd(st, b))
    a, b = e.norm(a, st), e.norm(b, st)
    if a == b: return True
    if a[0] == "I" and b[0] == "I": return same_int(st, a[1], b[1])
    if a[0] == "B" and b[0] == "B": return same_bool(st, a[1], b[1])
    if a[0] == "Q" or b[0] == "Q":
        return same_q(e, st, e.as_q(a, st), e.as_q(b, st))
    if a[0] == "S" and b[0] == "A":
        if e.is_enum(a[2]):
            p = st.vars.get(a[1])
            if p is not None and b[2] not in p: return False
            return None
        try: a = e.expand(a)
        except Undecided: return None
    if b[0] == "S" and a[0] == "A": return same(e, st, b, a)
    if a[0] == "A" and b[0] == "A":
        if a[1] is not None and b[1] is not None and a[1] != b[1]: return None
        if a[2] != b[2]: return False
        if len(a[3]) != len(b[3]): return None
        r = True
        for x, y in zip(a[3], b[3]):
            s = same(e, st, x, y)
            if s is False: return False
            if s is None: r = None
        return r
    if a[0] == "X" and b[0] == "X" and a[1] == b[1]:
        if a[1] == "duration": return same_int(st, a[2][1], b[2][1])
        return True if a[2] == b[2] else None
    return None


OK_ATOMS = ("in", "len", "byte")


def opaque_terms(x, e=None):
    """Terms in x that the analysis does not interpret."""
    bad = []
    for t in atoms_in(x):
        if t[0] == "op" and not t[1].startswith("wrap") and t[1] not in ("nowrap", "discr", "mul", "div", "rem", "min", "max", "sar", "f2i", "shl", "shr") and not (t[1] in ("ctlz", "cttz", "ctpop") and len(t[2]) == 2) and t[1][-3:] not in ("f32", "f64"): bad.append(pt(t))
        if t[0] == "a":
            n = t[1]
            if isinstance(n, tuple) and n and n[0] in ("cap", "foldacc", "chunklen", "const") and not (n[0] == "chunklen" and (getattr(e, "any_chunk", False) or getattr(e, "free_chunks", False))): bad.append(pt(t))
    return bad


def mentions_address(b): return isinstance(b, tuple) and (b[:1] == ("ptreq",) or any(mentions_address(y) for y in b))


def summarised(x):
    """Does a term stand for a variable of a loop that was summarised rather than followed?"""
    if isinstance(x, State):
        return any(summarised(y) for y in (tuple(x.iv), tuple(x.pins.items()), tuple(x.bits), tuple(x.bools), x.ges, tuple(x.vars), x.clauses, tuple(x.nes)))
    if isinstance(x, tuple):
        if x and x[0] == "loop" and len(x) == 5: return True
        return any(summarised(y) for y in x)
    return False


# ------------------------------------------------------------------ reporting
class Ctx:
    def __init__(self, prop, tier, dumps):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.ms = [M(cfg, p) for cfg, p in dumps]
        self.viol = []
        self.und = []
        self.obl = {}
        self.notes = []
        self.samples = []
        self.functions = set()
        self.rule = ""
        self.assume = []
        self.parts = 0

    def each(self):
        for m in self.ms: yield m

    def count(self, rule, n=1):
        self.obl[rule] = self.obl.get(rule, 0) + n

    def violate(self, m, construct, rule, msg, detail=None, env=None):
        st = getattr(detail, "st", None)
        if st is not None and any(mentions_address(b) for b in st.bools):
            self.undecided(m, construct, "depends on an address: %s: %s" % (rule, msg[:300]))
            return
        if st is not None and summarised(st):
            # what holds in the loop is not known exactly: the partition may be empty
            self.undecided(m, construct, "after a summarised loop: %s: %s" % (rule, msg[:300]))
            return
        if st is not None and env is None:
            env = witness.feasible(st)
            if env is None:
                # the partition may be empty
                if st.empty(): return
                self.undecided(m, construct, "no concrete input found for: %s: %s" % (rule, msg[:300]))
                return
        if env is not None: msg += " [e.g. %s]" % "; ".join(witness.describe(env)) if env.v else ""
        self.viol.append({"config": m.cfg if m else "", "construct": construct, "rule": rule, "message": msg, "detail": detail or []})
        if len(self.viol) >= 60: raise Enough()

    def undecided(self, m, construct, msg):
        self.und.append({"config": m.cfg if m else "", "construct": construct, "reason": msg})

    @contextlib.contextmanager
    def ob(self, m, construct, rule):
        """One obligation: what the analysis cannot follow is recorded, not reported."""
        self.count(rule)
        try:
            yield
        except Undecided as x:
            stack = []
            for e in m.engines:
                if e.stack: stack = [m.d.bodies[i]["path"] for i, _ in e.stack]
                e.stack = []
            self.undecided(m, construct, "%s%s" % (x, " in " + stack[-1] if stack else ""))
        except Missing as x:
            self.violate(m, construct, "public item present", "missing: %s" % x)
        except Broken as x:
            self.violate(m, construct, rule, x.args[0], facts(x.args[1]))
        except RecursionError:
            for e in m.engines: e.stack = []
            self.undecided(m, construct, "expression too deep")
        except (TypeError, ValueError, KeyError, IndexError, AttributeError, AssertionError) as x:
            # a gap in the analyser is never an alarm
            if os.environ.get("BINATE_DEBUG"): raise
            for e in m.engines: e.stack = []
            self.undecided(m, construct, "internal: %s %s" % (type(x).__name__, str(x)[:200]))

    def expect(self, m, e, st, construct, rule, found, want, what):
        """Records a violation when found is not want on this partition."""
        self.count(rule)
        r = same(e, st, found, want)
        if r is True:
            if self.obl[rule] in (1, 7, 40) and len(self.samples) < 12:
                self.samples.append({"construct": construct, "rule": rule, "obligation": what, "value": pv(e, e.snapshot(st, want))[:400], "partition": facts(st)[:6]})
            return True
        f, w = e.snapshot(st, found), e.snapshot(st, want)
        if r is None:
            bad = opaque_terms((f, w), e)
            if bad:
                self.undecided(m, construct, "%s: %s" % (what, bad[:3]))
                return None
        env = None
        if r is None:
            env = witness.differ(e, st, found, want)
            if env is None:
                if st.empty(): return None
                self.undecided(m, construct, "neither shown nor refuted: %s: found %s, expected %s" % (what, pv(e, f)[:300], pv(e, w)[:300]))
                return None
        self.violate(m, construct, rule, "%s: found %s, expected %s" % (what, pv(e, f), pv(e, w)), facts(st), env)
        return False

    def expect_true(self, m, st, construct, rule, cond, what):
        self.count(rule)
        if cond is True: return True
        r = st.decide(cond)
        if r is True: return True
        if r is None:
            bad = opaque_terms(cond, m.engines[-1] if m.engines else None)
            if bad:
                self.undecided(m, construct, "%s: %s" % (what, bad[:3]))
                return None
        env = witness.refute(st, cond) if r is None else None
        if r is None and env is None:
            if st.empty(): return None
            self.undecided(m, construct, "neither shown nor refuted: " + what)
            return None
        self.violate(m, construct, rule, what + " (" + pb(cond) + ")", facts(st), env)
        return False

    def finish(self):
        for m in self.ms:
            for e in m.engines:
                self.functions |= e.analysed
        return self
