"""Checks of values as values: C30 (equality and clones), C31 (flag sets)."""
import itertools
import re
from lib import *
from checks_codec import assume_all, built, cname, panic_at
from checks_misc import returns
from engine import qatom
from frames import *
import models

CHECKS = {}


def check(pid, rule):
    def deco(f):
        CHECKS[pid] = (f, rule)
        return f
    return deco


# ------------------------------------------------------------------ C30
def kept(sp):
    """The bits of a flags argument that a frame keeps, those of one frame and of the other in turn."""
    return [("B", BIT((u(pre + c[1], 16)[1], c[2]))) for c in sp["flags"].values() if c[0] == "bit" for pre in ("", "other ")]


def parts(sp, a):
    """(name, value) of every argument of a frame that is a part of it, absent ones as None."""
    res = []
    names = [("major", "u16"), ("minor", "u16"), ("keepalive", "u32"), ("lifetime", "u32"), ("mmime", "bytes"), ("dmime", "bytes"), ("token", "optbytes"),
             ("lease", "bool"), ("payload", "payload")] if sp["ty"] == "SetupFrame" else sp["args"]
    for n, k in names:
        if k == "payload": res += [("metadata", a["pmeta"]), ("data", a["pdata"])]
        elif k == "version": res += [("major", a["major"]), ("minor", a["minor"])]
        elif k == "optbytes":
            v = a[n]
            if v is not None and v[0] == "A": v = v[3][0] if v[2] == 1 else None
            res.append((n, v))
        elif k == "flags": res.append((n, "flags"))
        else: res.append((n, a[n]))
    return res


def iff(a, b): return OR([AND([a, b]), AND([NOT(a), NOT(b)])])


def equal(e, st, x, y):
    """The condition under which two arguments are the same."""
    if x is None or y is None: return x is y
    if x[0] == "I": return EQ(x[1], y[1], st)
    if x[0] == "B": return iff(x[1], y[1])
    return models.qeq(e, st, e.norm(x, st), e.norm(y, st))


def judge(ctx, m, e, st, con, rule, got, want, what):
    """A boolean against its definition, case by case."""
    ctx.count(rule)
    for w, s in e.fork(st, want):
        for g, s2 in e.fork(s, got):
            if g != w: ctx.violate(m, con, rule, "%s: %s where it should be %s" % (what, g, w), facts(s2))


def compare(ctx, m, b, ty, x, y, st, want, what):
    """x == y and y == x against the condition they should have."""
    e = b.e
    rule = "equal exactly when every part is"
    f = m.tmethod(ty, "PartialEq", "eq")
    ne = m.tmethod(ty, "PartialEq", "ne")
    if f is None: raise Missing("<%s as PartialEq>::eq" % ty)
    for g, neg, n in ((f, False, "eq"), (ne, True, "ne")):
        if g is None or g.get("inst") is None: continue
        con = "<%s as PartialEq>::%s" % (ty, n)
        for p, q, how in ((x, y, ""), (y, x, " (the other way round)")):
            with ctx.ob(m, con, rule):
                s = st.copy()
                for o in returns(ctx, m, e, g, [ref(e, s, p), ref(e, s, q)], s, con, rule, what):
                    r = e.norm(o.val, o.st)
                    if r[0] != "B": raise Undecided("result of " + con)
                    judge(ctx, m, e, o.st, con, rule, NOT(r[1]) if neg else r[1], want, what + how)


def cloned(ctx, m, b, ty, x, st, what):
    """[(state, clone)]; the clone must equal its original."""
    e = b.e
    con, rule = "<%s as Clone>::clone" % ty, "a clone equals its original"
    f = m.tmethod(ty, "Clone", "clone")
    if f is None: raise Missing("<%s as Clone>::clone" % ty)
    res = []
    st = st.copy()
    r = ref(e, st, x)
    before = e.snapshot(st, x)
    for o in returns(ctx, m, e, f, [r], st, con, rule, what):
        compare(ctx, m, b, ty, x, o.val, o.st, True, what + ": a clone and its original")
        if e.snapshot(o.st, e.rd(o.st, r)) != before: ctx.expect(m, e, o.st, con, "cloning leaves the original alone", r, x, what + ": the original after cloning")
        res.append((o.st, o.val))
    return res


@check("C30", "Truth conditions of == (and !=, where it is written out) of two frames of every type with unrelated arguments, with and without each optional part, against the conjunction of "
       "the equalities of their parts; a clone against its original by ==, by its bytes on the wire and by its value; likewise payloads, versions, 24-bit integers, flags and every enumeration.")
def c30(ctx):
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)
        tf = m.tid("Frame")
        vs = [v["name"] for v in e.types[tf]["variants"]]
        reps = []
        for sp in FRAMES:
            for case, a, st, x in built(ctx, m, b, sp):
                name = cname(sp, case)
                wrap = lambda v: ("A", tf, vs.index(sp["variant"]), (v,))
                if not any(r[0] is sp for r in reps): reps.append((sp, a, st, x))
                for ty, v in ((sp["ty"], x), ("Frame", wrap(x))):
                    with ctx.ob(m, "<%s as Clone>::clone" % ty, "a clone equals its original"):
                        compare(ctx, m, b, ty, v, v, st, True, name + ": a frame and itself")
                        for st2, c in cloned(ctx, m, b, ty, v, st, name):
                            for o, q, _ in b.encode(sp, c, st2.copy(), ty=ty):
                                if o.kind == "return":
                                    ctx.expect(m, e, o.st, "<%s as Clone>::clone" % ty, "a clone is encoded as its original", q, b.wire(sp, a, o.st), name + ": bytes of the clone")
                # the same shape and one that lacks (or has) one more optional part, with arguments of their own
                for k in [None] + [k for k in case if case[k]]:
                    other = dict(case)
                    if k is not None: other[k] = False
                    with ctx.ob(m, "<%s as PartialEq>::eq" % sp["ty"], "equal exactly when every part is"):
                        for st2, y, a2 in [(s, y, a2) for st2, y, a2 in second(ctx, m, b, sp, other, st) for s in settled(e, st2, [v for _, v in parts(sp, a) + parts(sp, a2)] + kept(sp))]:
                            want = []
                            for (n, p), (_, q) in zip(parts(sp, a), parts(sp, a2)):
                                if p == "flags":
                                    k2 = kept(sp)
                                    want += [iff(s[1], t[1]) for s, t in zip(k2[::2], k2[1::2])]
                                    continue
                                # data of length zero is as good as none: which of them are equal is left open
                                if (p is None) != (q is None) and n == "data": st2.assume(LE(C(1), e.qlen(p if q is None else q, st2)))
                                want.append(equal(e, st2, p, q))
                            for ty, v, w in ((sp["ty"], x, y), ("Frame", wrap(x), wrap(y))):
                                compare(ctx, m, b, ty, v, w, st2, AND(want), "%s and one %s" % (name, "with other arguments" if k is None else "without " + k.split(".")[-1]))
        for i, (sp, a, st, x) in enumerate(reps):
            for sp2, a2, _, _ in reps[:i]:
                with ctx.ob(m, "<Frame as PartialEq>::eq", "frames of different types differ"):
                    for st2, y, _ in second(ctx, m, b, sp2, a2.case, st):
                        compare(ctx, m, b, "Frame", ("A", tf, vs.index(sp["variant"]), (x,)), ("A", tf, vs.index(sp2["variant"]), (y,)), st2, False,
                                "%s and %s" % (sp["ty"], sp2["ty"]))
        payloads(ctx, m, b)
        numbers(ctx, m, b)
        enums(ctx, m, b)


def settled(e, st, vs):
    """The states in which every truth value among the arguments is known."""
    sts = [st]
    for v in vs:
        if isinstance(v, tuple) and v[0] == "B": sts = [t for s in sts for _, t in e.fork(s, v[1])]
    return [s.copy() for s in sts]


def second(ctx, m, b, sp, case, st):
    """(state, frame, arguments) of a frame with arguments unrelated to those of the first."""
    names = ["major", "minor", "keepalive", "lifetime", "mmime", "dmime", "token", "metadata", "data"] + [n for n, _ in sp["args"] or ()]
    b.ren = {n: "other " + n for n in names}
    try:
        st = st.copy()
        if not assume_all(st, b.size_cond(sp, case)) or not assume_all(st, b.range_cond(sp, st)): return
        a, outs = b.construct(sp, case, st)
    finally: b.ren = {}
    for o in outs:
        if o.kind == "return": yield o.st, o.val, a


def payloads(ctx, m, b):
    e = b.e

    def make(st, ren, case):
        b.ren = {"metadata": ren + "metadata", "data": ren + "data"}
        try:
            q = [bytes_in(ren + n) if has else None for n, has in zip(("metadata", "data"), case)]
            return q, b.payload(st, *q)
        finally: b.ren = {}
    shapes = [(x, y) for x in (True, False) for y in (True, False)]
    for c1 in shapes:
        with ctx.ob(m, "<Payload as PartialEq>::eq", "equal exactly when every part is"):
            q1, (st, x) = make(State(), "", c1)
            what = "a payload with %s" % (" and ".join(n for n, h in zip(("metadata", "data"), c1) if h) or "nothing")
            compare(ctx, m, b, "Payload", x, x, st, True, what + " and itself")
            for st2, c in cloned(ctx, m, b, "Payload", x, st, what):
                for i, n in enumerate(("metadata", "data")):
                    for o in returns(ctx, m, e, m.method("Payload", n), [ref(e, st2, c)], st2.copy(), "<Payload as Clone>::clone", "a clone reports what its original does", what):
                        v = ("A", o.val[1], 0, ()) if q1[i] is None else None
                        got = e.resolve_enum(o.val, o.st)
                        ctx.expect(m, e, o.st, "<Payload as Clone>::clone", "a clone reports what its original does", got if q1[i] is None or got[0] != "A" or got[2] != 1 else got[3][0],
                                   v or q1[i], "%s: the clone's %s" % (what, n))
            for c2 in shapes:
                q2, (st2, y) = make(st.copy(), "other ", c2)
                # a payload with empty data and one without report different things, but are equal on the wire: left open
                if c1[1] != c2[1]: st2.assume(LE(C(1), e.qlen(q1[1] if c1[1] else q2[1], st2)))
                compare(ctx, m, b, "Payload", x, y, st2, AND([equal(e, st2, p, q) for p, q in zip(q1, q2)]), what + " and another")


def numbers(ctx, m, b):
    e = b.e
    for ty, f, w, keys in (("U24", "from_u32", 32, range(24)), ("Flags", "from_bits_truncate", 16, (9, 8, 7, 6, 5))):
        def make(st, *names):
            vs = []
            for n in names:
                x = u(n, w)
                if ty == "U24": st.assume(LE(x[1], C(0xFFFFFF)))
                st, v = b.one(call(e, m.method(ty, f), [x], st), f)
                vs.append(v)
            return st, vs
        con = "<%s as PartialEq>::eq" % ty
        with ctx.ob(m, con, "equal exactly when every part is"):
            st, (p, q) = make(State(), "number", "number")
            compare(ctx, m, b, ty, p, q, st, True, "two from the same number")
            cloned(ctx, m, b, ty, p, st, "one of them")
            for i in keys:
                for t in (0, 1):
                    st = State()
                    st.assume(BIT((u("number", w)[1], i)) if t else NOT(BIT((u("number", w)[1], i))))
                    st.assume(BIT((u("other number", w)[1], i)) if not t else NOT(BIT((u("other number", w)[1], i))))
                    st, (p, q) = make(st, "number", "other number")
                    compare(ctx, m, b, ty, p, q, st, False, "two that differ in bit %d" % i)
    with ctx.ob(m, "<Version as PartialEq>::eq", "equal exactly when every part is"):
        st, p = b.version(State())
        st, q = b.version(st, "other major", "other minor")
        compare(ctx, m, b, "Version", p, q, st, AND([EQ(u(n, 16)[1], u("other " + n, 16)[1], st) for n in ("major", "minor")]), "two versions")
        cloned(ctx, m, b, "Version", p, st, "a version")


def enums(ctx, m, b):
    """Enumerations: equal exactly when they are the same alternative with the same contents."""
    e = b.e
    for ty in ("FrameType", "Code", "WellKnownMimeType", "DecodeError", "ConnectionStatus"):
        con = "<%s as PartialEq>::eq" % ty
        with ctx.ob(m, con, "equal exactly when every part is"):
            t = m.tid(ty)
            vs = e.types[t]["variants"]
            xs, ys = ([("A", t, i, tuple(e.mksym(("in", pre + ".".join((v["name"], f["name"]))), f["ty"]) for f in v["fields"])) for i, v in enumerate(vs)] for pre in ("", "other "))
            for i, x in enumerate(xs):
                cloned(ctx, m, b, ty, x, State(), vs[i]["name"])
                for j, y in enumerate(ys):
                    want = i == j and AND([equal(e, State(), e.norm(deref(e, p), State()), e.norm(deref(e, q), State())) for p, q in zip(x[3], y[3])])
                    compare(ctx, m, b, ty, x, y, State(), want, "%s and %s" % (vs[i]["name"], vs[j]["name"]))


def deref(e, v):
    while v[0] == "R": v = e.rd(State(), v)
    return v


# ------------------------------------------------------------------ C31
FLAGS = {"IGNORE": 9, "METADATA": 8, "FOLLOWS": 7, "RESUME": 7, "RESPOND": 7, "COMPLETE": 6, "LEASE": 6, "NEXT": 5}
DEFINED = (9, 8, 7, 6, 5)


def masked(name, st): return tuple(simp_bit(bit_of(u(name, 16)[1], i), st) if i in DEFINED else 0 for i in range(16))


@check("C31", "Bit-precise value analysis of every constant, predicate, conversion and set operation of the frame flags on arbitrary 16-bit values, against the bits RSocket assigns.")
def c31(ctx):
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)

        def bits(v, st, con, rule, want, what):
            for o in returns(ctx, m, e, m.method("Flags", "bits"), [ref(e, st, v)], st.copy(), con, rule, what):
                ctx.expect(m, e, o.st, con, rule, o.val, ("I", from_bits(want, o.st)), what)

        def make(st, name):
            # decoding keeps exactly the defined bits
            return b.one(call(e, m.method("Flags", "from_bits_truncate"), [u(name, 16)], st), "Flags::from_bits_truncate")
        for n, i in FLAGS.items():
            con = "Flags::" + n
            with ctx.ob(m, con, "the bit RSocket assigns"):
                k = [x for x in m.d.consts if x.endswith("::flags::" + con) and not x.startswith("<")]
                if not k: raise Missing(con)
                v = e.const(m.d.consts[k[0]]["v"])
                bits(v, State(), con, "the bit RSocket assigns", tuple(int(j == i) for j in range(16)), con)
                con = "Flags::is_" + n.lower()
                rule = "true exactly when its bit is set"
                st, x = make(State(), "bits")
                for o in returns(ctx, m, e, m.method("Flags", "is_" + n.lower()), [ref(e, st, x)], st.copy(), con, rule, con):
                    judge(ctx, m, e, o.st, con, rule, e.norm(o.val, o.st)[1], BIT(bit_of(u("bits", 16)[1], i)), "%s()" % con)
                for o in returns(ctx, m, e, m.method("Flags", "contains"), [ref(e, st, x), v], st.copy(), "Flags::contains", rule, "contains(%s)" % n):
                    judge(ctx, m, e, o.st, "Flags::contains", rule, e.norm(o.val, o.st)[1], BIT(bit_of(u("bits", 16)[1], i)), "contains(%s)" % n)
        with ctx.ob(m, "Flags::from_bits_truncate", "keeps exactly the defined bits"):
            st, x = make(State(), "bits")
            bits(x, st, "Flags::from_bits_truncate", "keeps exactly the defined bits", masked("bits", st), "bits() of from_bits_truncate(bits)")
        with ctx.ob(m, "Flags::from_bits", "refuses exactly the undefined bits"):
            con, rule = "Flags::from_bits", "refuses exactly the undefined bits"
            bit = lambda i: BIT(bit_of(u("bits", 16)[1], i))
            for odd in [None] + [i for i in range(16) if i not in DEFINED]:
                st = State()
                if odd is not None: st.assume(bit(odd))
                else:
                    for i in range(16):
                        if i not in DEFINED: st.assume(NOT(bit(i)))
                for o in returns(ctx, m, e, m.method("Flags", "from_bits"), [u("bits", 16)], st, con, rule, "from_bits"):
                    r = e.resolve_enum(o.val, o.st)
                    if r[0] != "A": raise Undecided("result of from_bits")
                    ctx.count(rule)
                    if odd is None and r[2] == 0: ctx.violate(m, con, rule, "refuses bits that are all defined", facts(o.st))
                    elif odd is not None and r[2] == 1: ctx.violate(m, con, rule, "accepts a value with the undefined bit %d set" % odd, facts(o.st))
                    elif odd is None:
                        bits(r[3][0], o.st, con, rule, tuple(simp_bit(bit_of(u("bits", 16)[1], i), o.st) for i in range(16)), "bits() of from_bits(bits)")
        for n, want in (("empty", 0), ("all", 1)):
            with ctx.ob(m, "Flags::" + n, "set operations"):
                for o in returns(ctx, m, e, m.method("Flags", n), [], State(), "Flags::" + n, "set operations", n):
                    bits(o.val, o.st, "Flags::" + n, "set operations", tuple(want if i in DEFINED else 0 for i in range(16)), n + "()")
        ops = {"bitor": bor, "bitand": band, "bitxor": bxor, "sub": lambda p, q: band(p, bnot(q)), "insert": bor, "remove": lambda p, q: band(p, bnot(q)), "toggle": bxor,
               "bitor_assign": bor, "bitand_assign": band, "bitxor_assign": bxor, "sub_assign": lambda p, q: band(p, bnot(q)), "not": lambda p, q: bnot(p)}
        for n, op in ops.items():
            trait = {"bitor": "BitOr", "bitand": "BitAnd", "bitxor": "BitXor", "sub": "Sub", "not": "Not"}.get(n.replace("_assign", ""))
            if trait and n.endswith("_assign"): trait += "Assign"
            con, rule = "Flags::" + n, "set operations"
            with ctx.ob(m, con, rule):
                f = m.tmethod("Flags", trait, n) if trait else m.method("Flags", n)
                if f is None: continue
                st, x = make(State(), "bits")
                st, y = make(st, "other bits")
                byref = e.types[m.argty(f, 0)]["k"] == "ref"
                r = ref(e, st, x)
                args = [r if byref else x] + ([y] if n != "not" else [])
                for o in returns(ctx, m, e, f, args, st, con, rule, n):
                    want = tuple(op(p, q) if i in DEFINED else 0 for i, (p, q) in enumerate(zip(masked("bits", o.st), masked("other bits", o.st))))
                    bits(e.rd(o.st, r) if byref else o.val, o.st, con, rule, want, n)
        one = lambda i, w="bits": BIT(bit_of(u(w, 16)[1], i))
        preds = {"is_empty": (False, AND([NOT(one(i)) for i in DEFINED])), "is_all": (False, AND([one(i) for i in DEFINED])),
                 "intersects": (True, OR([AND([one(i), one(i, "other bits")]) for i in DEFINED])), "contains": (True, AND([OR([one(i), NOT(one(i, "other bits"))]) for i in DEFINED]))}
        for n, (two, want) in preds.items():
            con, rule = "Flags::" + n, "set operations"
            with ctx.ob(m, con, rule):
                for st0 in known(DEFINED, two):
                    st, x = make(st0, "bits")
                    st, y = make(st, "other bits")
                    for o in returns(ctx, m, e, m.method("Flags", n), [ref(e, st, x)] + ([y] if two else []), st, con, rule, n):
                        judge(ctx, m, e, o.st, con, rule, e.norm(o.val, o.st)[1], want, n + "()")
        con, rule = "Flags::set", "set operations"
        with ctx.ob(m, con, rule):
            for on in (False, True):
                st, x = make(State(), "bits")
                st, y = make(st, "other bits")
                r = ref(e, st, x)
                for o in returns(ctx, m, e, m.method("Flags", "set"), [r, y, ("B", on)], st, con, rule, "set"):
                    op = ops["insert" if on else "remove"]
                    want = tuple(op(p, q) if i in DEFINED else 0 for i, (p, q) in enumerate(zip(masked("bits", o.st), masked("other bits", o.st))))
                    bits(e.rd(o.st, r), o.st, con, rule, want, "set(.., %s)" % str(on).lower())


def known(places, two):
    """The states in which each of these bits is known, of one value or of two."""
    sts = [State()]
    for w in ("bits", "other bits") if two else ("bits",):
        for i in places:
            bit, more = BIT(bit_of(u(w, 16)[1], i)), []
            for st in sts:
                for c in (bit, NOT(bit)):
                    s = st.copy()
                    s.assume(c)
                    more.append(s)
            sts = more
    return sts


# ------------------------------------------------------------------ C32
@check("C32", "Effects of what a new session does: the provider a fire-and-forget draws from is the one of its role, the frame goes out on the connection the session was given, whole when no "
       "fragment size was set, and close() makes exactly one call, close(), on that connection; for both roles and an arbitrary connection and timeout.")
def c32(ctx):
    from checks_conn import cells_of, build_payload_from
    from checks_session import CONN, Session, fnf_parts
    from checks_watch import Tasks, ret, started
    for m in ctx.each():
        con = "RSocketMachine::new"
        with ctx.ob(m, con, "a session of its role"):
            T = Tasks(m)
            e = T.e
            S = Session.__new__(Session)
            S.m, S.e, S.b = m, e, Builder(m, e)
            e.overrides[S.draws_of()] = lambda *a: drawn_at(S, *a)
            e.finite = True     # resent() ends every loop that sends
            again = lambda e2, st, c, args, site: resent(ctx, m, con, st)
            e.overrides[CONN + "send_and_forget"] = e.overrides[CONN + "send"] = again
            for k in ("tokio::sync::rwlock::RwLock::<T>::new", "tokio::sync::mutex::Mutex::<T>::new"):
                e.overrides[k] = lambda e2, st, c, a, site: [ret(st, ("X", "lock", ref(e2, st, a[0])))]
            role = m.tid("Role")
            f = m.need("RSocketMachine", "RSocket", "fire_and_forget")
            fc = m.method("RSocketMachine", "close")
            _, news = started(T, m)
            n = {v["name"]: i for i, v in enumerate(e.types[role]["variants"])}
            seen = set()
            for o in news:
                if o.kind != "return": continue     # C27 reports it
                v = e.resolve_enum(o.val, o.st)
                if v[0] == "A" and e.types[v[1]].get("path", "").endswith("Poll"): v = v[3][0]
                ks = [k for k in o.st.vars if k == ("in", "argument 1")]
                for k in sorted(n):
                    if ks and n[k] not in o.st.vars[ks[0]]: continue
                    st = o.st.copy()
                    st.vars[("in", "argument 1")] = frozenset([n[k]])
                    seen.add(k)
                    session(ctx, m, S, k, v, st, f, fc, con, CONN, cells_of, build_payload_from, fnf_parts)
                    with ctx.ob(m, "RequestHanlder::set_request_handler", "the handler set is the handler in force"): handler(ctx, m, T, v, st, k)
            ctx.count("sessions of both roles")
            if seen != set(n): raise Undecided("sessions of roles %s" % sorted(seen))


def handler(ctx, m, T, v, st, role):
    """Setting a request handler replaces what lies behind the session's lock."""
    e = T.e
    con, rule = "RequestHanlder::set_request_handler", "the handler set is the handler in force"
    t = m.tid("RequestHanlder")
    if v[0] != "A": raise Undecided("fields of a session")
    hs = [x for x, ty in zip(v[3], e.fields_of(v[1])) if ty == t]
    if len(hs) != 1: raise Undecided("the handler of a session")
    at = locks(e, st, hs[0])
    if len(at) != 1: raise Undecided("the lock of a session's handler")
    f = m.method("RequestHanlder", "set_request_handler")
    st = st.copy()
    new = e.mksym(("in", "handler"), e.bodies[f["inst"]]["locals"][2])
    new = e.norm(new, st)
    outs = []
    for o in call(e, f, [ref(e, st, hs[0]), new], st):
        outs += T.resume(o.val, o.st) if o.kind == "return" and o.val[0] == "X" and o.val[1] == "coroutine" else [o]
    for o in outs:
        ctx.parts += 1
        ctx.count(rule)
        if o.kind != "return":
            ctx.violate(m, con, rule, "a %s session: setting a handler panics: %s" % (role.lower(), panic_at(o)), facts(o.st))
            continue
        lock = e.rd(o.st, list(at)[0])
        now = e.norm(e.rd(o.st, lock[2]), o.st)
        if now == e.norm(new, o.st): continue
        ctx.violate(m, con, rule, "a %s session: after setting a handler another one is in force" % role.lower(), facts(o.st))


def at_end(e, st, v):
    """The last reference of a chain."""
    while v[0] == "R":
        try: w = e.norm(e.rd(st, v), st)
        except Undecided: break
        if w[0] != "R": break
        v = w
    return v


def drawn_at(S, e, st, c, args, site):
    """A drawn id, and which provider and which store were asked."""
    objects = tuple(at_end(e, st, e.norm(a, st)) for a in args)
    outs = S.draw(e, st, c, args, site)
    for o in outs: o.st.events = o.st.events[:-1] + (o.st.events[-1] + (objects,),)
    return outs


def conn_of(e, st, v):
    """What a connection comes down to, past its pointers."""
    for _ in range(8):
        if v[0] == "R": v = e.rd(st, v)
        elif v[0] in ("&",): v = v[1]
        elif v[0] == "A" and len(v[3]) == 1: v = v[3][0]
        else: break
    return v


def resent(ctx, m, con, st):
    """A second send ends the path: a payload that is not fragmented takes one."""
    if not any(ev[0] == "call" and "DuplexConnection::send" in ev[1] for ev in st.events): return None
    ctx.violate(m, con, "an unset fragment size sends payloads whole", "a new session makes more than one call on its connection to send one payload", facts(st))
    return []


def session(ctx, m, S, role, v, st, f, fc, con, CONN, cells_of, build_payload_from, fnf_parts):
    e = S.e
    asked = set()
    for o in one_payload(ctx, m, S, role, v, st, f, con, CONN, cells_of, build_payload_from):
        asked |= {ev[3] for ev in o.st.events if ev[0] == "draw"}
    con2, rule = "<RSocketMachine as Clone>::clone", "handles share one session"
    with ctx.ob(m, con2, rule):
        g = m.tmethod("RSocketMachine", "Clone", "clone")
        if g is None: raise Missing(con2)
        for o in returns(ctx, m, e, g, [ref(e, st, v)], st.copy(), con2, rule, "clone"):
            for o2 in one_payload(ctx, m, S, role, o.val, o.st, f, con2, CONN, cells_of, build_payload_from):
                got = {ev[3] for ev in o2.st.events if ev[0] == "draw"}
                ctx.count(rule)
                for k, n in ((0, "provider"), (1, "store of streams")):
                    x, y = {a[k] for a in asked}, {a[k] for a in got}
                    if not all(z[0] == "R" for z in x | y): raise Undecided("which %s a handle uses" % n)
                    if x and y and x != y: ctx.violate(m, con2, rule, "a clone of a %s session has a %s of its own" % (role.lower(), n), facts(o2.st))
            x, y = locks(e, o.st, v), locks(e, o.st, o.val)
            ctx.count(rule)
            if x != y: ctx.violate(m, con2, rule, "a clone of a %s session has a request handler of its own" % role.lower(), facts(o.st))
    s2 = st.copy()
    s2.events = ()
    con2, rule = "RSocketMachine::close", "closes its connection"
    for o in returns(ctx, m, e, fc, [ref(e, s2, v)], s2, con2, rule, "close"):
        ctx.count(rule)
        cs = [ev for ev in o.st.events if ev[0] == "call" and ev[1].startswith(CONN)]
        if [ev[1] for ev in cs] != [CONN + "close"]:
            ctx.violate(m, con2, rule, "close() calls %s" % (", ".join(ev[1].split("::")[-1] for ev in cs) or "nothing"), facts(o.st))
        own(ctx, m, e, con2, cs, o.st, role)


def locks(e, st, v, depth=0):
    """Where the locks lie that a value leads to."""
    if depth > 8: return set()
    if v[0] == "R":
        try: w = e.rd(st, v)
        except Undecided: return set()
        return {v} if w[0] == "X" and w[1] == "lock" else locks(e, st, w, depth + 1)
    if v[0] == "A": return set().union(*[locks(e, st, x, depth + 1) for x in v[3]])
    return set()


def one_payload(ctx, m, S, role, v, st, f, con, CONN, cells_of, build_payload_from):
    """Outcomes of sending one payload on a new session or a handle of it."""
    e, res = S.e, []
    for shape in ((True, True), (False, False)):
        q = [bytes_in(n) if h else None for n, h in zip(("metadata", "data"), shape)]
        for o in build_payload_from(S.b, q[0], q[1], st.copy()):
            if o.kind != "return": raise Undecided("building a payload panics")
            o.st.events = ()
            for o2 in call(e, f, [ref(e, o.st, v), o.val], o.st):
                ctx.parts += 1
                if o2.kind != "return":
                    ctx.violate(m, con, "a new session sends", "a %s session: fire_and_forget panics: %s" % (role, panic_at(o2)), facts(o2.st))
                    continue
                res.append(o2)
                draws = [ev for ev in o2.st.events if ev[0] == "draw"]
                if len(draws) != 1: continue    # C26 reports it
                from checks_watch import deep
                cells = cells_of(deep(e, o2.st, draws[0][2][0]))
                if len(cells) != 1: raise Undecided("the provider of a session is not one atomic cell")
                c = e.norm(cells[0], o2.st)
                if c[0] != "I" or not is_c(c[1]): raise Undecided("first id of a session")
                rule = "ids of its role"
                ctx.count(rule)
                want = 1 if role == "Client" else 0
                if c[1][1] & 1 != want: ctx.violate(m, con, rule, "a %s session starts at stream id %d" % (role.lower(), c[1][1]), facts(o2.st))
                sends = [ev for ev in o2.st.events if ev[0] == "call" and ev[1].startswith(CONN)]
                rule = "an unset fragment size sends payloads whole"
                ctx.count(rule)
                if len(sends) != 1: ctx.violate(m, con, rule, "a new %s session makes %d calls on its connection to send one payload" % (role.lower(), len(sends)), facts(o2.st))
                own(ctx, m, e, con, sends, o2.st, role)
    return res


def own(ctx, m, e, con, evs, st, role):
    rule = "uses the connection it was given"
    for ev in evs:
        ctx.count(rule)
        c = conn_of(e, st, ev[2][0])
        if c == ("unknown",): raise Undecided("which connection")
        if not (c[0] == "S" and c[1] == ("in", "argument 2")):
            if c[0] != "S": raise Undecided("which connection")
            ctx.violate(m, con, rule, "%s is called on another connection: %s" % (ev[1].split("::")[-1], pv(e, c)), facts(st))


# ------------------------------------------------------------------ C33
SLACK = 1 << 16


@check("C33", "Every request for memory (capacity, reserve, resize, zeroed) on every path through the decoding of an arbitrary byte sequence, the reassembly of fragments and the taking of n bytes out of "
       "a buffer list is bounded by the bytes that are there, plus 64 KiB.")
def c33(ctx):
    from checks_conn import CARRIERS, Lists, base, by_variant, cat, fragment, list_cases, reassembly
    for m in ctx.each():
        for name, f, sub_ in [("Frame::decode", m.method("Frame", "decode"), False)] + [(sp["ty"] + "::decode", m.tmethod(sp["ty"], "Decode", "decode"), True) for sp in FRAMES]:
            with ctx.ob(m, name, "reserves no more than it was sent"):
                if f is None: raise Missing(name)
                e = m.engine()
                e.track_alloc = True
                st = State()
                args = [ref(e, st, bytes_in("input"))]
                if sub_:
                    st, fl = Builder(m, e).flags(st, "flags")
                    args += [iatom("sid", 0, MAX31), fl]
                for o in call(e, f, args, st): sparing(ctx, m, o, name, len_in("input"), "decoding an arbitrary input")
        for label, items, fs in list_cases(False):
            con = "BufList::copy_to_bytes"
            with ctx.ob(m, con, "reserves no more than it was sent"):
                L = Lists(m)
                L.e.track_alloc = True
                r, sts = L.make(items, base(fs))
                for st in sts:
                    for o in call(L.e, L.buf("copy_to_bytes"), [r, u("n", 64)], st): sparing(ctx, m, o, con, L.e.qlen(cat(L.e, items, o.st), o.st), label)
        con = "TryInto<Payload> for BufList"
        for kinds, shapes in [([k], [("some", "some")]) for k in CARRIERS] + [(["Payload"] * 2, [("some", "some")] * 2), (["Payload"] * 3, [("some", "some"), (None, "some"), ("some", None)])]:
            with ctx.ob(m, con, "reserves no more than it was sent"):
                L = Lists(m)
                L.e.track_alloc = True
                st = State()
                items = [fragment(L.e, by_variant(k), i, s, st, False)[0] for i, (k, s) in enumerate(zip(kinds, shapes))]
                r, sts = L.make(items, st)
                for st in sts:
                    for o in call(L.e, reassembly(m), [L.e.rd(st, r)], st): sparing(ctx, m, o, con, L.e.qlen(cat(L.e, items, o.st), o.st), "%d fragments" % len(items))


def sparing(ctx, m, o, con, there, what):
    rule = "reserves no more than it was sent"
    ctx.parts += 1
    ctx.count("paths")
    for ev in o.st.events:
        if ev[0] == "alloc":
            ctx.count("requests for memory")
            ctx.expect_true(m, o.st, con, rule, LE(ev[1], add(there, C(SLACK))), "%s: memory asked for at %s is no more than 64 KiB above the bytes there" % (what, ev[2]))


# ------------------------------------------------------------------ C34
@check("C34", "The pieces written by every Display implementation of what decoding can refuse: the constant text of each kind, pairwise distinct, and the arguments it shows against the fields of the error.")
def c34(ctx):
    from checks_misc import display
    for m in ctx.each():
        e = m.engine()
        t = m.tid("DecodeError")
        f = m.tmethod("DecodeError", "Display", "fmt")
        con = "<DecodeError as Display>::fmt"
        texts = {}
        for i, v in enumerate(e.types[t]["variants"]):
            with ctx.ob(m, con, "shows what was refused"):
                x = ("A", t, i, tuple(e.mksym(("in", v["name"] + "." + g["name"]), g["ty"]) for g in v["fields"]))
                got = display(ctx, m, e, f, x, State(), con, v["name"])
                if not got: ctx.violate(m, con, "shows what was refused", "%s: never written" % v["name"])
                for st, pieces in got:
                    ctx.count("texts of errors")
                    flat = []
                    for p in pieces:
                        if p[0] == "arg": flat.append(deep_arg(e, st, p[1][1]))
                        else: flat += list(p[1][1])
                    texts.setdefault(v["name"], set()).add(repr([s if s[0] == "be" else "*" for s in flat]))
                    fields = {g["name"]: e.norm(deref(e, fv), st) for g, fv in zip(v["fields"], x[3])}
                    at = {}
                    for g, fv in fields.items():
                        at[g] = [k for k, s in enumerate(flat) if s == fv or fv[0] == "Q" and fv[1] and s == fv[1][0] or is_text_of(s, fv)]
                        if not at[g]: ctx.violate(m, con, "shows what was refused", "%s: %s is not shown" % (v["name"], g), facts(st))
                    labels(ctx, m, e, con, v["name"], flat, at, st)
        ns = sorted(texts)
        ctx.count("pairs of texts", len(ns) * (len(ns) - 1) // 2)
        for i, p in enumerate(ns):
            for q in ns[:i]:
                if texts[p] & texts[q]: ctx.violate(m, con, "different errors read differently", "%s and %s have the same text" % (q, p))


def is_text_of(seg, v):
    """Is this the text some value was turned into?"""
    if seg[0] != "sub": return False
    n = seg[1]
    if not (isinstance(n, tuple) and len(n) == 2): return False
    if n[0] == "to_string": return n[1] == repr(v)
    return n[0] == "formatted" and any(n[1].endswith(", %r)" % (w,)) for w in (v, ("&", v), ("&", ("&", v))))


def labels(ctx, m, e, con, what, flat, at, st):
    """A part right behind another part's name is shown as that other part."""
    ctx.count("parts under their own names")
    for g, ks in at.items():
        for k in ks:
            before = e.qconst(("Q", (flat[k - 1],))) if k and flat[k - 1][0] == "be" else None
            word = re.search(r"(\w+)[\s:=]*$", before.decode("utf8", "replace")) if before else None
            if word and word.group(1) in at and word.group(1) != g:
                ctx.violate(m, con, "shows what was refused", "%s: %s is shown as %s" % (what, g, word.group(1)), facts(st))


def deep_arg(e, st, v):
    while v[0] == "&": v = v[1]
    return e.norm(v, st)


# ------------------------------------------------------------------ C35
@check("C35", "Every partition in which an arbitrary byte sequence is accepted: the decoded frame is encoded, its announced length compared with the bytes, and those bytes are decoded "
       "again and compared with the frame, as exact compositions of the three transfer functions.")
def c35(ctx):
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)
        con, rule = "Frame::decode, then encode", "a decoded frame can be passed on"
        with ctx.ob(m, con, rule):
            n = 0
            for o, _ in b.decode(bytes_in("input"), State()):
                if o.kind != "return": continue     # C01 reports it
                with ctx.ob(m, con, rule):
                    r = b.ok_frame(o)
                    if r[0] == "err": continue
                    n += 1
                    try: passed_on(ctx, m, b, r, o.st, con, rule)
                    except Undecided:
                        if not short_parts(ctx, m, b, r, o.st, con, rule): raise
            if not n: ctx.violate(m, con, rule, "no input is accepted")


def short_parts(ctx, m, b, r, st, con, rule):
    """Where the lengths of parts leave a case undecided: are there violations with parts of a few bytes?"""
    e = b.e
    before = len(ctx.viol)
    lens = []
    for q in pieces_in(r[3]):
        for s in q[1]:
            x = st.nz(e.seglen(s))
            if x[0] != "c" and x not in lens: lens.append(x)
    for ks in itertools.product((0, 1, 2), repeat=min(len(lens), 4)):
        s = st.copy()
        if not all(s.assume(EQ(x, C(k), s)) is not False for x, k in zip(lens, ks)): continue
        try: passed_on(ctx, m, b, r, s, con, rule)
        except Undecided: pass
        if len(ctx.viol) > before: return True
    return False


def pieces_in(v):
    if not isinstance(v, tuple) or not v: return
    if v[0] == "Q": yield v
    elif v[0] == "A":
        for x in v[3]: yield from pieces_in(x)


def passed_on(ctx, m, b, r, st, con, rule):
    e = b.e
    what = "a decoded " + r[1]
    for o, q, _ in b.encode(None, r[3], st.copy(), ty="Frame"):
        ctx.parts += 1
        ctx.count(rule)
        if o.kind != "return":
            ctx.violate(m, con, rule, "%s: encoding it panics: %s" % (what, panic_at(o)), facts(o.st))
            continue
        for o2 in b.length(None, r[3], o.st.copy(), ty="Frame"):
            if o2.kind != "return": ctx.violate(m, con, "its length is exact", "%s: len() panics: %s" % (what, panic_at(o2)), facts(o2.st))
            else: ctx.expect(m, e, o2.st, con, "its length is exact", o2.val, ("I", e.qlen(q, o2.st)), what + ": len()")
        for o2, left in b.decode(q, o.st.copy()):
            if o2.kind != "return":
                ctx.violate(m, con, rule, "%s: decoding it again panics: %s" % (what, panic_at(o2)), facts(o2.st))
                continue
            r2 = b.ok_frame(o2)
            if r2[0] == "err":
                ctx.violate(m, con, rule, "%s: its encoding is refused: %s" % (what, b.err_name(r2[1])), facts(o2.st))
                continue
            ctx.expect(m, e, o2.st, con, "nothing is left over", left, ("Q", ()), what + ": bytes left after decoding it again")
            compare(ctx, m, b, "Frame", r2[3], r[3], o2.st, True, what + " and what its encoding decodes to")
