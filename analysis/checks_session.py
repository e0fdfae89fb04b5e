"""Checks of the session: C26, C27."""
from lib import *
from checks_codec import CHECKS as _c, check as _check, panic_at
from checks_conn import N, build_payload_from, cat, drop, qlen
from frames import *
from frames import LIMIT

CHECKS = {}


def check(pid, rule):
    def deco(f):
        CHECKS[pid] = (f, rule)
        return f
    return deco


CONN = "binate::connection::conn::DuplexConnection::"


def short(path): return path.split("::")[-1]


class Session:
    """A session over an arbitrary connection, every field unknown except the fragment size."""

    def __init__(self, m):
        self.m, self.e = m, m.engine()
        self.b = Builder(m, self.e)
        self.tid = m.tid("RSocketMachine")
        self.e.finite = True
        self.e.overrides[self.draws_of()] = self.draw

    def draws_of(self): return self.m.method("StreamIdProvider", "next_stream_id")["path"]

    def draw(self, e, st, c, args, site):
        """next_stream_id: some id in range that no stream uses (C18, C19)."""
        k = e.fresh(st, "draw")
        st.events += (("draw", k, tuple(e.snapshot(st, a) for a in args)),)
        t = ("a", ("in", "drawn id %d" % k), 1, (1 << 31) - 1)
        return [engine.Out("return", st, ("I", t))]

    def make(self, st, size):
        e = self.e
        v = e.expand(e.mksym(("in", "session"), self.tid))
        fs = e.fields_of(self.tid)
        at = [i for i, t in enumerate(fs) if e.types[t].get("path") == "core::option::Option" and e.types[t]["s"].endswith("<usize>")]
        if len(at) != 1: raise Undecided("which field of the session is the fragment size")
        opt = ("A", fs[at[0]], 1, (size,)) if size is not None else ("A", fs[at[0]], 0, ())
        v = ("A", v[1], v[2], v[3][:at[0]] + (opt,) + v[3][at[0] + 1:])
        return ref(e, st, v)


def sized(name, most):
    """(label, contents or None, facts): a part of a payload up to so many fragments long."""
    n = N[1]
    r = ("a", ("in", "rest of " + name), 0, LENMAX)

    def q(t): return ("Q", (("sub", ("in", name), C(0), t),))
    small = [GE(sub(r, C(1))), LT(r, n)]
    yield "no " + name, None, []
    yield "empty " + name, ("Q", ()), []
    for k in range(most):
        t = scale(n, k) if k else C(0)
        yield "%s of %d n bytes and a rest" % (name, k), q(add(t, r)), small + [LE(add(t, r), C(1 << 40))]
        yield "%s of %d n bytes" % (name, k + 1), q(add(t, n)), [LE(add(t, n), C(1 << 40))]


def skip_frames(a, b, j):
    """The state b, one frame after a, with a mark that j more such frames are skipped."""
    new = [ev for ev in b.events[len(a.events):] if ev[0] in ("call", "draw")]
    if b.events[:len(a.events)] != a.events or [ev[1] for ev in new] != [CONN + "send_and_forget"]: return None
    if b.assume(LE(j, C(LENMAX))) is False: return None
    b.events += (("jump", j),)
    return b


def rests_of(*parts): return [x for x in parts if x is not None]


def results(e, st, v):
    """Forks on an unknown Result: [(variant, contents or None, state)]."""
    w = e.resolve_enum(v, st)
    if w[0] == "A": return [(w[2], w[3], st)]
    out = []
    for k in (0, 1):
        st2 = st.copy()
        p = st2.vars.get(v[1])
        if p is not None and k not in p: continue
        st2.vars[v[1]] = frozenset([k])
        x = e.resolve_enum(v, st2)
        if x[0] != "A": raise Undecided("unknown result of a send")
        out.append((k, x[3], st2))
    return out


def session_calls(st):
    return [ev for ev in st.events if ev[0] in ("draw", "call", "jump")]


def fnf_parts(S, frame, st):
    """(state, stream id, follows, metadata, data) of a REQUEST_FNF frame as its accessors tell."""
    m, e = S.m, S.e
    fr = e.resolve_enum(frame, st)
    if fr[0] != "A": raise Undecided("which frame is sent")
    name = e.types[fr[1]]["variants"][fr[2]]["name"]
    if name != "RequestFnf":
        yield st, name, None, None, None, None
        return
    inner = fr[3][0]

    def get(meth, x, st, own=False):
        o = one_ret(call(e, m.method("RequestFnfFrame", meth), [x if own else ref(e, st, x)], st), meth)
        return o.val, o.st
    sid, st = get("stream_id", inner, st)
    fol, st = get("is_follows", inner, st)
    pl, st = get("payload", inner, st, True)
    o = one_ret(call(e, m.method("Payload", "split"), [pl], st), "split")
    st = o.st
    parts = []
    for x in o.val[3]:
        x = e.resolve_enum(x, st)
        if x[0] != "A": raise Undecided("presence of a part of a sent payload")
        parts.append(e.as_q(x[3][0], st) if x[2] == 1 else None)
    yield st, name, sid, fol, parts[0], parts[1]


def one_ret(outs, what):
    if len(outs) != 1 or outs[0].kind != "return": raise Undecided("%s: %d outcomes" % (what, len(outs)))
    return outs[0]


def judge_send(ctx, S, con, what, st, ret, meta, data, size):
    m, e = S.m, S.e
    evs = session_calls(st)
    draws = [ev for ev in evs if ev[0] == "draw"]
    sends = [ev for ev in evs if ev[0] == "call" and ev[1] == CONN + "send_and_forget"]
    for ev in evs:
        if ev[0] == "call" and ev[1].startswith(CONN) and ev not in sends:
            ctx.violate(m, con, "sends frames only", "%s: also calls %s of the connection" % (what, short(ev[1])), facts(st))
            return
    ctx.count("one stream id")
    if len(draws) != 1:
        ctx.violate(m, con, "one stream id", "%s: draws %d stream ids" % (what, len(draws)), facts(st))
        return
    ctx.count("an id no stream of this session uses")
    if any(a[0] == "&" and a[1][0] == "X" for a in draws[0][2][1:]):
        ctx.violate(m, con, "an id no stream of this session uses", "%s: the id is looked up in another table than the session's" % what, facts(st))
        return
    ctx.count("at least one frame")
    if not sends:
        ctx.violate(m, con, "at least one frame", "%s: returns without sending anything" % what, facts(st))
        return
    rms, rds, seen = meta, data, [False, False]
    skips = {id(evs[i + 1]): ev[1] for i, ev in enumerate(evs[:-1]) if ev[0] == "jump"}
    for i, ev in enumerate(sends):
        last = i == len(sends) - 1
        if id(ev) in skips:
            # frames of one byte of each part not complete yet, as shown by induction
            rms, rds = (o if o is None or st.decide(EQ0(st.nz(e.qlen(o, st)))) is True else drop(e, o, skips[id(ev)], st) for o in (rms, rds))
        w = "%s: frame %d" % (what, i + 1)
        for st2, name, sid, fol, pm, pd in fnf_parts(S, ev[2][1], st.copy()):
            if name != "RequestFnf":
                ctx.violate(m, con, "sends REQUEST_FNF frames", "%s is a %s frame" % (w, name), facts(st2))
                return
            ctx.expect(m, e, st2, con, "every frame on the drawn stream", sid, ("I", ("a", ("in", "drawn id %d" % draws[0][1]), 1, (1 << 31) - 1)), w + ": stream id")
            rest = []
            for k, (nm, p, o) in enumerate((("metadata", pm, rms), ("data", pd, rds))):
                if p is None:
                    rest.append(o)
                    continue
                seen[k] = True
                if o is None:
                    ctx.violate(m, con, "the payload in order", "%s has %s, the payload has none left" % (w, nm), facts(st2))
                    return
                lp = e.qlen(p, st2)
                if ctx.expect_true(m, st2, con, "the payload in order", LE(lp, e.qlen(o, st2)), "%s: no more %s than is left" % (w, nm)) is not True: return
                if size is not None and ctx.expect_true(m, st2, con, "fragments of at most n bytes", LE(lp, size), "%s: at most n bytes of %s" % (w, nm)) is not True: return
                if ctx.expect(m, e, st2, con, "the payload in order", p, e.qslice(o, C(0), lp, st2), "%s: %s" % (w, nm)) is not True: return
                rest.append(drop(e, o, lp, st2))
            rms, rds = rest
            left = st2.nz(add(qlen(e, rms, st2), qlen(e, rds, st2)))
            if fol[0] != "B": raise Undecided("follows flag")
            f = st2.decide(fol[1])
            more = st2.decide(LT(C(0), left))
            if more is None and any(st2.decide(LT(C(0), st2.nz(qlen(e, x, st2)))) is True for x in rests_of(rms, rds)): more = True
            ctx.count("follows on all but the last")
            if f is None or more is None:
                raise Undecided("follows flag of frame %d" % (i + 1))
            if f != more:
                ctx.violate(m, con, "follows on all but the last", "%s: the follows flag is %s, %s" % (w, "set" if f else "clear", "but more is left" if more else "but nothing is left"), facts(st2))
                return
            if last: fin = (st2, left)
        res = ("S", ("ret", ev[1], ev[3]), S.e.types and retty(S))
        if not last:
            ctx.count("an error stops it")
            p = st.vars.get(res[1])
            if p is None or 1 in p:
                ctx.violate(m, con, "an error stops it", "%s: frame %d is sent although sending frame %d may have failed" % (what, i + 2, i + 1), facts(st))
                return
            continue
        ctx.count("the error is returned")
        for k, inner, st3 in results(e, st.copy(), res):
            r = e.resolve_enum(ret, st3)
            if r[0] != "A":
                if same(e, st3, r, res) is True: continue
                raise Undecided("returned value")
            if r[2] != k:
                ctx.violate(m, con, "the error is returned", "%s: returns %s although sending frame %d %s" % (what, "Ok" if r[2] == 0 else "an error", i + 1, "failed" if k else "succeeded"), facts(st3))
                return
            if k == 1: ctx.expect(m, e, st3, con, "the error is returned", e.snapshot(st3, r[3][0]), e.snapshot(st3, inner[0]), "%s: error of frame %d" % (what, i + 1))
            if k == 0:
                st4, left = fin
                if ctx.expect_true(m, st4, con, "all of the payload", EQ0(left), what + ": everything was sent when it returns Ok") is not True: return
                for j, (nm, o) in enumerate((("metadata", meta), ("data", data))):
                    if (o is not None) and not seen[j]:
                        ctx.violate(m, con, "all of the payload", "%s: the (empty) %s of the payload is in no frame" % (what, nm), facts(st4))


def retty(S): return S.m.retty(S.m.need("RSocketMachine", "RSocket", "fire_and_forget"))


@check("C26", "Exact sequence of calls a fire-and-forget and a metadata push make on an arbitrary connection (calls through the connection's trait object are events with "
       "unknown results), for every payload shape up to three (thorough: five) fragments of unknown size n per part, without fragmentation, and for 40 fragments; "
       "every failure position is a partition.")
def c26(ctx):
    most = 4 if ctx.tier == "thorough" else 3
    for m in ctx.each():
        f = m.need("RSocketMachine", "RSocket", "fire_and_forget")
        con = "RSocketMachine::fire_and_forget"

        def run(what, size, meta, data, fs, long=False):
            with ctx.ob(m, con, "sends the whole payload"):
                S = Session(m)
                if long: S.e.jump = skip_frames
                st = State()
                for x in fs:
                    if st.assume(x) is False: return
                me = S.make(st, size)
                for o in build_payload_from(S.b, meta, data, st):
                    if o.kind != "return": raise Undecided("building a payload panics")
                    o.st.events = ()
                    for o2 in call(S.e, f, [me, o.val], o.st):
                        ctx.parts += 1
                        if o2.kind != "return":
                            ctx.violate(m, con, "returns", "%s: panics: %s" % (what, panic_at(o2)), facts(o2.st))
                            continue
                        judge_send(ctx, S, con, what, o2.st, o2.val, meta, data, size and size[1])
        for lm, meta in (("no metadata", None), ("empty metadata", ("Q", ())), ("metadata", bytes_in("metadata"))):
            for ld, data in (("no data", None), ("empty data", ("Q", ())), ("data", bytes_in("data"))):
                run("no fragmentation, %s, %s" % (lm, ld), None, meta, data, [])
        for lm, meta, fm in sized("metadata", most):
            for ld, data, fd in sized("data", most):
                run("fragments of n bytes, %s, %s" % (lm, ld), N, meta, data, [GE(sub(N[1], C(1)))] + fm + fd)
        for a, b in ((40, 40), (33, 40), (40, 7), (0, 40), (40, 0)):
            q = lambda name, k: ("Q", (("sub", ("in", name), C(0), C(k)),)) if k else None
            run("fragments of one byte, %d bytes of metadata, %d of data" % (a, b), ("I", C(1)), q("metadata", a), q("data", b), [])
        some = lambda name: ("Q", (("sub", ("in", name), C(0), ("a", ("in", "length of " + name), 1, LENMAX)),))
        for a, b in ((1, 0), (0, 1), (1, 1)):
            mark, bad = len(ctx.und), len(ctx.viol)
            what = " and ".join(x for x, y in (("any metadata", a), ("any data", b)) if y)
            run("fragments of one byte, " + what, ("I", C(1)), some("metadata") if a else None, some("data") if b else None, [], True)
            if len(ctx.und) > mark and len(ctx.viol) == bad:
                # fragments that are not sent as they are cut (collected first, say): followed one by one, up to these many
                why = ctx.und[mark]["reason"]
                del ctx.und[mark:]
                for k in (70, 257):
                    run("fragments of one byte, %d bytes" % k, ("I", C(1)), q("metadata", k * a), q("data", k * b), [])
                if len(ctx.und) == mark: ctx.notes.append("%s: checked for up to 257 fragments only (%s)" % (what, why))
        pushes(ctx, m)


def pushes(ctx, m):
    con = "RSocketMachine::metadata_push"
    with ctx.ob(m, con, "sends exactly the metadata"):
        f = m.need("RSocketMachine", "RSocket", "metadata_push")
        S = Session(m)
        e = S.e
        st = State()
        me = ref(e, st, e.mksym(("in", "session"), S.tid))
        for o in call(e, f, [me, bytes_in("metadata")], st):
            ctx.parts += 1
            if o.kind != "return":
                ctx.violate(m, con, "returns", "panics: %s" % panic_at(o), facts(o.st))
                continue
            evs = session_calls(o.st)
            sends = [ev for ev in evs if ev[0] == "call" and ev[1] == CONN + "send"]
            other = [ev for ev in evs if ev[0] == "draw" or (ev[1].startswith(CONN) and ev not in sends)]
            lazy = contains_coroutine(e, o.st, o.val)
            if lazy and not sends and calls_of_tasks(e, o.st, o.val): raise Undecided("the push is sent by a task of its own")
            ctx.count("exactly one frame")
            if len(sends) != 1 or other:
                ctx.violate(m, con, "exactly one frame", "sends %d frames%s" % (len(sends), "".join(", calls " + (short(ev[1]) if ev[0] == "call" else "next_stream_id") for ev in other)), facts(o.st))
                continue
            fr = e.resolve_enum(sends[0][2][1], o.st)
            if fr[0] != "A": raise Undecided("which frame is sent")
            name = e.types[fr[1]]["variants"][fr[2]]["name"]
            if name != "MetadataPush":
                ctx.violate(m, con, "a METADATA_PUSH frame", "sends a %s frame" % name, facts(o.st))
                continue
            o2 = one_ret(call(e, m.method("MetadataPushFrame", "metadata"), [ref(e, o.st, fr[3][0])], o.st.copy()), "metadata()")
            v = o2.val
            while v[0] == "R": v = e.rd(o2.st, v)
            ctx.expect(m, e, o2.st, con, "exactly the metadata", e.as_q(v, o2.st), bytes_in("metadata"), "metadata of the frame")
            ctx.count("returns that send's outcome")
            want = e.mksym(("ret", sends[0][1], sends[0][3]), m.retty(f))
            if same(e, o.st, o.val, want) is True: continue
            if lazy or refers(e, o.st, o.val, want): raise Undecided("the outcome of the send is wrapped")
            ctx.violate(m, con, "returns that send's outcome", "returns something else: %s" % pv(e, e.snapshot(o.st, o.val)), facts(o.st))


def walk(e, st, v, f, depth=0):
    """Does f hold of a value or anything it owns or points to?"""
    if depth > 8: return False
    if f(v): return True
    if v[0] == "R" and v[1][0] != "cval":
        try: return walk(e, st, e.rd(st, v), f, depth + 1)
        except Undecided: return False
    if v[0] == "A": return any(walk(e, st, x, f, depth + 1) for x in v[3])
    if v[0] == "X" and v[1] == "coroutine": return any(walk(e, st, x, f, depth + 1) for x in v[2][1])
    return False


def contains_coroutine(e, st, v):
    return walk(e, st, v, lambda x: x[0] == "X" and x[1] == "coroutine")


def calls_of_tasks(e, st, v):
    """Calls made by the tasks a value holds."""
    found = []

    def see(x):
        if x[0] == "X" and x[1] == "coroutine": found.append(x[2][0])
        return False
    walk(e, st, v, see)
    n = 0
    for ty in found:
        bs = [b for b in e.d.coroutines if b["path"] == e.types[ty].get("path")]
        if not bs: raise Undecided("no body of a task")
        n += sum(1 for b in bs for k in b["blocks"] if k["t"]["t"] in ("call", "tailcall") and not k["cleanup"])
    return n


def refers(e, st, v, want): return walk(e, st, v, lambda x: x == want)
