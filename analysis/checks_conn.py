"""Checks of payload fragmentation, reassembly, counters and the session: C14-C20, C26, C27."""
from lib import *
from frames import *
from checks_codec import cname, panic_at
from checks_misc import build_payload, qatom, returns
import engine
import models

CHECKS = {}


def check(pid, rule):
    def deco(f):
        CHECKS[pid] = (f, rule)
        return f
    return deco


# ------------------------------------------------------------------ C14, C15
N = u("n", 64)


def part_cases(name):
    """(label, contents or None, facts): one part of a payload, its length as a multiple of the fragment size plus a rest."""
    n = N[1]
    r = ("a", ("in", "rest of " + name), 0, LENMAX)
    k = ("a", ("in", "whole fragments of " + name), 2, LENMAX)
    nk = op("mul", sorted((n, k), key=repr), 0, LENMAX)

    def q(t): return ("Q", (("sub", ("in", name), C(0), t),))
    small = [GE(sub(r, C(1))), LT(r, n)]
    many = [LE(scale(n, 2), nk), LE(nk, C(LENMAX)), LE(n, C(LENMAX))]
    yield "no " + name, None, []
    yield "empty " + name, ("Q", ()), []
    yield "%s shorter than n" % name, q(r), small
    yield "%s of n bytes" % name, q(n), [LE(n, C(LENMAX))]
    yield "%s between n and 2n" % name, q(add(n, r)), small + [LE(add(n, r), C(LENMAX))]
    yield "%s of several n bytes" % name, q(nk), many
    yield "%s of several n bytes and more" % name, q(add(nk, r)), many + small + [LE(add(nk, r), C(LENMAX))]


def size_cases():
    yield "n = 1", C(1)
    yield "n > 1", None


class Chunking:
    """The public interface of fragmentation: chunks, next and the announced length."""

    def __init__(self, m):
        self.m, self.e = m, m.engine()
        self.b = Builder(m, self.e)
        self.f_chunks = m.method("Payload", "chunks")
        self.f_next = m.need("PayloadChunks", "Iterator", "next")
        self.f_hint = m.tmethod("PayloadChunks", "Iterator", "size_hint")
        self.f_len = m.tmethod("PayloadChunks", "ExactSizeIterator", "len")
        self.f_split = m.method("Payload", "split")

    def start(self, st, meta, data):
        """Fresh iterators over a payload with these parts, each in a memory cell."""
        for o in build_payload_from(self.b, meta, data, st):
            if o.kind != "return":
                yield o, None
                continue
            for o2 in call(self.e, self.f_chunks, [o.val, N], o.st):
                yield o2, (ref(self.e, o2.st, o2.val) if o2.kind == "return" else None)

    def fresh(self, st, meta, data):
        """The iterator state of a fresh fragmentation of these parts on this very partition, or None."""
        outs = [(o, r) for o, r in self.start(st.copy(), meta, data)]
        if len(outs) != 1 or outs[0][1] is None: return None
        o, r = outs[0]
        return self.e.snapshot(o.st, self.e.rd(o.st, r))

    def parts(self, p, st):
        """Metadata and data of a yielded fragment."""
        for o in call(self.e, self.f_split, [p], st):
            if o.kind != "return": raise Undecided("splitting a fragment panics")
            res = []
            for x in o.val[3]:
                x = self.e.resolve_enum(x, o.st)
                if x[0] != "A": raise Undecided("presence of a part of a fragment")
                res.append(self.e.as_q(x[3][0], o.st) if x[2] == 1 else None)
            yield o.st, res[0], res[1]

    def announced(self, st, it):
        """(state, announced number of fragments left) for both announcements."""
        if self.f_len is not None:
            for o in call(self.e, self.f_len, [it], st.copy()): yield "len()", o, o.val
        if self.f_hint is not None:
            for o in call(self.e, self.f_hint, [it], st.copy()):
                if o.kind != "return" or o.val[0] != "A" or len(o.val[3]) != 2:
                    yield "size_hint()", o, o.val
                    continue
                hi = self.e.resolve_enum(o.val[3][1], o.st)
                yield "size_hint().0", o, o.val[3][0]
                yield "size_hint().1", o, hi[3][0] if hi[0] == "A" and hi[2] == 1 else None


    def announced_of(self, st, it):
        """The same for an iterator that is not in memory (any more)."""
        st = st.copy()
        return self.announced(st, ref(self.e, st, it))


def build_payload_from(b, meta, data, st):
    m, e = b.m, b.e
    outs = call(e, m.method("Payload", "builder"), [], st)
    for n, v in (("set_metadata", meta), ("set_data", data), ("build", True)):
        if v is None: continue
        nxt = []
        for o in outs:
            if o.kind != "return": nxt.append(o)
            else: nxt += call(e, m.method("PayloadBuilder", n), [o.val] + ([v] if n != "build" else []), o.st)
        outs = nxt
    return outs


def qlen(e, q, st): return C(0) if q is None else e.qlen(q, st)


def chunk_inputs(c):
    """(label, state, metadata, data) for every shape of payload and fragment size."""
    for lm, meta, fm in part_cases("metadata"):
        for ld, data, fd in part_cases("data"):
            st = State()
            if not st.assume(GE(sub(N[1], C(1)))): continue
            if all(st.assume(f) is not False for f in fm + fd): yield "%s, %s" % (lm, ld), st, meta, data


def drop(e, q, n, st):
    """The bytes of q after the first n."""
    return e.qslice(q, n, e.qlen(q, st), st)


def one_step(ctx, c, con, what, st, ret, meta, data):
    """Judges one fragment against what is left; yields (state, rest of metadata, rest of data) or nothing when it ends."""
    m, e = c.m, c.e
    rule = "a fragment takes the next at most n bytes of each part"
    v = e.resolve_enum(ret, st)
    if v[0] != "A": raise Undecided("next() returns neither Some nor None")
    total = add(qlen(e, meta, st), qlen(e, data, st))
    if v[2] == 0:
        ctx.expect_true(m, st, con, "ends only when everything was yielded", EQ0(st.nz(total)), what + ": next() is None, so nothing is left")
        return
    for st2, cm, cd in c.parts(v[3][0], st):
        rests, got, ok, got_part = [], C(0), True, []
        for name, o, p in (("metadata", meta, cm), ("data", data, cd)):
            if p is None:
                rests.append(o)
                continue
            lp, lo = qlen(e, p, st2), qlen(e, o, st2)
            got = add(got, lp)
            ok &= ctx.expect_true(m, st2, con, rule, LE(lp, N[1]), "%s: the %s part of a fragment has at most n bytes" % (what, name)) is True
            ok &= ctx.expect_true(m, st2, con, rule, LE(lp, lo), "%s: a fragment adds no %s" % (what, name)) is True
            if not ok: break
            if o is None:
                ctx.violate(m, con, "a part that is complete does not come again", "%s: the %s part of a fragment is present though it was absent or complete before" % (what, name), facts(st2))
                ok = False
                break
            ok &= ctx.expect(m, e, st2, con, rule, p, e.qslice(o, C(0), lp, st2), "%s: the %s part of a fragment" % (what, name)) is True
            ok &= ctx.expect_true(m, st2, con, "every part but the last has n bytes", OR([EQ(st2.nz(lp), st2.nz(lo), st2), EQ(st2.nz(lp), N[1], st2)]),
                                  "%s: the %s part of a fragment is its last or has n bytes" % (what, name)) is True
            if not ok: break
            rests.append(drop(e, o, lp, st2))
            got_part.append(name)
        if not ok: continue
        if ctx.expect_true(m, st2, con, "no fragment without content while content is left", OR([EQ0(st2.nz(total)), LT(C(0), st2.nz(got))]),
                           what + ": a fragment has content") is not True: continue
        yield from complete(e, st2, rests, [n in got_part for n in ("metadata", "data")])


def complete(e, st, rests, yielded):
    """The rests with a part that was just yielded to its last byte as absent, on each partition."""
    for i, (q, y) in enumerate(zip(rests, yielded)):
        if q is None or not y: continue
        z = EQ0(st.nz(e.qlen(q, st)))
        d = st.decide(z)
        gone = rests[:i] + [None] + rests[i + 1:]
        if d is True: rests = gone
        elif d is None:
            a, b = st.copy(), st.copy()
            if a.assume(z) is not False: yield from complete(e, a, gone, yielded)
            if b.assume(NOT(z)) is not False: yield from complete(e, b, rests, yielded[:i] + [False] + yielded[i + 1:])
            return
    yield st, rests[0], rests[1]


def candidates(e, st, meta, data):
    """What is left, with an empty part as absent or as empty."""
    def alt(q):
        if q is None: return [None]
        n = st.decide(EQ0(st.nz(e.qlen(q, st))))
        if n is True: return [None, ("Q", ())]
        return [q]
    return [(a, b) for a in alt(meta) for b in alt(data)]


@check("C14", "Inductive argument over one call of next() on a fresh fragmentation of an arbitrary payload (each part absent, empty, shorter than n, or any "
       "multiple of n plus a rest): the fragment takes the next bytes of each part, and the iterator is then in the state of a fresh fragmentation of what is left.")
def c14(ctx):
    for m in ctx.each():
        c = Chunking(m)
        e = c.e
        con = "PayloadChunks::next"
        with ctx.ob(m, "Payload::chunks", "n = 0 panics"):
            st = State()
            for o in build_payload(c.b, bytes_in("metadata"), bytes_in("data"), "metadata first"):
                if o.kind != "return": raise Undecided("building a payload panics")
                for o2 in call(e, c.f_chunks, [o.val, ("I", C(0))], o.st):
                    if o2.kind != "panic": ctx.violate(m, "Payload::chunks", "n = 0 panics", "returns for n = 0", facts(o2.st))
        for what, st0, meta, data in chunk_inputs(c):
            with ctx.ob(m, con, "one step of the iteration"):
                for o, it in c.start(st0, meta, data):
                    ctx.parts += 1
                    if it is None:
                        ctx.violate(m, "Payload::chunks", "chunking returns", "%s: panics: %s" % (what, panic_at(o)), facts(o.st))
                        continue
                    explore(ctx, c, con, what, o.st, it, meta, data, 4)
        if any(x["construct"] == con for x in ctx.und):
            long_runs(ctx, m, con, "one step of the iteration", lambda c, what, st, it, meta, data: explore(ctx, c, con, what, st, it, meta, data, 0))
            small_runs(ctx, m, con, "one step of the iteration", lambda c, what, st, it, meta, data: explore(ctx, c, con, what, st, it, meta, data, 4))


def long_runs(ctx, m, con, rule, judge):
    """Where one step does not lead back to a fresh fragmentation, fragments of one byte: after two of them, the state after any
    further number of them is written down, followed through one step more, and the step after that is judged."""
    for what, meta, data in (("metadata", bytes_in("metadata"), None), ("data", None, bytes_in("data")), ("both", bytes_in("metadata"), bytes_in("data"))):
        with ctx.ob(m, con, rule):
            c = Chunking(m)
            e = c.e
            st0 = State()
            st0.assume(EQ(N[1], C(1), st0))
            for q in (meta, data):
                if q is not None: st0.assume(LE(C(3), e.qlen(q, st0)))
            label = "fragments of one byte of %s, after any number of them" % what
            for o, it in c.start(st0, meta, data):
                if it is None: continue
                for s1, m1, d1 in steps_quietly(c, o.st, it, meta, data):
                    for s2, m2, d2 in steps_quietly(c, s1.copy(), it, m1, d1):
                        moved = e.shifts(s1, s2)
                        if not moved: continue
                        judge(c, label, s2.copy(), it, m2, d2)
                        j = ("a", ("in", "fragments before"), 0, LENMAX)
                        t, least = s2.copy(), {}
                        for cell, path, old, d in moved:
                            if old[0] == "I": e.write(t, cell, path, ("I", t.nz(add(old[1], scale(j, d)))))
                            elif isinstance(d, tuple): raise Undecided("a window that moves")
                            else:
                                t.assume(LE(add(scale(j, d), C(1)), e.qlen(old, t)))
                                least[cell, path] = 1
                                e.write(t, cell, path, e.qslice(old, scale(j, d), e.qlen(old, t), t))
                        m3, d3 = (None if q is None else drop(e, q, j, t) if t.assume(LE(j, e.qlen(q, t))) is not False else None for q in (m2, d2))
                        moved = [(x, p, e.read(t, x, p), d, least.get((x, p))) for x, p, _, d in moved]
                        for u_, m4, d4 in steps_quietly(c, t.copy(), it, m3, d3):
                            if e.shifted(t, u_, moved): judge(c, label, u_, it, m4, d4)


def small_runs(ctx, m, con, rule, judge):
    """Where the steps are not followed for payloads of any length, payloads of a few unknown bytes in fragments of two or three."""
    for n, lm, ld in ((2, 4, None), (2, None, 4), (2, 5, None), (2, None, 5), (3, 7, 4), (2, 0, 3)):
        with ctx.ob(m, con, rule):
            c = Chunking(m)
            c.e.finite = True      # loops over a few bytes are followed, not summarised
            st = State()
            st.assume(EQ(N[1], C(n), st))
            for x, k in (("metadata", lm), ("data", ld)):
                if k: st.assume(LE(C(k), len_in(x)))
            parts = [None if k is None else c.e.qslice(bytes_in(x), C(0), C(k), st) if k else ("Q", ()) for x, k in (("metadata", lm), ("data", ld))]
            label = "fragments of %d bytes of %s" % (n, " and ".join("%d bytes of %s" % (k, x) for x, k in (("metadata", lm), ("data", ld)) if k is not None))
            for o, it in c.start(st, *parts):
                if it is not None: judge(c, label, o.st, it, *parts)


def steps_quietly(c, st, it, meta, data):
    """The states after one call of next() that yields a fragment with the next byte of each part."""
    e = c.e
    for o in call(e, c.f_next, [it], st.copy()):
        if o.kind != "return": continue
        v = e.resolve_enum(o.val, o.st)
        if v[0] != "A" or v[2] == 0: continue
        for st2, cm, cd in c.parts(v[3][0], o.st):
            rests = []
            for q, p in ((meta, cm), (data, cd)):
                if (q is None) != (p is None) or p is not None and same(e, st2, p, e.qslice(q, C(0), C(1), st2)) is not True: break
                rests.append(None if q is None else drop(e, q, C(1), st2))
            else: yield st2, rests[0], rests[1]


def explore(ctx, c, con, what, st, it, meta, data, depth):
    m, e = c.m, c.e
    before = e.snapshot(st, e.rd(st, it))
    for o in call(e, c.f_next, [it], st):
        ctx.parts += 1
        if o.kind != "return":
            ctx.violate(m, con, "next() returns", "%s: panics: %s" % (what, panic_at(o)), facts(o.st))
            continue
        v = e.resolve_enum(o.val, o.st)
        if v[0] == "A" and v[2] == 0:
            # it stays ended
            for o2 in call(e, c.f_next, [it], o.st.copy()):
                ctx.count("stays ended")
                if o2.kind != "return" or e.resolve_enum(o2.val, o2.st)[2] != 0:
                    ctx.violate(m, con, "stays ended", what + ": next() after the end " + ("panics" if o2.kind != "return" else "yields a fragment"), facts(o2.st))
                elif same(e, o2.st, e.rd(o2.st, it), e.rd(o.st, it)) is not True:
                    ctx.undecided(m, con, "the state after the end changes with every call")
        for st2, rm, rd in one_step(ctx, c, con, what, o.st, o.val, meta, data):
            ctx.count("then in the state of a fresh fragmentation of the rest")
            after = e.snapshot(st2, e.rd(st2, it))
            if same(e, st2, after, before) is True:
                ctx.violate(m, con, "the iteration ends", what + ": a fragment is yielded but the iterator does not advance", facts(st2))
                continue
            ok = False
            for a, b in candidates(e, st2, rm, rd):
                f = c.fresh(st2, a, b)
                if f is not None and same(e, st2, after, f) is True: ok = True
            if ok: continue
            if depth > 0 and within(st2, before):
                # look for a definite failure further on
                explore(ctx, c, con, what + ", further on", st2, it, rm, rd, depth - 1)
            if depth == 4: ctx.undecided(m, con, what + ": the state after next() is not that of a fresh fragmentation of the rest")


def within(st, before): return st.forks < 4000


@check("C15", "Same induction as C14: the announced number (len and both ends of size_hint) before one call of next() is one more than after it, and zero exactly "
       "when next() is None; the quotients are exact integer terms over the number of whole fragments and the rest.")
def c15(ctx):
    for m in ctx.each():
        c = Chunking(m)
        e = c.e
        for what, st0, meta, data in chunk_inputs(c):
            with ctx.ob(m, "PayloadChunks", "announced number of fragments"):
                for o, it in c.start(st0, meta, data):
                    ctx.parts += 1
                    if it is None: raise Undecided("chunking panics: " + panic_at(o))
                    count_step(ctx, c, what, o.st, it, meta, data, 3)
        if any(x["construct"].startswith("PayloadChunks") for x in ctx.und):
            long_runs(ctx, m, "PayloadChunks", "announced number of fragments", lambda c, what, st, it, meta, data: count_step(ctx, c, what, st, it, meta, data, 0))
            small_runs(ctx, m, "PayloadChunks", "announced number of fragments", lambda c, what, st, it, meta, data: count_step(ctx, c, what, st, it, meta, data, 2))


def count_step(ctx, c, what, st, it, meta, data, depth):
    m, e = c.m, c.e
    rule = "announced number of fragments is exact"
    for o in call(e, c.f_next, [it], st.copy()):
        ctx.parts += 1
        if o.kind != "return": raise Undecided("next() panics: " + panic_at(o))
        v = e.resolve_enum(o.val, o.st)
        if v[0] != "A": raise Undecided("next() returns neither Some nor None")
        some = v[2] == 1
        # announced before, on the same partition
        first = e.rd(st, it)
        for name, o1, n1 in c.announced_of(o.st, first):
            con = "PayloadChunks::" + name.split("(")[0]
            if o1.kind != "return":
                ctx.violate(m, con, rule, "%s: %s panics: %s" % (what, name, panic_at(o1)), facts(o1.st))
                continue
            if n1 is None or n1[0] != "I":
                ctx.violate(m, con, rule, "%s: %s announces no number" % (what, name), facts(o1.st))
                continue
            if not some:
                ctx.expect(m, e, o1.st, con, rule, n1, ("I", C(0)), "%s: %s when nothing is left" % (what, name))
                continue
            for name2, o2, n2 in c.announced(o1.st, it):
                if name2 != name: continue
                if o2.kind != "return" or n2 is None or n2[0] != "I":
                    ctx.violate(m, con, rule, "%s: %s panics or announces no number after one next()" % (what, name), facts(o2.st))
                    continue
                ctx.expect(m, e, o2.st, con, rule, n1, ("I", o2.st.nz(add(n2[1], C(1)))), "%s: %s before and after one next()" % (what, name))
        if some:
            after = e.snapshot(o.st, e.rd(o.st, it))
            ok = False
            for st2, cm, cd in c.parts(v[3][0], o.st.copy()):
                rm = meta if cm is None or meta is None else drop(e, meta, qlen(e, cm, st2), st2)
                rd = data if cd is None or data is None else drop(e, data, qlen(e, cd, st2), st2)
                for a, b in candidates(e, st2, rm, rd):
                    f = c.fresh(st2, a, b)
                    if f is not None and same(e, st2, after, f) is True: ok = True
                if not ok and depth > 0: count_step(ctx, c, what + ", further on", st2, it, rm, rd, depth - 1)
            if not ok and depth == 3: ctx.undecided(m, "PayloadChunks::next", what + ": the state after next() is not that of a fresh fragmentation of the rest")


# ------------------------------------------------------------------ C18, C19, C20
def cells_of(v, depth=0):
    """The atomic cells a value holds."""
    if v[0] == "X" and v[1] == "atomic": return [v[2]]
    if v[0] == "&": return cells_of(v[1], depth + 1)
    if v[0] == "A" and depth < 6: return [c for x in v[3] for c in cells_of(x, depth + 1)]
    return []


def atomic_events(evs): return [(i, ev[1], dict(ev[2])) for i, ev in enumerate(evs) if ev[0] == "atomic"]


def since_loop(evs):
    """Events of the current iteration of the innermost loop, or of the whole call."""
    for i in range(len(evs) - 1, -1, -1):
        if evs[i][0] == "loop": return evs[i + 1:]
    return evs


def methods(m, adt):
    ps = m.adt(adt)
    return [f for f in m.d.fns if f.get("inst") is not None and "self" in f and m.d.types[f["self"]].get("path") == ps]


class Provider:
    """One analysed call of next_stream_id on a provider of one role."""

    def __init__(self, m, role):
        self.m, self.role = m, role
        e = self.e = m.engine()
        self.f_new = m.method("StreamIdProvider", "new_for_" + role)
        self.f = m.method("StreamIdProvider", "next_stream_id")
        self.parity = 1 if role == "client" else 0

        def hook(st, x):
            b = BIT(bit_of(x, 0))
            st.assume(b if self.parity else NOT(b))
        e.atomic_hook = hook

        def keep(st):
            # the last step and the lookups after it
            evs = st.events
            for i in range(len(evs) - 1, -1, -1):
                if evs[i][0] == "atomic" and evs[i][1] == "rmw": return [evs[i]] + [x for x in evs[i + 1:] if x[0] in ("contains", "isempty")]
            return [x for x in evs if x[0] in ("contains", "isempty")]
        e.keep_events = keep

    def run(self):
        e, m = self.e, self.m
        for o in call(e, self.f_new, [], State()):
            if o.kind != "return": raise Undecided("new_for_%s panics" % self.role)
            if len(cells_of(o.val)) != 1: raise Undecided("a stream id provider is not one atomic cell")
            st = o.st
            self.init = cells_of(o.val)[0]
            store = ref(e, st, ("X", "store", ()))
            # what a constructor sets beside the cell stays as it is, unless a method can change it
            fixed = not any(m.d.types[f["ins"][0]].get("mut") for f in methods(m, "StreamIdProvider") if f["ins"] and m.d.types[f["ins"][0]]["k"] == "ref")
            p = ref(e, st, o.val if fixed else e.mksym(("in", "provider"), m.tid("StreamIdProvider")))
            e.loops.clear()
            outs = call(e, self.f, [p, store], st)
            return store, outs, list(e.loops)


def low31(t, st): return from_bits(bits_of(t, 31), st)


@check("C18", "Known-bits analysis of the provider's cell (its parity is inductive: established by the constructor, kept by every write), range and parity of "
       "every returned id, and a guard rule: every return is dominated by a lookup of the returned id in the given store that found nothing.")
def c18(ctx):
    for m in ctx.each():
        for role in ("client", "server"):
            con = "StreamIdProvider::next_stream_id"
            with ctx.ob(m, con, "ids of a %s provider" % role):
                p = Provider(m, role)
                e = p.e
                store, outs, loops = p.run()
                ctx.count("initial parity")
                init = e.norm(p.init, State())
                if init[0] != "I" or not is_c(init[1]): raise Undecided("initial value of the provider")
                if init[1][1] & 1 != p.parity:
                    ctx.violate(m, "StreamIdProvider::new_for_" + role, "initial parity", "the first id of a %s provider is %d" % (role, init[1][1] & 0x7fffffff))
                for o in outs:
                    ctx.parts += 1
                    writes(ctx, m, con, role, p, o.st, o.st.events)
                    if o.kind != "return":
                        if "recursion" in panic_at(o): raise Undecided("recursion")
                        ctx.violate(m, con, "returns an id", "a %s provider panics: %s" % (role, panic_at(o)), facts(o.st))
                        continue
                    t = o.st.nz(o.val[1])
                    ctx.expect_true(m, o.st, con, "id is not 0", LE(C(1), t), "id of a %s provider is at least 1" % role)
                    ctx.expect_true(m, o.st, con, "id has 31 bits", LE(t, C((1 << 31) - 1)), "id of a %s provider is at most 2^31-1" % role)
                    b = BIT(bit_of(t, 0))
                    ctx.expect_true(m, o.st, con, "parity", b if p.parity else NOT(b), "id of a %s provider is %s" % (role, "odd" if p.parity else "even"))
                    ctx.count("checked not in use")
                    found = [ev for ev in o.st.events if ev[0] == "contains" and ev[3] == store and ev[1][0] == "I" and same_int(o.st, ev[1][1], t) is True]
                    if any(o.st.decide(ev[2]) is False for ev in found): continue
                    if any(ev[0] == "isempty" and ev[2] == store and o.st.decide(ev[1]) is True for ev in o.st.events): continue
                    ctx.violate(m, con, "checked not in use", "an id is returned %s" % ("although the store has it" if any(o.st.decide(ev[2]) is True for ev in found) else
                                "without having been looked up in the store"), facts(o.st))
                for l in loops:
                    for b in l["backs"]: writes(ctx, m, con, role, p, b, b.events)


def writes(ctx, m, con, role, p, st, evs):
    for _, kind, ev in atomic_events(evs):
        if kind == "load": continue
        new = ev["new"] if kind == "rmw" else ev["value"]
        b = BIT(bit_of(new, 0))
        ctx.expect_true(m, st, con, "parity is kept", b if p.parity else NOT(b), "the value stored in a %s provider stays %s" % (role, "odd" if p.parity else "even"))


@check("C19", "Effect rule on the provider's cell: its only writes are read-modify-write steps that move its low 31 bits by two; a returned id is the value taken by "
       "exactly one such step of the call, and a step whose id is not returned is followed by a proof that the id is 0 or in the store.")
def c19(ctx):
    for m in ctx.each():
        con = "StreamIdProvider::next_stream_id"
        for role in ("client", "server"):
            with ctx.ob(m, con, "one indivisible step per id"):
                p = Provider(m, role)
                e = p.e
                store, outs, loops = p.run()
                for o in outs:
                    ctx.parts += 1
                    if o.kind != "return": continue
                    steps(ctx, m, con, role, o.st, since_loop(o.st.events), o.st.nz(o.val[1]))
                for l in loops:
                    for b in l["backs"]: steps(ctx, m, con, role, b, since_loop(b.events), None, p.e.keep_events(b))
    others(ctx, "StreamIdProvider", {"next_stream_id"})


def steps(ctx, m, con, role, st, evs, ret, pending=()):
    """Every step takes one id: returned, zero or in use; the last one of an iteration may wait for the next."""
    taken = False
    for i, kind, ev in atomic_events(evs):
        if kind == "load" or any(evs[i] is x for x in pending): continue
        if kind == "store":
            ctx.count("no plain store")
            ctx.violate(m, con, "no plain store", "the provider is written without reading it in the same step", facts(st))
            continue
        old, new = ev["old"], ev["new"]
        n = from_bits(bits_of(st.nz(add(old, C(2))), 31), st)
        ctx.expect(m, ctx_engine(m), st, con, "a step moves the provider by two", ("I", low31(st.nz(new), st)), ("I", n), "low 31 bits after one step (%s provider)" % role)
        ctx.count("a taken id is returned, zero or in use")
        for cand in (low31(st.nz(old), st), n):
            if ret is not None and not taken and same_int(st, cand, ret) is True:
                taken = True
                break
            if st.decide(EQ(cand, C(0), st)) is True: break
            if any(x[0] == "contains" and st.decide(x[2]) is True and x[1][0] == "I" and same_int(st, x[1][1], cand) is True for x in evs[i:]): break
        else:
            ctx.violate(m, con, "a taken id is returned, zero or in use", "%s provider: an id is taken, but is neither returned nor 0 nor found in the store" % role, facts(st))
    if ret is not None:
        ctx.count("a returned id is taken in one step")
        if not taken:
            ctx.violate(m, con, "a returned id is taken in one step", "%s provider: the returned id is not the value of a read-modify-write step" % role, facts(st))


def ctx_engine(m): return m.engines[-1]


def helper(m, adt, f, allowed):
    """Is this function used only by the operations (which were analysed through it)?"""
    by = mentions(m.d).get(f["inst"], set())
    ok = {x["path"] for x in methods(m, adt) if x.get("name") in allowed}
    return bool(by) and all(any(p == o or p.startswith(o + "::{") for o in ok) for p in by)


def others(ctx, adt, allowed):
    """No other function of the crate reaches into the cell: the field is private to its module, and the module's functions are these."""
    for m in ctx.each():
        for f in methods(m, adt):
            ctx.count("no other function writes the cell")
            if f.get("name") in allowed or f.get("trait", "").endswith("Debug"): continue
            if not f["ins"] or m.d.types[f["ins"][0]]["k"] != "ref": continue
            if helper(m, adt, f, allowed): continue
            e = m.engine()
            with ctx.ob(m, "%s::%s" % (adt, f.get("name")), "no other function writes the cell"):
                st = State()
                outs = call(e, f, [e.mksym(("in", "arg", i), t) for i, t in enumerate(f["ins"])], st)
                for o, (_, kind, ev) in [(o, x) for o in outs for x in atomic_events(o.st.events)]:
                    if kind != "load": ctx.violate(m, "%s::%s" % (adt, f.get("name")), "no other function writes the cell", "writes the cell (%s)" % kind, facts(o.st))


@check("C20", "Effect rule: each operation of the counter is one read-modify-write step with exactly the specified new value (bit-precise, both signs), "
       "queries write nothing, and a retry loop repeats only when its step did not happen.")
def c20(ctx):
    MAX = (1 << 31) - 1
    for m in ctx.each():
        e = m.engine()

        def keep(st):
            # the writes, and the value read last
            evs = [x for x in st.events if x[0] == "atomic"]
            return [x for i, x in enumerate(evs) if x[1] != "load" or i == len(evs) - 1]
        e.keep_events = keep
        con = "RequestCounter::new"
        n = u("n", 32)
        with ctx.ob(m, con, "initial count"):
            for o in returns(ctx, m, e, m.method("RequestCounter", "new"), [n], State(), con, "initial count", "new(n)"):
                cs = cells_of(o.val)
                if len(cs) != 1: raise Undecided("a counter is not one atomic cell")
                ctx.expect(m, e, o.st, con, "initial count", cs[0], ("I", from_bits(bits_of(n[1], 31), o.st)), "new(n) holds n without its top bit")

        def run(name, args):
            f = m.method("RequestCounter", name)
            st = State()
            p = ref(e, st, e.mksym(("in", "counter"), m.tid("RequestCounter")))
            e.loops.clear()
            outs = returns(ctx, m, e, f, [p] + args, st, "RequestCounter::" + name, "returns", name + "()")
            for l in e.loops:
                for b in l["backs"]:
                    ctx.count("a repeated attempt changes nothing")
                    if any(k != "load" for _, k, _ in atomic_events(since_loop(b.events))):
                        ctx.violate(m, "RequestCounter::" + name, "a repeated attempt changes nothing", "the counter is changed and then tried again", facts(b))
            return outs

        def single(con, o):
            """The one write of an operation."""
            ctx.count("one indivisible step")
            w = [(k, ev) for _, k, ev in atomic_events(o.st.events) if k != "load"]
            if len(w) != 1 or w[0][0] != "rmw":
                ctx.violate(m, con, "one indivisible step", "%d writes%s" % (len(w), ", not a read-modify-write" if w and w[0][0] != "rmw" else ""), facts(o.st))
                return None
            return w[0][1]
        con = "RequestCounter::dec"
        with ctx.ob(m, con, "decrement"):
            for o in run("dec", []):
                ev = single(con, o)
                if ev is None: continue
                old = ev["old"]
                st = o.st
                ctx.expect(m, e, st, con, "lowers the count by one", ("I", st.nz(ev["new"])), ("I", wrap(st.nz(sub(old, C(1))), 32, True, st)), "count after dec()")
                ctx.expect(m, e, st, con, "returns the count before", o.val, ("I", st.nz(old)), "dec() returns")
        con = "RequestCounter::add"
        with ctx.ob(m, con, "addition"):
            for o in run("add", [n]):
                w = [(k, ev) for _, k, ev in atomic_events(o.st.events) if k != "load"]
                if not w:
                    # nothing to write: adding nothing, or already at the maximum
                    lo = [ev["value"] for _, k, ev in atomic_events(o.st.events) if k == "load"]
                    full = any(o.st.decide(EQ(v, C(MAX), o.st)) is True for v in lo)
                    if not full: ctx.expect_true(m, o.st, con, "one indivisible step", EQ0(o.st.nz(n[1])), "add(n) writes nothing only for n = 0 or at the maximum")
                    continue
                ev = single(con, o)
                if ev is None: continue
                old, new = ev["old"], o.st.nz(ev["new"])
                for big, st in e.fork(o.st, LT(C(MAX), n[1])):
                    if big:
                        ctx.expect_true(m, st, con, "never to a lower value", LE(old, new), "add(n) with n above 2^31-1 does not lower the count")
                        continue
                    for sat, st2 in e.fork(st, LT(C(MAX), add(old, n[1]))):
                        want = C(MAX) if sat else add(old, n[1])
                        ctx.expect(m, e, st2, con, "raises the count by n up to the maximum", ("I", st2.nz(new)), ("I", st2.nz(want)), "count after add(n)")
        for name in ("load", "is_zero"):
            con = "RequestCounter::" + name
            with ctx.ob(m, con, "query"):
                for o in run(name, []):
                    evs = atomic_events(o.st.events)
                    ctx.count("a query writes nothing")
                    if any(k != "load" for _, k, _ in evs):
                        # adding zero and the like
                        for _, k, ev in evs:
                            if k == "rmw": ctx.expect(m, e, o.st, con, "a query writes nothing", ("I", o.st.nz(ev["new"])), ("I", o.st.nz(ev["old"])), "count after the query")
                            elif k == "store": ctx.violate(m, con, "a query writes nothing", "stores to the counter", facts(o.st))
                    vals = [ev.get("value", ev.get("old")) for _, k, ev in evs if k != "store"]
                    if len(vals) != 1:
                        ctx.undecided(m, con, "%d reads of the counter" % len(vals))
                        continue
                    want = ("I", o.st.nz(vals[0])) if name == "load" else ("B", EQ0(o.st.nz(vals[0])))
                    ctx.expect(m, e, o.st, con, "reports the current count", o.val, want, name + "()")
    others(ctx, "RequestCounter", {"dec", "add", "load", "is_zero"})


# ------------------------------------------------------------------ C17, C16: the buffer list
class Lists:
    """Buffer lists made through new() and push(), used through the Buf trait."""

    def __init__(self, m, contiguous=True):
        self.m, self.e = m, m.engine()
        self.e.contiguous = contiguous
        self.f_new = m.method("BufList", "new")
        self.f_push = m.method("BufList", "push")
        self.site = {"fn": "check", "at": "check", "aty": [], "dty": None, "fid": None}

    def buf(self, name): return m_need(self.m, "BufList", name)

    def make(self, items, st):
        """A list holding these buffers: (reference, the states it may be in)."""
        e = self.e
        o = one(call(e, self.f_new, [], st), "BufList::new")
        r = ref(e, o.st, o.val)
        return r, self.push(r, items, [o.st])

    def push(self, r, items, sts):
        e = self.e
        for x in items:
            outs = [o for st in sts for o in call(e, self.f_push, [r, x], st)]
            for o in outs:
                if o.kind == "panic": raise Broken("push of a non-empty buffer panics: " + panic_at(o), o.st)
                if o.kind != "return": raise Undecided("BufList::push: %s" % o.kind)
            sts = [o.st for o in outs]
            if len(sts) > 64: raise Undecided("BufList::push: %d partitions" % len(sts))
        return sts

    def drain(self, r, st, bad):
        """What is left, taken out chunk by chunk."""
        return models.pull(self, r, None, st, bad)


def m_need(m, adt, name):
    f = m.tmethod(adt, "Buf", name)
    if f is None: raise Missing("<%s as Buf>::%s" % (adt, name))
    return f


def one(outs, what):
    if len(outs) != 1 or outs[0].kind != "return": raise Undecided("%s: %d outcomes (%s)" % (what, len(outs), ", ".join(o.kind for o in outs)))
    return outs[0]


def cat(e, items, st): return e.qnorm(("Q", tuple(s for x in items for s in x[1])), st)


def list_cases(deep):
    """(label, buffers, facts): lists of up to 3 (or 5) buffers of unknown non-empty content."""
    for k in range(6 if deep else 4):
        its = [bytes_in("buffer %d" % i) for i in range(k)]
        yield "%d buffers" % k if k != 1 else "one buffer", its, [GE(sub(len_in("buffer %d" % i), C(1))) for i in range(k)]


def long_list(k):
    """k buffers of one byte each."""
    return [("Q", (("sub", ("in", "buffer %d" % i), C(0), C(1)),)) for i in range(k)]


@check("C17", "Exact effect of each Buf operation on lists of up to three (thorough: five) buffers of unknown non-empty content and on one of 40 one-byte buffers: "
       "remaining() is the sum, chunk() is a non-empty prefix, advance(n) and copy_to_bytes(n) take exactly the first n bytes for every n up to the sum and panic beyond it; "
       "what is left is observed by draining the list chunk by chunk.")
def c17(ctx):
    n = u("n", 64)
    for m in ctx.each():
        for label, items, fs in list_cases(ctx.tier == "thorough"):
            con = "BufList::remaining"
            with ctx.ob(m, con, "the sum of its buffers"):
                L = Lists(m, False)
                L.e.any_chunk = True
                r, sts = L.make(items, base(fs))
                for st in sts:
                    before = L.e.snapshot(st, L.e.rd(st, r))
                    for o in returns(ctx, m, L.e, L.buf("remaining"), [r], st, con, "the sum of its buffers", label):
                        ctx.expect(m, L.e, o.st, con, "the sum of its buffers", o.val, ("I", L.e.qlen(cat(L.e, items, o.st), o.st)), label + ": remaining()")
                        ctx.expect(m, L.e, o.st, con, "changes nothing", L.e.snapshot(o.st, L.e.rd(o.st, r)), before, label + ": the list after remaining()")
            con = "BufList::chunk"
            with ctx.ob(m, con, "a prefix of the content"):
                L = Lists(m)
                r, sts = L.make(items, base(fs))
                for o in [o for st in sts for o in returns(ctx, m, L.e, L.buf("chunk"), [r], st, con, "a prefix of the content", label)]:
                    q, all_ = L.e.as_q(o.val, o.st), cat(L.e, items, o.st)
                    k = L.e.qlen(q, o.st)
                    if items: ctx.expect_true(m, o.st, con, "not empty while bytes remain", LT(C(0), k), label + ": chunk() is not empty")
                    if not ctx.expect_true(m, o.st, con, "a prefix of the content", LE(k, L.e.qlen(all_, o.st)), label + ": chunk() is no longer than the content"): continue
                    ctx.expect(m, L.e, o.st, con, "a prefix of the content", q, L.e.qcut(all_, k, o.st)[0], label + ": chunk()")
            con = "BufList (drained)"
            with ctx.ob(m, con, "gives out its buffers in order"): drained(ctx, m, con, label, Lists(m), items, fs, None, None)
            for name in ("advance", "copy_to_bytes"):
                with ctx.ob(m, "BufList::" + name, "takes exactly n bytes"): drained(ctx, m, "BufList::" + name, label, Lists(m), items, fs, name, n)
            con = "BufList::chunks_vectored"
            with ctx.ob(m, con, "hands out a prefix of the content"):
                for slots in range(len(items) + 2): vectored(ctx, m, con, label, items, fs, slots)
        k = 40
        for name in ("advance", "copy_to_bytes"):
            for i in (0, 1, 2, 31, 32, 33, k - 1, k, k + 1):
                with ctx.ob(m, "BufList::" + name, "takes exactly n bytes"):
                    drained(ctx, m, "BufList::" + name, "%d one-byte buffers" % k, Lists(m), long_list(k), [], name, ("I", C(i)))
        con = "BufList::chunks_vectored"
        for slots in (0, 1, k - 1, k, k + 1):
            with ctx.ob(m, con, "hands out a prefix of the content"): vectored(ctx, m, con, "%d one-byte buffers" % k, long_list(k), [], slots)
        con = "BufList::len"
        with ctx.ob(m, con, "counts its buffers"):
            for i in (0, 1, 2, k):
                L = Lists(m)
                r, sts = L.make(long_list(i), State())
                for o in [o for st in sts for o in returns(ctx, m, L.e, m.method("BufList", "len"), [r], st, con, "counts its buffers", "%d buffers" % i)]:
                    ctx.expect(m, L.e, o.st, con, "counts its buffers", o.val, ("I", C(i)), "%d buffers: len()" % i)


def vectored(ctx, m, con, label, items, fs, slots):
    """What chunks_vectored writes into that many slots."""
    L = Lists(m)
    e = L.e
    r, sts = L.make(items, base(fs))
    rule = "hands out a prefix of the content"
    label = "%s, %d slots" % (label, slots)
    for st in sts:
        dst = ref(e, st, ("D", tuple(("Q", (("sub", ("in", "slot %d" % i), C(0), len_in("slot %d" % i)),)) for i in range(slots)), None, ()))
        for o in returns(ctx, m, e, L.buf("chunks_vectored"), [r, dst], st, con, rule, label):
            k = e.norm(o.val, o.st)[1]
            if not is_c(k): raise Undecided("number of slots filled")
            k = k[1]
            ctx.count(rule)
            if k > slots:
                ctx.violate(m, con, rule, "%s: says it filled %d" % (label, k), facts(o.st))
                continue
            if items and slots and not k: ctx.violate(m, con, "fills a slot while bytes remain", "%s: fills none" % label, facts(o.st))
            got = e.rd(o.st, dst)
            q = cat(e, [e.as_q(x, o.st) for x in got[1][:k]], o.st)
            all_ = cat(e, items, o.st)
            if not ctx.expect_true(m, o.st, con, rule, LE(e.qlen(q, o.st), e.qlen(all_, o.st)), label + ": what it hands out is no longer than the content"): continue
            if k < slots: ctx.expect_true(m, o.st, con, "all of it unless the slots are full", LE(e.qlen(all_, o.st), e.qlen(q, o.st)), label + ": a slot left unused means everything was handed out")
            ctx.expect(m, e, o.st, con, rule, q, e.qcut(all_, e.qlen(q, o.st), o.st)[0], label + ": what it hands out")


def base(fs):
    st = State()
    for f in fs: st.assume(f)
    return st


def drained(ctx, m, con, label, L, items, fs, name, n):
    """One operation, then everything that is left."""
    e = L.e
    r, sts = L.make(items, base(fs))
    outs = [o for st in sts for o in (call(e, L.buf(name), [r, n], st) if name else [engine.Out("return", st, None)])]
    for o in outs:
        ctx.parts += 1
        total = e.qlen(cat(e, items, o.st), o.st)
        rule = "takes exactly n bytes"
        if o.kind != "return":
            if name:
                ctx.expect_true(m, o.st, con, rule, LT(total, n[1]), "%s: panics (%s) only when n is more than remains" % (label, panic_at(o)))
            continue
        if name and not ctx.expect_true(m, o.st, con, "panics past the end", LE(n[1], total), label + ": returns only when n bytes remain"): continue
        bad = []
        all_ = cat(e, items, o.st)
        head, tail = e.qcut(all_, n[1] if name else C(0), o.st)
        if name == "copy_to_bytes":
            ctx.expect(m, e, o.st, con, rule, o.val, head, label + ": returned bytes")
        for rem in returns(ctx, m, e, L.buf("remaining"), [r], o.st.copy(), con, rule, label + ": remaining() afterwards"):
            ctx.expect(m, e, rem.st, con, rule, rem.val, ("I", e.qlen(tail, rem.st)), label + ": remaining() afterwards")
        for q, st2 in L.drain(r, o.st.copy(), bad):
            ctx.expect(m, e, st2, con, rule, q, tail, label + ": bytes left")
        if name:
            # a list an operation has worked on is as good as any other: one more buffer, and what there is then
            more = bytes_in("one more buffer")
            st = o.st.copy()
            st.assume(GE(sub(len_in("one more buffer"), C(1))))
            tail = e.qnorm(("Q", tail[1] + more[1]), st)
            for st in L.push(r, [more], [st]):
                for ch in returns(ctx, m, e, L.buf("chunk"), [r], st.copy(), con, rule, label + ", one more buffer: chunk()"):
                    ctx.expect_true(m, ch.st, con, rule, LT(C(0), e.qlen(e.as_q(ch.val, ch.st), ch.st)), label + ", one more buffer: chunk() is not empty")
                for q, st2 in L.drain(r, st, bad):
                    ctx.expect(m, e, st2, con, rule, q, tail, label + ", one more buffer: bytes left")
        for b in bad:
            if b.kind == "panic": ctx.violate(m, con, rule, "%s: taking out what is left panics: %s" % (label, panic_at(b)), facts(b.st))


SHAPES = [(a, b) for a in (None, "empty", "some") for b in (None, "some")]
CARRIERS = ("RequestFnf", "RequestResponse", "RequestStream", "RequestChannel", "Payload")


def fragment(e, sp, i, shape, st, tiny=False):
    """A conforming encoded frame with this payload: (bytes, metadata, data); the rest of its header and fields is free."""
    meta, data = shape
    sid = u("sid %d" % i, 32)[1]
    st.assume(LE(C(1), sid))
    st.assume(LE(sid, C((1 << 31) - 1)))
    fl = u("flags %d" % i, 16)[1]
    flags = [(fl, b) for b in range(9, -1, -1)]
    flags[9 - 8] = 0 if meta is None else 1
    code = tuple((sp["code"] >> b) & 1 for b in range(5, -1, -1))
    segs = [("be", tuple((sid, b) if b < 31 else 0 for b in range(31, -1, -1)) + code + tuple(flags))]
    for w in sp["wire"]:
        if w[0] != "r31": raise Undecided("fields of " + sp["ty"])
        x = u("%s %d" % (w[1], i), 32)[1]
        segs.append(("be", tuple((x, b) for b in range(31, -1, -1))))
    m = d = ("Q", ())
    if meta == "some":
        m = ("Q", (("sub", ("in", "metadata %d" % i), C(0), C(int(tiny))),)) if tiny else bytes_in("metadata %d" % i)
        if not tiny:
            st.assume(LE(C(1), len_in("metadata %d" % i)))
            st.assume(LE(len_in("metadata %d" % i), C(LIMIT["metadata"])))
    if meta is not None:
        segs.append(e.int_q(e.qlen(m, st), 3, st))
        segs += m[1]
    if data == "some":
        d = ("Q", (("sub", ("in", "data %d" % i), C(0), C(int(tiny))),)) if tiny else bytes_in("data %d" % i)
        if not tiny:
            st.assume(LE(C(1), len_in("data %d" % i)))
            st.assume(LE(len_in("data %d" % i), C(1 << 40)))
        segs += d[1]
    return e.qnorm(("Q", tuple(segs)), st), m, d


def reassembly(m):
    f = m.tmethod("BufList", "TryInto", "try_into")
    if f is None: f = m.tmethod("Payload", "TryFrom", "try_from")
    if f is None: raise Undecided("no TryInto<Payload> of a buffer list")
    return f


def reassembled(ctx, m, kinds, shapes, label, tiny=False, broken=None):
    """One list of fragments; broken: (position, bytes) of one that does not decode."""
    con = "TryInto<Payload> for BufList"
    with ctx.ob(m, con, "concatenation of the fragments"):
        L = Lists(m)
        e = L.e
        e.finite = tiny == 2       # loops over a few bytes are followed, not summarised
        b = Builder(m, e)
        st = State()
        items, ms, ds = [], [], []
        for i, (k, s) in enumerate(zip(kinds, shapes)):
            q, x, y = fragment(e, by_variant(k), i, s, st, tiny)
            items.append(q)
            ms.append(x)
            ds.append(y)
        want_err = None
        if broken is not None:
            items[broken[0]] = broken[1]
            outs = b.decode(broken[1], st.copy())
            o = one([o for o, _ in outs], "decoding the broken fragment")
            r = b.ok_frame(o)
            if r[0] != "err": raise Undecided("the broken fragment decodes")
            want_err = e.snapshot(o.st, o.val[3][0])
        r, sts = L.make(items, st)
        for o in [o for st in sts for o in returns(ctx, m, e, reassembly(m), [e.rd(st, r)], st, con, "concatenation of the fragments", label)]:
            v = e.resolve_enum(o.val, o.st)
            if v[0] != "A": raise Undecided("unknown result")
            if want_err is not None:
                rule = "a bad fragment fails the reassembly"
                ctx.count(rule)
                if v[2] != 1: ctx.violate(m, con, rule, "%s: reassembly succeeds" % label, facts(o.st))
                else: ctx.expect(m, e, o.st, con, rule, v[3][0], want_err, label + ": error")
                continue
            if v[2] != 0:
                ctx.violate(m, con, "concatenation of the fragments", "%s: reassembly fails with %s" % (label, pv(e, v[3][0])), facts(o.st))
                continue
            o2 = one(call(e, m.method("Payload", "split"), [v[3][0]], o.st), "Payload::split")
            for name, got, want in (("metadata", o2.val[3][0], ms), ("data", o2.val[3][1], ds)):
                g = e.resolve_enum(got, o2.st)
                if g[0] != "A": raise Undecided("unknown option")
                ctx.expect(m, e, o2.st, con, "concatenation of the fragments", e.as_q(g[3][0], o2.st) if g[2] == 1 else ("Q", ()), cat(e, want, o2.st), "%s: %s" % (label, name))


def by_variant(v): return [sp for sp in FRAMES if sp["variant"] == v][0]


@check("C16", "Exact result of reassembling lists of up to three conforming fragments (four with the thorough command) with unknown contents, ids, flags and fields, "
       "over the five carrying frame types and every absent/empty/non-empty combination, one list of 40 fragments, and lists with one undecodable fragment, whose error must come out.")
def c16(ctx):
    deep = ctx.tier == "thorough"
    core = [("some", "some"), ("some", None), (None, "some"), (None, None)]
    for m in ctx.each():
        reassembled(ctx, m, [], [], "no fragments")
        for k in CARRIERS:
            mark = len(ctx.und)
            for s in SHAPES: reassembled(ctx, m, [k], [s], "one %s fragment %s" % (k, shape_name(s)))
            for k2 in {k, "Payload"}:
                for s in (SHAPES if deep else core):
                    for s2 in (SHAPES if deep else core): reassembled(ctx, m, [k, k2], [s, s2], "%s %s, %s %s" % (k, shape_name(s), k2, shape_name(s2)))
            for ss in ([("some", None), ("some", "some"), (None, "some")], [("some", "some")] * 3, [(None, "some"), (None, None), (None, "some")], [(None, "some"), ("some", None), ("some", "some")]):
                for k2 in {k, "Payload"}:
                    reassembled(ctx, m, [k, k2, k2], ss, "%s %s" % (", ".join([k, k2, k2]), " / ".join(map(shape_name, ss))))
                    if deep: reassembled(ctx, m, [k, k2, k, k2], ss + [("some", "some")], "four fragments of %s and %s, %s" % (k, k2, " / ".join(map(shape_name, ss))))
            reassembled(ctx, m, [k] * 40, [("some", "some")] * 40, "40 %s fragments of one byte each" % k, tiny=True)
            short = ("Q", (("sub", ("in", "bad"), C(0), C(5)),))
            typ = ("Q", (("be", (0,) * 31 + (1,) + tuple((0x3a >> i) & 1 for i in range(5, -1, -1)) + (0,) * 10),))
            for i in range(3):
                for what, q in (("cut short", short), ("of an unknown type", typ)):
                    reassembled(ctx, m, [k] * 3, [("some", "some")] * 3, "three %s fragments, number %d %s" % (k, i + 1, what), broken=(i, q))
            if len(ctx.und) > mark:
                # what is done byte by byte: fragments of two unknown bytes
                for ss in ([("some", None)], [(None, "some")], [("some", "some")], [("some", "some"), ("some", None)], [(None, "some")] * 2):
                    reassembled(ctx, m, [k] + ["Payload"] * (len(ss) - 1), ss, "%d %s fragments of two bytes, %s" % (len(ss), k, " / ".join(map(shape_name, ss))), tiny=2)


def shape_name(s): return "(%s metadata, %s data)" % (s[0] or "no", s[1] or "no")
