"""Checks of the frame codec: C01-C11."""
from lib import *
from frames import *

CHECKS = {}


def check(pid, rule):
    def deco(f):
        CHECKS[pid] = (f, rule)
        return f
    return deco


def src(m, f):
    return "%s (%s)" % (f["path"], f.get("at", ""))


def cname(sp, case):
    on = [k for k, v in case.items() if v]
    return "%s[%s]" % (sp["ty"], ",".join(on)) if case else sp["ty"]


def assume_all(st, conds):
    for c in conds:
        if st.assume(c) is False: return False
    return True


def possible(st, conds):
    """Whether the conditions can hold together on this partition (a sound 'no')."""
    s = st.copy()
    return assume_all(s, conds)


def panic_at(o):
    return "%s at %s" % (o.msg or "panic", o.at)


# ------------------------------------------------------------------ symbolic wire input
def wire_input(b, sp, case, st, clean=False):
    """A conforming frame from any peer: (args, segments as (kind, name, Q)), reserved (unless clean: zero) and undefined bits free."""
    e = b.e
    a = Args()
    a.case = case
    rsv = [0]

    def rbit():
        if clean: return 0
        rsv[0] += 1
        return (u("reserved%d" % rsv[0], 8)[1], 0)
    parts = []
    if sp["conn"]: sid = ("I", C(0))
    else:
        sid = iatom("sid", 0, MAX31)
        a["sid"] = sid
    parts.append(("fix", "stream id", ("Q", (("be", (rbit(),) + b.low(sid, 31, st)),))))
    fl = [None] * 10
    fatom = u("flagbits", 16)[1]
    known = {}
    for mask, c in sp["flags"].items():
        k = mask.bit_length() - 1
        if mask == METADATA and c[0] in ("meta", "some", "always"):
            known[k] = 1 if (c[0] == "always" or case.get("payload.metadata") or case.get("metadata")) else 0
        elif mask == RESUME and c[0] == "some": known[k] = 1 if case["token"] else 0
    for k in range(10):
        fl[9 - k] = known[k] if k in known else (fatom, k)
    a.flags = {mask: (bool(known[mask.bit_length() - 1]) if mask.bit_length() - 1 in known else BIT((fatom, mask.bit_length() - 1))) for mask in sp["flags"]}
    code = tuple((sp["code"] >> i) & 1 for i in range(5, -1, -1))
    parts.append(("fix", "type and flags", ("Q", (("be", code + tuple(fl)),))))

    def lp(name, n):
        q = bytes_in(name)
        st.assume(LE(len_in(name), C((1 << (8 * n)) - 1)))
        a[name] = q
        parts.append(("fix", "length of " + name, ("Q", (e.int_q(len_in(name), n, st),))))
        parts.append(("var", name, q))
    for w in sp["wire"]:
        k, n = w[0], w[1]
        if k == "r31":
            a[n] = iatom(n, 0, MAX31)
            parts.append(("fix", n, ("Q", (("be", (rbit(),) + b.low(a[n], 31, st)),))))
        elif k == "r63":
            a[n] = iatom(n, 0, MAX63)
            parts.append(("fix", n, ("Q", (("be", (rbit(),) + b.low(a[n], 63, st)),))))
        elif k in ("u32", "u16"):
            wd = int(k[1:])
            a[n] = u(n, wd)
            parts.append(("fix", n, ("Q", (("be", b.low(a[n], wd, st)),))))
        elif k == "lp16": lp(n, 2)
        elif k == "lp8": lp(n, 1)
        elif k == "opt16":
            if case[n]: lp(n, 2)
            else: a[n] = None
    t = sp["tail"]
    if t == "payload":
        a["pmeta"] = a["pdata"] = None
        if case["payload.metadata"]:
            lp("metadata", 3)
            a["pmeta"] = a["metadata"]
        if case["payload.data"]:
            st.assume(LE(C(1), len_in("data")))
            a["pdata"] = bytes_in("data")
            parts.append(("tail", "data", a["pdata"]))
    elif t == "data":
        a["data"] = None
        if case["data"]:
            st.assume(LE(C(1), len_in("data")))
            a["data"] = bytes_in("data")
            parts.append(("tail", "data", a["data"]))
    elif t == "metadata":
        a["metadata"] = bytes_in("metadata")
        parts.append(("tail", "metadata", a["metadata"]))
    elif t == "optmeta":
        a["metadata"] = None
        if case["metadata"]:
            a["metadata"] = bytes_in("metadata")
            parts.append(("tail", "metadata", a["metadata"]))
    return a, parts


def join(e, st, parts):
    return e.qnorm(("Q", tuple(s for _, _, q in parts for s in q[1])), st)


def error_code_cases(sp):
    """Conditions that keep an ERROR frame on a stream its code allows: [(label, assume(st))]."""
    if sp["ty"] != "ErrorFrame": return [("", lambda st: None)]
    code, sid = u("code", 32)[1], None

    def fix(c, zero):
        def f(st, sid):
            st.assume(EQ(code, C(c)))
            st.assume(EQ(sid, C(0)) if zero else LE(C(1), sid))
        return f

    def other(st, sid):
        for c in STREAM0_ERRORS + STREAM_ERRORS: st.assume(NOT(EQ(code, C(c))))
    return ([("code %#x" % c, fix(c, True)) for c in STREAM0_ERRORS] + [("code %#x" % c, fix(c, False)) for c in STREAM_ERRORS]
            + [("any other code", other)])


def inputs(b, sp, zero=False):
    """Every conforming layout of a frame type: (label, args, parts, state); zero: with a request-n of zero, which is not conforming."""
    for case in b.cases(sp):
        if "lease" in case and not case["lease"]: continue  # the bit is symbolic here
        for label, f in error_code_cases(sp):
            st = State()
            if not small_fields(b, st): continue
            a, parts = wire_input(b, sp, case, st)
            if sp["ty"] == "ErrorFrame": f(st, a["sid"][1])
            for n, k in sp["args"] or ():
                if k == "n31": st.assume(EQ(a[n][1], C(0)) if zero else LE(C(1), a[n][1]))
            yield (cname(sp, case) + (" " + label if label else "")), a, parts, st


# ------------------------------------------------------------------ C01
@check("C01", "Every read is dominated by a remaining() guard that covers it, every arithmetic step stays in range, every reachable "
       "panic edge is refuted, recursion is bounded and every loop of the decoder ranks; for an arbitrary byte sequence.")
def c01(ctx):
    for m in ctx.each():
        targets = [("Frame::decode", m.method("Frame", "decode"), False)]
        for sp in FRAMES:
            f = m.tmethod(sp["ty"], "Decode", "decode")
            if f is None:
                ctx.violate(m, sp["ty"], "public item present", "no Decode impl")
                continue
            targets.append((sp["ty"] + "::decode", f, True))
        for name, f, sub in targets:
            with ctx.ob(m, name, "panic freedom on an arbitrary byte sequence"):
                e = m.engine()
                st = State()
                buf = ref(e, st, bytes_in("input"))
                args = [buf]
                if sub:
                    b = Builder(m, e)
                    st, fl = b.flags(st, "flags")
                    args += [iatom("sid", 0, MAX31), fl]
                outs = call(e, f, args, st)
                ctx.parts += len(outs)
                for o in outs:
                    if o.kind == "panic":
                        ctx.violate(m, name, "no panic", "decoding can panic: " + panic_at(o), facts(o.st))
                    elif o.kind == "diverge":
                        ctx.violate(m, name, "bounded recursion", o.msg, facts(o.st))
                    else:
                        ctx.count("partition ends in Ok or Err")
                if not outs: ctx.violate(m, name, "terminates", "no path returns")
                loops_rank(ctx, m, e, name)


def loops_rank(ctx, m, e, name):
    """Every summarised loop must strictly decrease (or increase towards a bound) something on each round."""
    for l in e.loops:
        ctx.count("loop ranking")
        ok = None
        for (cell, path), (old, new) in l["mod"].items():
            good = True
            for bst in l["backs"]:
                try: v = e.read(bst, cell, path)
                except Undecided:
                    good = False
                    break
                if new[0] == "I" and v[0] == "I":
                    d = sub(new[1], v[1])
                    if not (bst.decide(GE(sub(d, C(1)))) is True and bst.decide(GE(v[1])) is True): good = False
                elif new[0] == "Q" or v[0] == "Q":
                    d = sub(e.qlen(e.as_q(new, bst), bst), e.qlen(e.as_q(v, bst), bst))
                    if bst.decide(GE(sub(d, C(1)))) is not True: good = False
                elif new[0] == "D" and v[0] == "D":
                    d = sub(qcount(e, new, bst), qcount(e, v, bst))
                    if bst.decide(GE(sub(d, C(1)))) is not True: good = False
                else: good = False
                if not good: break
            if good and l["backs"]: ok = True
            if good and not l["backs"]: ok = True
            # counting up to a bound known on entry
            if not good and new[0] == "I":
                up = True
                for bst in l["backs"]:
                    v = e.read(bst, cell, path)
                    if v[0] != "I" or bst.decide(GE(sub(sub(v[1], new[1]), C(1)))) is not True: up = False
                if up and l["backs"] and all(rng(new[1], bst)[1] < (1 << 63) for bst in l["backs"]): ok = True
        if not l["backs"]: ok = True
        if not ok:
            # a round that changes nothing at all never ends
            stuck = any(all(_unchanged(e, bst, c, p, n) for (c, p), (o, n) in l["mod"].items()) for bst in l["backs"])
            if stuck: ctx.violate(m, name, "loop terminates", "a round of the loop in %s changes nothing" % l["fn"])
            else: ctx.undecided(m, name, "no ranking found for the loop in " + l["fn"])


def _unchanged(e, st, c, p, n):
    try: return e.read(st, c, p) == n
    except Undecided: return False


def qcount(e, d, st):
    d = e.dnorm(d, st)
    n = C(len(d[1]) + len(d[3]))
    if d[2] is not None: n = add(n, ("a", ("qn", d[2]), 0, LENMAX))
    return st.nz(n)


# ------------------------------------------------------------------ C02
@check("C02", "Outcome tables of the decoder on layouts cut at every place, on headers with every unassigned type code, and on complete "
       "layouts, compared with the protocol table.")
def c02(ctx):
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)
        # cut inside the header
        for n in range(6):
            with ctx.ob(m, "Frame::decode", "input shorter than a header is incomplete"):
                st = State()
                q = ("Q", (("sub", ("in", "input"), C(0), C(n)),) if n else ())
                expect_err(ctx, m, b, q, st, "Frame::decode", "%d bytes of input" % n, "InComplete")
        for sp in FRAMES:
            for case in b.cases(sp):
                if "lease" in case and not case["lease"]: continue
                if any(k == "payload.data" and v for k, v in case.items()): continue
                if sp["tail"] in ("data",) and case.get("data"): continue
                st0 = State()
                a, parts = wire_input(b, sp, case, st0)
                if sp["ty"] == "ErrorFrame":
                    pass
                for i, (kind, name, q) in enumerate(parts):
                    if i < 2 or kind == "tail": continue
                    head = join(e, st0, parts[:i])
                    if kind == "fix":
                        cuts = [("%d of %d bytes of %s" % (k, len(q[1][0][1]) // 8, name), ("Q", (("be", q[1][0][1][:8 * k]),) if k else ()), None)
                                for k in range(len(q[1][0][1]) // 8)]
                    else:
                        part = ("a", ("in", "cut"), 0, LENMAX)
                        cuts = [("fewer bytes of %s than announced" % name, ("Q", (("sub", ("in", name), C(0), part),)), LT(part, len_in(name)))]
                    for label, piece, cond in cuts:
                        with ctx.ob(m, cname(sp, case), "a cut frame is incomplete"):
                            st = st0.copy()
                            if cond is not None: st.assume(cond)
                            q2 = e.qnorm(("Q", head[1] + piece[1]), st)
                            expect_err(ctx, m, b, q2, st, sp["ty"], "%s, %s" % (cname(sp, case), label), "InComplete")
        # unassigned type codes, one partition for all of them
        with ctx.ob(m, "Frame::decode", "unassigned type codes are unrecognised"):
            st = State()
            code = ("a", ("in", "code"), 0, 63)
            for sp in FRAMES: st.assume(NOT(EQ(code, C(sp["code"]))))
            hdr = b.low(u("sid", 32), 32, st) + b.low(("I", code), 6, st) + b.low(u("flagbits", 16), 10, st)
            q = ("Q", (("be", hdr),) + bytes_in("rest")[1])
            for o, left in b.decode(q, st):
                ctx.parts += 1
                ctx.count("partition ends in the right error")
                if o.kind != "return":
                    ctx.violate(m, "Frame::decode", "unknown type", "panics: " + panic_at(o), facts(o.st))
                    continue
                r = b.ok_frame(o)
                if r[0] != "err" or b.err_name(r[1]) != "UnrecognizedFrameType":
                    ctx.violate(m, "Frame::decode", "unknown type is unrecognised", "an unassigned type code gives %s" % pv(e, e.snapshot(o.st, o.val)), facts(o.st))
                else:
                    ctx.expect(m, e, o.st, "Frame::decode", "reported code", r[1][3][0], ("I", code), "code carried by the error")
        # complete input is accepted
        for sp in FRAMES:
            for label, a, parts, st in inputs(b, sp):
                with ctx.ob(m, label, "a complete frame is accepted"):
                    for o, left in b.decode(join(e, st, parts), st):
                        ctx.parts += 1
                        if o.kind != "return": ctx.violate(m, sp["ty"], "accepted", "panics: " + panic_at(o), facts(o.st))
                        elif b.ok_frame(o)[0] != "ok":
                            ctx.violate(m, sp["ty"], "a complete frame is accepted", "%s is rejected with %s" % (label, pv(e, e.snapshot(o.st, b.ok_frame(o)[1]))), facts(o.st))
                        else: ctx.count("partition accepted")


def expect_err(ctx, m, b, q, st, construct, label, want):
    outs = b.decode(q, st)
    if not outs: ctx.violate(m, construct, "terminates", label + ": no path returns")
    for o, left in outs:
        ctx.parts += 1
        ctx.count("partition ends in the right error")
        if o.kind != "return":
            ctx.violate(m, construct, "rejected with " + want, "%s: panics: %s" % (label, panic_at(o)), facts(o.st))
            continue
        r = b.ok_frame(o)
        if r[0] == "ok": ctx.violate(m, construct, "rejected with " + want, "%s: accepted" % label, facts(o.st))
        elif b.err_name(r[1]) != want: ctx.violate(m, construct, "rejected with " + want, "%s: rejected with %s" % (label, b.err_name(r[1])), facts(o.st))


# ------------------------------------------------------------------ C03
@check("C03", "Outcome partitions of Frame::decode over stream id and error code, compared with the protocol's stream rules.")
def c03(ctx):
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)
        texts = {"zero": set(), "nonzero": set()}

        def refuse(sp, label, parts, st, sid, kind):
            outs = b.decode(join(e, st, parts), st)
            if not outs: ctx.violate(m, sp["ty"], "terminates", label)
            for o, left in outs:
                ctx.parts += 1
                ctx.count("partition ends in InvalidStreamId")
                if o.kind != "return":
                    ctx.violate(m, sp["ty"], "stream id rule", "%s: panics: %s" % (label, panic_at(o)), facts(o.st))
                    continue
                r = b.ok_frame(o)
                if r[0] == "ok" or b.err_name(r[1]) != "InvalidStreamId":
                    ctx.violate(m, sp["ty"], "stream id rule", "%s: %s" % (label, pv(e, e.snapshot(o.st, o.val))), facts(o.st))
                    continue
                fs = r[1][3]
                num = [f for f in fs if f[0] == "I"]
                txt = [e.qconst(e.as_q(f, o.st)) for f in fs if f[0] == "R"]
                ctx.expect(m, e, o.st, sp["ty"], "offending id", num[0], ("I", sid), label + ": id carried by the error")
                texts[kind].add(txt[0])
        for sp in FRAMES:
            if sp["conn"]:
                for case in b.cases(sp):
                    if "lease" in case and not case["lease"]: continue
                    with ctx.ob(m, cname(sp, case), "connection-level frames only on stream 0"):
                        st = State()
                        a, parts = wire_input(b, sp, case, st)
                        sid = ("a", ("in", "sid"), 1, MAX31)
                        parts[0] = ("fix", "stream id", ("Q", (("be", ((u("reserved0", 8)[1], 0),) + b.low(("I", sid), 31, st)),)))
                        refuse(sp, cname(sp, case) + " on a non-zero stream", parts, st, sid, "zero")
        sp = BY_TY["ErrorFrame"]
        for codes, zero in ((STREAM0_ERRORS, False), (STREAM_ERRORS, True)):
            for c in codes:
                for case in b.cases(sp):
                    with ctx.ob(m, cname(sp, case), "error codes only on their kind of stream"):
                        st = State()
                        a, parts = wire_input(b, sp, case, st)
                        st.assume(EQ(u("code", 32)[1], C(c)))
                        st.assume(EQ(a["sid"][1], C(0)) if zero else LE(C(1), a["sid"][1]))
                        refuse(sp, "ERROR code %#x on %s" % (c, "stream 0" if zero else "a non-zero stream"), parts, st, a["sid"][1], "nonzero" if zero else "zero")
        if texts["zero"] & texts["nonzero"] or any(not t for t in texts["zero"] | texts["nonzero"]):
            ctx.violate(m, "DecodeError::InvalidStreamId", "expected text", "the error does not say which kind of stream was expected: %r" % texts)
        ctx.count("expected texts tell the two rules apart")
        for t in texts["zero"]:
            ctx.count("expected text")
            if t is not None and t.strip() != b"0": ctx.violate(m, "DecodeError::InvalidStreamId", "expected text", "expected stream 0, text says %r" % t)
        # everything else is accepted on every stream
        for sp in FRAMES:
            for label, a, parts, st in inputs(b, sp):
                with ctx.ob(m, label, "no other stream rule rejects a frame"):
                    for o, left in b.decode(join(e, st, parts), st):
                        ctx.parts += 1
                        if o.kind != "return": continue
                        r = b.ok_frame(o)
                        if r[0] == "err" and b.err_name(r[1]) == "InvalidStreamId":
                            ctx.violate(m, sp["ty"], "no other stream rule", "%s is rejected: %s" % (label, pv(e, e.snapshot(o.st, r[1]))), facts(o.st))


# ------------------------------------------------------------------ building all frames
def sizes_tried(ctx, m):
    """Builders with fields of any length, and where that leaves something undecided (what is done byte by byte), with fields of two bytes."""
    mark = len(ctx.und)
    yield Builder(m, m.engine())
    if len(ctx.und) == mark: return
    b = Builder(m, m.engine())
    b.e.finite = True       # loops over two bytes are followed, not summarised
    b.small = 2
    yield b


def small_fields(b, st):
    return b.small is None or assume_all(st, [EQ(len_in(b.nm(x)), C(b.small), st) for x in ("metadata", "data", "token", "mmime", "dmime")])


def built(ctx, m, b, sp, sizes=True, ranges=True):
    """(case, args, state, frame) for every way of building the frame with acceptable arguments."""
    for case in b.cases(sp):
        with ctx.ob(m, cname(sp, case), "frames built through the public API"):
            st = State()
            if not small_fields(b, st): continue
            if sizes and not assume_all(st, b.size_cond(sp, case)): continue
            if ranges and not assume_all(st, b.range_cond(sp, st)): continue
            a, outs = b.construct(sp, case, st)
            n = 0
            for o in outs:
                ctx.parts += 1
                if o.kind == "return":
                    n += 1
                    yield case, a, o.st, o.val
            if not n and ranges: ctx.violate(m, sp["ty"] + "::new", "constructible", "acceptable arguments are refused: " + "; ".join(panic_at(o) for o in outs))


def without_empty(b, sp, a, st, frame):
    """The frame with data of length zero left out: (state, frame)."""
    for k in ("pdata", "data"):
        v = a.get(k)
        q = b.optval(v) if v is not None else None
        if q is not None and st.decide(EQ0(b.e.qlen(q, st))) is True:
            case = dict(a.case)
            case["payload.data" if k == "pdata" else "data"] = False
            a2, outs = b.construct(sp, case, st)
            rs = [o for o in outs if o.kind == "return"]
            return [(o.st, o.val) for o in rs]
    return [(st, frame)]


# ------------------------------------------------------------------ C04
@check("C04", "The byte layout computed for each Encode impl is fed to the decoder's transfer function; the resulting value must equal "
       "the original one, field by field, on every partition.")
def c04(ctx):
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)
        for sp in FRAMES:
            for case, a, st, frame in built(ctx, m, b, sp):
                with ctx.ob(m, cname(sp, case), "decode(encode(frame)) == frame"):
                    sts = [st]
                    if sp["ty"] == "ErrorFrame":
                        sts = []
                        for label, f in error_code_cases(sp):
                            s = st.copy()
                            f(s, a["sid"][1])
                            sts.append(s)
                    dl = None
                    if (a.get("pdata") is not None): dl = len_in("data")
                    elif sp["tail"] == "data" and b.optval(a["data"]) is not None: dl = len_in("data")
                    if dl is not None:
                        nst = []
                        for s in sts:
                            for c in (EQ0(dl), LE(C(1), dl)):
                                s2 = s.copy()
                                if s2.assume(c) is not False: nst.append(s2)
                        sts = nst
                    for s in sts:
                        for s2, want in without_empty(b, sp, a, s, frame):
                            roundtrip(ctx, m, b, sp, cname(sp, case), s2, frame, want)
            # frames decoded from conforming input
            for label, a, parts, st in inputs(b, sp):
                with ctx.ob(m, label, "decode(encode(decoded)) == decoded"):
                    for o, left in b.decode(join(e, st, parts), st):
                        if o.kind != "return": continue
                        r = b.ok_frame(o)
                        if r[0] != "ok": continue
                        roundtrip(ctx, m, b, None, label + " (decoded)", o.st, r[3], r[3], whole=True)


def roundtrip(ctx, m, b, sp, label, st, frame, want, whole=False):
    e = b.e
    ty = "Frame" if whole else sp["ty"]
    for o, q, fr in b.encode(sp, frame, st, ty=ty):
        if o.kind != "return":
            ctx.violate(m, ty, "encodes", "%s: encoding panics: %s" % (label, panic_at(o)), facts(o.st))
            continue
        outs = b.decode(q, o.st)
        if not outs: ctx.violate(m, ty, "terminates", label)
        for o2, left in outs:
            ctx.parts += 1
            if o2.kind != "return":
                ctx.violate(m, ty, "round trip", "%s: decoding panics: %s" % (label, panic_at(o2)), facts(o2.st))
                continue
            r = b.ok_frame(o2)
            if r[0] == "err":
                ctx.violate(m, ty, "round trip", "%s: own encoding is rejected: %s" % (label, pv(e, e.snapshot(o2.st, r[1]))), facts(o2.st))
                continue
            ctx.expect(m, e, o2.st, ty, "all bytes consumed", left, ("Q", ()), label + ": bytes left over")
            ctx.expect(m, e, o2.st, ty, "round trip", r[3] if whole else r[2], want, label + ": decoded frame")
            if sp and r[1] != sp["variant"]:
                ctx.violate(m, ty, "round trip", "%s: decoded as %s" % (label, r[1]))


# ------------------------------------------------------------------ C05
@check("C05", "The symbolic number of bytes each encode appends equals the symbolic result of len() and of to_bytes() on every partition.")
def c05(ctx):
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)

        def one(sp, ty, label, st, value, to_bytes=True):
            for o, q, fr in b.encode(sp, value, st, prior=True, ty=ty):
                if o.kind != "return": continue
                wrote = sub(e.qlen(q, o.st), len_in("prior"))
                for o2 in b.length(sp, value, o.st.copy(), ty=ty):
                    ctx.parts += 1
                    if o2.kind != "return":
                        ctx.violate(m, ty, "len() returns", "%s: len() panics: %s" % (label, panic_at(o2)), facts(o2.st))
                        continue
                    ctx.expect(m, e, o2.st, ty + "::len", "announced length", o2.val, ("I", o2.st.nz(wrote)), label + ": len()")
            f = m.tmethod(ty, "Encode", "is_empty") or default_method(m, "Encode", "is_empty", ty)
            if f is not None and to_bytes:
                for o in call(e, f, [ref(e, st, value)], st.copy()):
                    if o.kind != "return": continue
                    for o2 in b.length(sp, value, o.st, ty=ty):
                        if o2.kind != "return": continue
                        ctx.expect(m, e, o2.st, ty + "::is_empty", "empty exactly when the length is zero", o.val, ("B", EQ(o2.st.nz(o2.val[1]), C(0))), label + ": is_empty()")
            if to_bytes:
                f = m.tmethod(ty, "Encode", "to_bytes") or default_method(m, "Encode", "to_bytes", ty)
                if f is None: return
                for o in call(e, f, [ref(e, st, value)], st.copy()):
                    if o.kind != "return": continue
                    n = e.qlen(e.as_q(o.val, o.st), o.st)
                    for o2 in b.length(sp, value, o.st, ty=ty):
                        if o2.kind != "return": continue
                        ctx.expect(m, e, o2.st, ty + "::to_bytes", "to_bytes length", ("I", n), o2.val, label + ": to_bytes()")
        for sp in FRAMES:
            for case, a, st, frame in built(ctx, m, b, sp):
                with ctx.ob(m, cname(sp, case), "len() is the number of bytes encoded"):
                    one(sp, sp["ty"], cname(sp, case), st, frame)
                    fr = ("A", m.tid("Frame"), variant_index(e, m.tid("Frame"), sp["variant"]), (frame,))
                    one(sp, "Frame", "Frame::" + cname(sp, case), st, fr, to_bytes=False)
            for label, a, parts, st in inputs(b, sp):
                with ctx.ob(m, label, "len() of decoded frames"):
                    for o, left in b.decode(join(e, st, parts), st):
                        if o.kind != "return": continue
                        r = b.ok_frame(o)
                        if r[0] == "ok": one(None, "Frame", label + " (decoded)", o.st, r[3], to_bytes=False)
        for meta in (True, False):
            for data in (True, False):
                with ctx.ob(m, "Payload", "len() of payloads"):
                    st, p = b.payload(State(), bytes_in("metadata") if meta else None, bytes_in("data") if data else None)
                    one(None, "Payload", "Payload", st, p)
        with ctx.ob(m, "Version", "len() of versions"):
            st, v = b.version(State())
            one(None, "Version", "Version", st, v)
        with ctx.ob(m, "U24", "len() of 24-bit integers"):
            for o in call(e, m.method("U24", "from_u32"), [u("n", 32)], State()):
                if o.kind == "return": one(None, "U24", "U24", o.st, o.val)


def default_method(m, trait, name, ty):
    """A provided trait method, instantiated for the type by the calls it makes."""
    for f in m.d.fns:
        if f.get("name") == name and f.get("inst") is not None and f["path"].endswith("::%s::%s" % (trait, name)): return f
    return None


def variant_index(e, ty, name):
    for i, v in enumerate(e.types[ty]["variants"]):
        if v["name"] == name: return i
    raise Missing("variant " + name)


# ------------------------------------------------------------------ C06
@check("C06", "The abstract byte layout of each Encode impl, bit by bit, against an independent table of the RSocket 1.0 layouts.")
def c06(ctx):
    for m in ctx.each():
        for sp in FRAMES:
            for b in sizes_tried(ctx, m): layout(ctx, m, b, sp, ", fields of two bytes" if b.small else "")


def layout(ctx, m, b, sp, how=""):
    e = b.e
    for case, a, st, frame in built(ctx, m, b, sp):
        with ctx.ob(m, cname(sp, case) + how, "wire layout"):
            for o, q, fr in b.encode(sp, frame, st):
                ctx.parts += 1
                if o.kind != "return":
                    ctx.violate(m, sp["ty"] + "::encode", "wire layout", "%s%s: encoding panics: %s" % (cname(sp, case), how, panic_at(o)), facts(o.st))
                    continue
                ctx.expect(m, e, o.st, sp["ty"] + "::encode", "wire layout", q, b.wire(sp, a, o.st), cname(sp, case) + how + ": bytes written")
            fr = ("A", m.tid("Frame"), variant_index(e, m.tid("Frame"), sp["variant"]), (frame,))
            for o, q, _ in b.encode(sp, fr, st, ty="Frame"):
                if o.kind != "return": continue
                ctx.expect(m, e, o.st, "Frame::encode", "wire layout", q, b.wire(sp, a, o.st), "Frame::" + cname(sp, case) + how + ": bytes written")


# ------------------------------------------------------------------ C07
@check("C07", "The decoder's transfer function on every conforming layout, with reserved and undefined bits free: each accessor of the "
       "result must be the transmitted field.")
def c07(ctx):
    for m in ctx.each():
        for sp in FRAMES:
            for b in sizes_tried(ctx, m):
                e = b.e
                for label, a, parts, st in inputs(b, sp):
                    with ctx.ob(m, label, "conforming frames decode to what they say"):
                        outs = b.decode(join(e, st, parts), st)
                        if not outs: ctx.violate(m, sp["ty"], "decodes", label + ": no path returns")
                        for o, left in outs:
                            ctx.parts += 1
                            if o.kind != "return":
                                ctx.violate(m, sp["ty"], "decodes", "%s: panics: %s" % (label, panic_at(o)), facts(o.st))
                                continue
                            r = b.ok_frame(o)
                            if r[0] == "err":
                                ctx.violate(m, sp["ty"], "decodes", "%s: rejected: %s" % (label, pv(e, e.snapshot(o.st, r[1]))), facts(o.st))
                                continue
                            if r[1] != sp["variant"]:
                                ctx.violate(m, sp["ty"], "decodes", "%s: decoded as %s" % (label, r[1]), facts(o.st))
                                continue
                            accessors(ctx, m, b, sp, label, a, o.st, r[2], a.flags, "decoded field")
            b = Builder(m, m.engine())
            e = b.e
            if not any(k == "n31" for _, k in sp["args"] or ()): continue
            for label, a, parts, st in inputs(b, sp, zero=True):
                # may be refused, but not replaced by another number
                with ctx.ob(m, label, "a request-n of zero is refused or kept"):
                    for o, left in b.decode(join(e, st, parts), st):
                        if o.kind != "return": continue
                        r = b.ok_frame(o)
                        if r[0] != "err" and r[1] == sp["variant"]: accessors(ctx, m, b, sp, label + " with n = 0", a, o.st, r[2], a.flags, "decoded field")


# ------------------------------------------------------------------ C36
@check("C36", "The decoder's and the encoder's transfer functions composed on every conforming layout, with reserved and undefined bits free: "
       "the bytes encoded again, field by field, must be the transmitted ones.")
def c36(ctx):
    rule = "a relayed frame keeps its bytes"
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)
        for sp in FRAMES:
            for label, a, parts, st in inputs(b, sp):
                with ctx.ob(m, label, rule):
                    for o, left in b.decode(join(e, st, parts), st):
                        if o.kind != "return": continue     # C07 reports it
                        r = b.ok_frame(o)
                        if r[0] == "err" or r[1] != sp["variant"]: continue
                        for o2, q, _ in b.encode(None, r[3], o.st.copy(), ty="Frame"):
                            ctx.parts += 1
                            ctx.count(rule)
                            if o2.kind != "return":
                                ctx.violate(m, sp["ty"], rule, "%s: encoding it again panics: %s" % (label, panic_at(o2)), facts(o2.st))
                                continue
                            relayed(ctx, m, b, sp, label, a.case, q, o2.st, rule)


def relayed(ctx, m, b, sp, label, case, q, st, rule):
    e = b.e
    _, want = wire_input(b, sp, case, st, clean=True)
    if not ctx.expect_true(m, st, sp["ty"], rule, LE(C(6), e.qlen(q, st)), label + ": a header is encoded"): return
    care, rest = 0xFC00, q
    for mask in sp["flags"]: care |= mask
    for kind, name, w in want:
        n = e.qlen(e.qnorm(w, st), st)
        if not ctx.expect_true(m, st, sp["ty"], rule, LE(n, e.qlen(rest, st)), "%s: the bytes encoded again hold the %s" % (label, name)): return
        got, rest = e.qcut(rest, n, st)
        if name == "type and flags":
            # the ignore flag and the bits the protocol does not define for this type may be kept or cleared
            have, is_ = (b.low(("I", e.qint(x, st)), 16, st) for x in (w, got))
            w = ("Q", (("be", tuple(0 if not care >> (15 - i) & 1 and is_[i] == 0 else have[i] for i in range(16))),))
        ctx.expect(m, e, st, sp["ty"], rule, got, w, "%s: the %s encoded again" % (label, name))
    ctx.expect(m, e, st, sp["ty"], rule, rest, ("Q", ()), label + ": what is encoded after the frame")


def accessors(ctx, m, b, sp, label, a, st, frame, flags, rule):
    e = b.e
    for name, w in sp["acc"]:
        # spelled-out bytes are not looked up as text
        if b.small is not None and w[0] in ("ascii", "utf8"): continue
        with ctx.ob(m, "%s::%s" % (sp["ty"], name), rule):
            f, outs = b.accessor(sp, name, frame, st.copy())
            if not outs: ctx.violate(m, "%s::%s" % (sp["ty"], name), "returns", label)
            for o in outs:
                ctx.parts += 1
                con = "%s::%s" % (sp["ty"], name)
                if o.kind != "return":
                    ctx.violate(m, con, rule, "%s: panics: %s" % (label, panic_at(o)), facts(o.st))
                    continue
                rt = m.retty(f)
                what = "%s: %s()" % (label, name)
                if w[0] == "version":
                    st2, want = b.version_of(o.st, a[w[1]], a[w[2]])
                    ctx.expect(m, e, st2, con, rule, o.val, want, what)
                elif w[0] == "payload":
                    st2, want = b.payload(o.st, a["pmeta"], a["pdata"])
                    ctx.expect(m, e, st2, con, rule, o.val, want, what)
                elif w[0] in ("ascii", "utf8"):
                    text(ctx, m, b, o, con, rule, b.optval(a[w[1]]), w[0], what)
                else:
                    ctx.expect(m, e, o.st, con, rule, o.val, b.want(w, a, o.st, rt, flags), what)


def valid_utf8(e, st, q):
    """Are these bytes known to be (known not to be) UTF-8?"""
    q = e.qnorm(q, st)
    k = e.qconst(q)
    if k is not None:
        try: return k.decode() is not None
        except UnicodeDecodeError: return False
    if st.bools.get(("at", ("ascii", q))) is True: return True
    return st.decide(("utf8", q))


def text(ctx, m, b, o, con, rule, q, kind, what):
    """Option<&str>: the text when it is valid, None when it is not (or when there is none)."""
    e, st = b.e, o.st
    v = e.resolve_enum(o.val, st)
    ctx.count(rule)
    if v[0] != "A": raise Undecided("text result")
    if q is None:
        if v[2] == 1: ctx.violate(m, con, rule, what + ": text where there is none", facts(st))
        return
    if v[2] == 1:
        ctx.expect(m, e, st, con, rule, v[3][0], q, what)
        k = e.qconst(e.qnorm(q, st))
        u8 = valid_utf8(e, st, q)
        asc = st.bools.get(("at", ("ascii", e.qnorm(q, st))))
        if k is not None: asc = max(k, default=0) < 128
        if not (u8 is True or asc is True) or (kind == "ascii" and asc is not True):
            ctx.violate(m, con, rule, what + ": unchecked bytes are presented as text", facts(st))
    else:
        u8 = valid_utf8(e, st, q)
        k = e.qconst(e.qnorm(q, st))
        asc = st.bools.get(("at", ("ascii", e.qnorm(q, st)))) if k is None else max(k, default=0) < 128
        if not (u8 is False or (kind == "ascii" and asc is False)):
            ctx.violate(m, con, rule, what + ": valid text is withheld", facts(st))


# ------------------------------------------------------------------ C08
@check("C08", "Bit-level value analysis of every integer argument from constructor to wire and accessors, with unrestricted arguments, "
       "in the debug and the release configuration.")
def c08(ctx):
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)
        for sp in FRAMES:
            for case in b.cases(sp):
                with ctx.ob(m, cname(sp, case), "reserved bits stay clear for every argument"):
                    st = State()
                    assume_all(st, b.size_cond(sp, case))
                    a, outs = b.construct(sp, case, st)
                    for o in outs:
                        ctx.parts += 1
                        if o.kind != "return":
                            # refusing is allowed only for arguments out of range
                            ctx.count("refused arguments are out of range")
                            if possible(o.st, b.range_cond(sp, o.st)):
                                ctx.violate(m, sp["ty"], "in-range values are kept", "%s: in-range arguments are refused: %s" % (cname(sp, case), panic_at(o)), facts(o.st))
                            continue
                        reserved(ctx, m, b, sp, cname(sp, case), a, o.st, o.val)
            for label, a, parts, st in inputs(b, sp):
                with ctx.ob(m, label, "reserved bits of decoded frames"):
                    for o, left in b.decode(join(e, st, parts), st):
                        if o.kind != "return": continue
                        r = b.ok_frame(o)
                        if r[0] == "ok" and r[1] == sp["variant"]: reserved(ctx, m, b, sp, label + " (decoded)", a, o.st, r[2])


def reserved(ctx, m, b, sp, label, a, st, frame):
    e = b.e
    masks = {"sid": 31, "r31": 31, "r63": 63, "u32": 32}
    kinds = {n: k for k, n, *_ in [(w[0], w[1]) for w in sp["wire"]]}
    if not sp["conn"]: kinds["sid"] = "r31"
    for name, w in sp["acc"]:
        if w[0] not in ("int", "ms") or w[1] not in kinds: continue
        k = kinds[w[1]]
        n = {"r31": 31, "r63": 63, "u32": 32, "u16": 16}[k]
        f, outs = b.accessor(sp, name, frame, st.copy())
        for o in outs:
            if o.kind != "return": continue
            v = o.val[2][1] if o.val[0] == "X" else o.val[1]
            con = "%s::%s" % (sp["ty"], name)
            given = a[w[1]][1]
            for fits, st2 in e.fork(o.st, LE(given, C((1 << n) - 1))):
                if fits: ctx.expect(m, e, st2, con, "values in range are kept", ("I", v), ("I", given), "%s: %s()" % (label, name))
                else: ctx.expect_true(m, st2, con, "reserved bit clear", LE(v, C((1 << n) - 1)), "%s: %s() of an argument out of range" % (label, name))
    for o, q, fr in b.encode(sp, frame, st.copy()):
        if o.kind != "return": continue
        # walk the layout up to each reserved bit
        pos = C(0)
        for nm, off, bit, low in reserved_positions(b, sp, a, o.st):
            try:
                _, rest = e.qcut(q, off, o.st)
                one, _ = e.qcut(rest, C(1), o.st)
                top = e.qbits(one, o.st)[0]
            except Undecided as x:
                if "past the end" in str(x):
                    ctx.violate(m, sp["ty"] + "::encode", "reserved bit clear", "%s: the encoding ends before %s" % (label, nm))
                    break
                raise
            ctx.count("reserved bit clear on the wire")
            if bitval(top, o.st) != 0:
                ctx.violate(m, sp["ty"] + "::encode", "reserved bit clear", "%s: the top bit of %s on the wire is %s" % (label, nm, pbit(top)), facts(o.st))


def reserved_positions(b, sp, a, st):
    """(field, byte offset, ...) of every reserved bit on the wire."""
    e = b.e
    yield ("stream id", C(0), 0, 31)
    off = C(6)
    for w in sp["wire"]:
        k, n = w[0], w[1]
        if k in ("r31", "r63"):
            yield (n, off, 0, int(k[1:]))
            off = add(off, C(4 if k == "r31" else 8))
        elif k == "u32": off = add(off, C(4))
        elif k == "u16": off = add(off, C(2))
        elif k in ("lp16", "lp8", "opt16"):
            v = b.optval(a[n])
            if v is None: continue
            off = add(off, add(C(1 if k == "lp8" else 2), e.qlen(v, st)))


# ------------------------------------------------------------------ C09
@check("C09", "Every narrowing of a length to its prefix is preceded, on every path, by a check that refuses lengths the prefix cannot "
       "carry; no other panic is reachable while encoding.")
def c09(ctx):
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)
        for sp in FRAMES:
            for case in b.cases(sp):
                with ctx.ob(m, cname(sp, case), "length prefixes with fields of any length"):
                    st = State()
                    assume_all(st, b.range_cond(sp, st))
                    a, outs = b.construct(sp, case, st)
                    fits = b.size_cond(sp, case)
                    for o in outs:
                        ctx.parts += 1
                        if o.kind != "return":
                            ctx.count("refusals happen only for fields too long")
                            if possible(o.st, fits):
                                ctx.violate(m, sp["ty"], "only oversized fields are refused", "%s: acceptable fields are refused: %s" % (cname(sp, case), panic_at(o)), facts(o.st))
                            continue
                        for o2, q, fr in b.encode(sp, o.val, o.st):
                            ctx.parts += 1
                            if o2.kind != "return":
                                ctx.count("encoding panics only for fields too long")
                                if possible(o2.st, fits):
                                    ctx.violate(m, sp["ty"] + "::encode", "no other panic", "%s: encoding panics: %s" % (cname(sp, case), panic_at(o2)), facts(o2.st))
                                continue
                            prefixes(ctx, m, b, sp, cname(sp, case), a, o2.st, q)
            # decoded frames re-encode without panic
            for label, a, parts, st in inputs(b, sp):
                with ctx.ob(m, label, "re-encoding a decoded frame does not panic"):
                    for o, left in b.decode(join(e, st, parts), st):
                        if o.kind != "return": continue
                        r = b.ok_frame(o)
                        if r[0] != "ok": continue
                        for o2, q, fr in b.encode(None, r[3], o.st, ty="Frame"):
                            ctx.count("re-encoding returns")
                            if o2.kind != "return":
                                ctx.violate(m, sp["ty"] + "::encode", "no other panic", "%s: re-encoding panics: %s" % (label, panic_at(o2)), facts(o2.st))


def prefixes(ctx, m, b, sp, label, a, st, q):
    """Each prefix is the integer length of the field that follows it."""
    e = b.e
    off = C(6)

    def one(name, off, w, v):
        ctx.count("length prefix is exact")
        ln = e.qlen(v, st)
        try:
            _, rest = e.qcut(q, off, st)
            p, rest = e.qcut(rest, C(w), st)
            n = e.qint(p, st)
        except Undecided as x:
            if "past the end" in str(x):
                ctx.violate(m, sp["ty"] + "::encode", "length prefix is exact", "%s: the encoding ends before %s" % (label, name))
                return None
            raise
        ctx.expect(m, e, st, sp["ty"] + "::encode", "length prefix is exact", ("I", n), ("I", ln), "%s: length prefix of %s" % (label, name))
        return add(off, add(C(w), ln))
    for w in sp["wire"]:
        k, n = w[0], w[1]
        if k == "r31" or k == "u32": off = add(off, C(4))
        elif k == "r63": off = add(off, C(8))
        elif k == "u16": off = add(off, C(2))
        else:
            v = b.optval(a[n])
            if v is None: continue
            off = one(n, off, 1 if k == "lp8" else 2, v)
            if off is None: return
    if sp["tail"] == "payload" and a["pmeta"] is not None: one("metadata", off, 3, a["pmeta"])


# ------------------------------------------------------------------ C10
SETTERS = {  # setter -> argument makers
    "set_resume_flag": (), "set_lease_flag": (), "set_version": ("u16", "u16"), "set_keepalive_interval": ("u32",), "set_keepalive_timeout": ("u32",),
    "set_resume_token": ("bytes",), "set_metadata_mimetype": ("bytes",), "set_data_mimetype": ("bytes",), "set_metadata": ("bytes",), "set_data": ("bytes",)}


def setter_args(name, tag):
    out = []
    for i, k in enumerate(SETTERS[name]):
        n = "%s%d%s" % (name, i, tag)
        out.append(bytes_in(n) if k == "bytes" else u(n, int(k[1:])))
    return out


@check("C10", "Value flow from each constructor and setter argument to each accessor; for the SETUP builder, setters commute and the last "
       "one wins on an arbitrary builder state, so every call sequence reduces to the ones compared.")
def c10(ctx):
    for m in ctx.each():
        b = Builder(m, m.engine())
        for sp in FRAMES:
            for b2 in sizes_tried(ctx, m):
                for case, a, st, frame in built(ctx, m, b2, sp):
                    fl = {}
                    for mask, c in sp["flags"].items():
                        x = b2.flag_cond(c, a)
                        fl[mask] = x if isinstance(x, bool) else (bool(x) if x in (0, 1) else BIT(x))
                    with ctx.ob(m, cname(sp, case), "accessors return the arguments"):
                        accessors(ctx, m, b2, sp, cname(sp, case), a, st, frame, fl, "accessor returns the argument")
        builder_algebra(ctx, m, b)
        setup_defaults(ctx, m, b)


def builder_algebra(ctx, m, b):
    """On an arbitrary builder state: setters of different fields commute, repeating a setter keeps the last."""
    e = b.e
    bt = m.tid("SetupFrameBuilder")

    def run(steps):
        st = State()
        for name, tag in steps:
            for x, k in zip(setter_args(name, tag), SETTERS[name]):
                if k == "u32": st.assume(LE(x[1], C(MAX31)))
                if k == "bytes": st.assume(LE(e.qlen(x), C(255)))
        outs = [("return", st, e.mksym(("in", "builder"), bt))]
        for name, tag in steps:
            f = m.method("SetupFrameBuilder", name)
            nxt = []
            for k, s, v in outs:
                if k != "return": continue
                nxt += [(o.kind, o.st, o.val) for o in call(e, f, [v] + setter_args(name, tag), s)]
            outs = nxt
        return [(s, v) for k, s, v in outs if k == "return"]

    def agree(x, y, con, rule, what):
        """Two programs give equal builders on every common partition."""
        ctx.count(rule)
        for s1, v1 in x:
            for s2, v2 in y:
                s = s1.copy()
                if not merge(s, s2): continue
                a, c = e.snapshot(s1, v1), e.snapshot(s2, v2)
                r = same(e, s, a, c)
                if r is not True:
                    if r is None and opaque_terms((a, c)):
                        ctx.undecided(m, con, what)
                        continue
                    ctx.violate(m, con, rule, "%s: %s differs from %s" % (what, pv(e, a), pv(e, c)), facts(s))
                    return
    names = sorted(SETTERS)
    for i, x in enumerate(names):
        with ctx.ob(m, "SetupFrameBuilder::" + x, "the last setting wins"):
            agree(run([(x, "a"), (x, "b")]), run([(x, "b")]), "SetupFrameBuilder::" + x, "the last setting wins", x + " twice")
        for y in names[:i]:
            with ctx.ob(m, "SetupFrameBuilder::%s" % x, "setters are independent"):
                agree(run([(x, "a"), (y, "b")]), run([(y, "b"), (x, "a")]), "SetupFrameBuilder::" + x, "setters are independent", "%s and %s" % (y, x))


def merge(s, t):
    """Adds t's facts to s; False when they contradict."""
    for x, (lo, hi) in t.iv.items():
        if s.assume(GE(sub(x, C(lo)))) is False or s.assume(GE(sub(C(hi), x))) is False: return False
    for x, p in t.pins.items():
        if s.assume(EQ(x, p)) is False: return False
    for bt, v in t.bits.items():
        if s.assume(BIT(bt) if v else NOT(BIT(bt))) is False: return False
    for bb, v in t.bools.items():
        if s.assume(bb if v else NOT(bb)) is False: return False
    for g in t.ges:
        if s.assume(GE(g)) is False: return False
    for n, p in t.vars.items():
        q = s.vars.get(n)
        if q is not None and not (q & p): return False
        s.vars[n] = p if q is None else q & p
    for c in t.clauses:
        if s.assume(c) is False: return False
    return True


def setup_defaults(ctx, m, b):
    """A SETUP frame on which nothing was set, and one setter at a time on top of it."""
    e = b.e
    sp = BY_TY["SetupFrame"]
    st = State()
    with ctx.ob(m, "SetupFrameBuilder", "documented defaults"):
        outs = b.setup(sp, {}, st, Args(), steps=[("build", [])])
        for o in outs:
            if o.kind != "return":
                ctx.violate(m, "SetupFrame::builder", "documented defaults", "panics: " + panic_at(o))
                continue
            consts = m.d.consts
            mime = default_mime(m)
            a = Args(major=("I", C(1)), minor=("I", C(0)), keepalive=default_ms(m, "DEFAULT_KEEPALIVE_INTERVAL"), lifetime=default_ms(m, "DEFAULT_KEEPALIVE_TIMEOUT"),
                     token=None, mmime=mime, dmime=mime, pmeta=None, pdata=None, lease=("B", False))
            fl = {RESUME: False, LEASE: False, METADATA: False}
            accessors(ctx, m, b, sp, "SetupFrame with nothing set", a, o.st, o.val, fl, "documented default")


def const_value(m, e, name):
    for p, c in m.d.consts.items():
        if p.split("::")[-1] == name: return e.const(c["v"]) if "v" in c else None
    return None


def default_ms(m, name):
    return ("I", C(DEFAULTS[name]))


def default_mime(m):
    return ("Q", (engine.be_const(DEFAULTS["DEFAULT_MIMETYPE"]),))


DEFAULTS = {"DEFAULT_KEEPALIVE_INTERVAL": 30000, "DEFAULT_KEEPALIVE_TIMEOUT": 60000, "DEFAULT_MIMETYPE": b"application/binary"}


# ------------------------------------------------------------------ C11
@check("C11", "Relational invariant between the flag bits an encoded frame carries and its optional parts, over all constructors, all "
       "setter sequences (by the setter algebra) and the decoder.")
def c11(ctx):
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)

        def wire_flags(sp, label, a, st, value, want, ty):
            for o, q, fr in b.encode(sp, value, st.copy(), ty=ty):
                ctx.parts += 1
                if o.kind != "return": continue
                hd, _ = e.qcut(q, C(6), o.st)
                got = e.qbits(hd, o.st)[38:48]
                for i in range(10):
                    ctx.count("flag bit %#x" % (0x200 >> i))
                    w = want[i]
                    if w is None: continue
                    if isinstance(w, tuple): w = simp_bit(w, o.st)
                    g = simp_bit(got[i], o.st)
                    x = bxor(g, w)
                    if x == 0 or bitval(x, o.st) == 0: continue
                    if o.st.decide(NOT(BIT(x))) is True: continue
                    ctx.violate(m, sp["ty"] if sp else ty, "flag matches contents", "%s: flag %#x on the wire is %s, contents say %s" % (label, 0x200 >> i, pbit(g), pbit(w)), facts(o.st))
        for sp in FRAMES:
            for case, a, st, frame in built(ctx, m, b, sp):
                with ctx.ob(m, cname(sp, case), "flags of built frames"):
                    want = list(b.header(sp, a, st)[38:48])
                    wire_flags(sp, cname(sp, case), a, st, frame, want, sp["ty"])
            for label, a, parts, st in inputs(b, sp):
                with ctx.ob(m, label, "flags of decoded frames"):
                    for o, left in b.decode(join(e, st, parts), st):
                        if o.kind != "return": continue
                        r = b.ok_frame(o)
                        if r[0] != "ok": continue
                        want = [None] * 10
                        for mask, c in sp["flags"].items():
                            k = 9 - (mask.bit_length() - 1)
                            if mask == METADATA or (mask == RESUME and c[0] == "some"): want[k] = 1 if a.flags[mask] is True else 0
                        wire_flags(sp, label + " (decoded)", a, o.st, r[3], want, "Frame")
                        # the accessors agree with the flag
                        meta = [n for n, w in sp["acc"] if w[0] == "pmeta" or (w[0] == "opt" and w[1] == "metadata")]
                        for n in meta:
                            f, outs = b.accessor(sp, n, r[2], o.st.copy())
                            for o2 in outs:
                                if o2.kind != "return": continue
                                v = e.resolve_enum(o2.val, o2.st)
                                ctx.count("metadata accessor agrees with the flag")
                                if v[0] != "A" or (v[2] == 1) != (a.flags[METADATA] is True):
                                    ctx.violate(m, "%s::%s" % (sp["ty"], n), "flag matches contents", "%s: metadata %s" % (label, pv(e, e.snapshot(o2.st, v))), facts(o2.st))
        # resume flag without a token, through every setter order
        sp = BY_TY["SetupFrame"]
        for steps in ([("set_resume_flag", [])], [("set_resume_flag", []), ("set_resume_token", [bytes_in("token")])],
                      [("set_resume_token", [bytes_in("token")]), ("set_resume_flag", [])], [("set_lease_flag", [])], [("set_data", [bytes_in("data")])],
                      [("set_metadata", [bytes_in("metadata")]), ("set_metadata", [bytes_in("metadata2")])]):
            names = [n for n, _ in steps]
            with ctx.ob(m, "SetupFrameBuilder", "flags after " + ",".join(names)):
                st = State()
                for n in ("token", "metadata", "metadata2"): st.assume(LE(len_in(n), C(65535)))
                for o in b.setup(sp, {}, st, Args(), steps=steps + [("build", [])]):
                    if o.kind != "return":
                        ctx.violate(m, "SetupFrameBuilder", "flag matches contents", "%s panics: %s" % (names, panic_at(o)), facts(o.st))
                        continue
                    f, outs = b.accessor(sp, "resume_token", o.val, o.st.copy())
                    for o2 in outs:
                        v = e.resolve_enum(o2.val, o2.st)
                        has = v[2] == 1
                        f2, outs2 = b.accessor(sp, "is_resume", o.val, o2.st)
                        for o3 in outs2:
                            ctx.expect(m, e, o3.st, "SetupFrameBuilder", "resume flag iff token", o3.val, ("B", has), "after %s: is_resume()" % names)
                            ctx.count("resume flag set when asked")
                            if any(n.startswith("set_resume") for n in names) != has:
                                ctx.violate(m, "SetupFrameBuilder", "resume flag iff asked for", "after %s the token is %s" % (names, pv(e, v)))
                    want = [0] * 10
                    if "set_resume_flag" in names or "set_resume_token" in names: want[2] = 1
                    if "set_lease_flag" in names: want[3] = 1
                    if "set_metadata" in names: want[1] = 1
                    wire_flags(sp, "after %s" % names, None, o.st, o.val, want, "SetupFrame")
        builder_algebra(ctx, m, b)
