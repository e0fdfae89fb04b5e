"""Checks of everything around the codec: C12-C29."""
from lib import *
from frames import *
from checks_codec import assume_all, built, cname, facts, inputs, join, panic_at, possible, text, variant_index, valid_utf8
import checks_codec
import re
from engine import qatom

CHECKS = {}


def check(pid, rule):
    def deco(f):
        CHECKS[pid] = (f, rule)
        return f
    return deco


def vname(e, v, st):
    """Variant name of an enum value."""
    v = e.resolve_enum(v, st)
    if v[0] != "A": return None
    return e.types[v[1]]["variants"][v[2]]["name"]


def variants(e, ty): return [v["name"] for v in e.types[ty]["variants"]]


def returns(ctx, m, e, f, args, st, construct, rule, what):
    """The outcomes of a call that must return: panics are violations."""
    res = []
    outs = call(e, f, args, st)
    ctx.parts += len(outs)
    if not outs: ctx.violate(m, construct, rule, what + ": no path returns")
    for o in outs:
        if o.kind != "return": ctx.violate(m, construct, rule, "%s: panics: %s" % (what, panic_at(o)), facts(o.st))
        else: res.append(o)
    return res


# ------------------------------------------------------------------ C12
@check("C12", "Outcome tables of the four conversions over all 64 header codes and all 16-bit values, the type constants, and the code "
       "the dispatch of decode, encode and the Frame enum uses for each frame type, against the protocol's table.")
def c12(ctx):
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)
        ty = m.tid("FrameType")
        names = variants(e, ty)
        ctx.count("the frame types are exactly the protocol's")
        if set(names) != set(CODES): ctx.violate(m, "FrameType", "exactly the protocol's frame types", "variants %s" % sorted(set(names) ^ set(CODES)))
        by_code = {v: k for k, v in CODES.items()}

        def expect_type(con, code, st, outs, what):
            for o in outs:
                ctx.parts += 1
                ctx.count("code maps to its type")
                if o.kind != "return":
                    ctx.violate(m, con, "code maps to its type", "%s: panics: %s" % (what, panic_at(o)), facts(o.st))
                    continue
                v = e.resolve_enum(o.val, o.st)
                if v[0] != "A": raise Undecided("frame type of " + what)
                got = vname(e, v[3][0], o.st) if v[2] == 1 else None
                if v[2] == 1 and got is None: raise Undecided("frame type of " + what)
                want = by_code.get(code)
                if got != want: ctx.violate(m, con, "code maps to its type", "%s: found %s, expected %s" % (what, got, want), facts(o.st))
        fv, fb = m.method("FrameType", "from_value"), m.method("FrameType", "from_bits")
        for code in range(64):
            with ctx.ob(m, "FrameType::from_value", "one code"):
                expect_type("FrameType::from_value", code, None, call(e, fv, [("I", C(code))], State()), "from_value(%#x)" % code)
            with ctx.ob(m, "FrameType::from_bits", "one code, any flag bits"):
                low = u("flags", 16)[1]
                bits = tuple((low, i) for i in range(10)) + tuple((code >> i) & 1 for i in range(6))
                expect_type("FrameType::from_bits", code, None, call(e, fb, [("I", from_bits(bits, None))], State()), "from_bits(code %#x)" % code)
        with ctx.ob(m, "FrameType::from_value", "values of 64 and more"):
            st = State()
            assume_all(st, [LE(C(64), u("v", 16)[1])])
            expect_type("FrameType::from_value", None, None, call(e, fv, [u("v", 16)], st), "from_value(v >= 64)")
        for i, n in enumerate(names):
            if n not in CODES: continue
            for meth, want in (("value", CODES[n]), ("bits", CODES[n] << 10)):
                with ctx.ob(m, "FrameType::" + meth, "type maps to its code"):
                    for o in returns(ctx, m, e, m.method("FrameType", meth), [("A", ty, i, ())], State(), "FrameType::" + meth, "type maps to its code", n):
                        ctx.expect(m, e, o.st, "FrameType::" + meth, "type maps to its code", o.val, ("I", C(want)), "%s.%s()" % (n, meth))
        for sp in FRAMES:
            for cn, want in (("TYPE", ("A", ty, variant_index(e, ty, sp["ctype"]), ())), ("STREAM_ID", ("I", C(0)))):
                k = [x for x in m.d.consts if x.endswith("::%s::%s" % (sp["ty"], cn))]
                if not k: continue
                with ctx.ob(m, "%s::%s" % (sp["ty"], cn), "published constants"):
                    ctx.expect(m, e, State(), "%s::%s" % (sp["ty"], cn), "published constants", e.const(m.d.consts[k[0]]["v"]), want, "%s::%s" % (sp["ty"], cn))
            case = [c for c in b.cases(sp) if not any(c.values())][0]
            fty = m.tid("Frame")
            for _, a, st, frame in built(ctx, m, b, sp):
                if any(_.values()): continue
                with ctx.ob(m, sp["ty"], "decode, encode and measure use one type"):
                    fr = ("A", fty, variant_index(e, fty, sp["variant"]), (frame,))
                    for o, q, _r in b.encode(sp, fr, st, ty="Frame"):
                        if o.kind != "return":
                            ctx.violate(m, "Frame::encode", "code on the wire", "%s: panics: %s" % (sp["ty"], panic_at(o)), facts(o.st))
                            continue
                        hd = e.qnorm(q, o.st)
                        if not hd[1] or hd[1][0][0] != "be" or len(hd[1][0][1]) < 48: raise Undecided("header of " + sp["ty"])
                        code = hd[1][0][1][32:38]
                        want = tuple((sp["code"] >> i) & 1 for i in range(5, -1, -1))
                        ctx.count("code on the wire")
                        if code != want: ctx.violate(m, "Frame::encode", "code on the wire", "%s: type bits %s, expected %s" % (sp["ty"], pbits(code), pbits(want)))
                        for l in b.length(sp, fr, o.st.copy(), ty="Frame"):
                            for l2 in b.length(sp, frame, l.st.copy()):
                                if l.kind == l2.kind == "return": ctx.expect(m, e, l2.st, "Frame::len", "measured as its own type", l.val, l2.val, sp["ty"])
            for label, a, parts, st in inputs(b, sp):
                with ctx.ob(m, label, "decoded as its own type"):
                    for o, left in b.decode(join(e, st, parts), st):
                        if o.kind != "return": continue
                        r = b.ok_frame(o)
                        ctx.count("decoded as its own type")
                        if r[0] == "ok" and r[1] != sp["variant"]:
                            ctx.violate(m, "Frame::decode", "decoded as its own type", "%s: decoded as %s" % (label, r[1]), facts(o.st))


# ------------------------------------------------------------------ C13
def payload_cases():
    for meta in (True, False):
        for data in (True, False):
            yield "Payload[%s%s]" % ("m" if meta else "", "d" if data else ""), bytes_in("metadata") if meta else None, bytes_in("data") if data else None


@check("C13", "Value analysis of every public payload method on payloads built through the builder with each part present or absent, "
       "set in either order and set twice.")
def c13(ctx):
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)
        for label, meta, data in payload_cases():
            for way in ("metadata first", "data first", "set twice"):
                with ctx.ob(m, "PayloadBuilder", "building returns a payload"):
                    outs = build_payload(b, meta, data, way)
                    for o in outs:
                        if o.kind != "return":
                            ctx.violate(m, "PayloadBuilder", "building returns a payload", "%s (%s): panics: %s" % (label, way, panic_at(o)), facts(o.st))
                            continue
                        payload_methods(ctx, m, b, "%s (%s)" % (label, way), o.st, o.val, meta, data)


def build_payload(b, meta, data, way):
    m, e = b.m, b.e
    steps = []
    if meta is not None: steps.append(("set_metadata", meta))
    if data is not None: steps.append(("set_data", data))
    if way == "data first": steps.reverse()
    if way == "set twice": steps = [(n, bytes_in("old " + n)) for n, _ in steps] + steps
    outs = call(e, m.method("Payload", "builder"), [], State())
    for n, v in steps + [("build", None)]:
        nxt = []
        for o in outs:
            if o.kind != "return": nxt.append(o)
            else: nxt += call(e, m.method("PayloadBuilder", n), [o.val] + ([v] if v is not None else []), o.st)
        outs = nxt
    return outs


def payload_methods(ctx, m, b, label, st, p, meta, data):
    e = b.e
    total = C(0)
    for q in (meta, data):
        if q is not None: total = add(total, e.qlen(q, st))

    def run(f, args, con, what):
        return returns(ctx, m, e, f, args, st, con, "payload reports what was put in", what)

    def opt(con, o, want, what):
        v = e.resolve_enum(o.val, o.st)
        if v[0] != "A": raise Undecided(what)
        ctx.count("payload reports what was put in")
        if (v[2] == 1) != (want is not None):
            ctx.violate(m, con, "presence", "%s: %s" % (what, "present" if v[2] == 1 else "absent"), facts(o.st))
        elif want is not None: ctx.expect(m, e, o.st, con, "payload reports what was put in", v[3][0], want, what)
    for name, want in (("metadata", meta), ("data", data)):
        with ctx.ob(m, "Payload::" + name, "accessor"):
            for o in run(m.method("Payload", name), [ref(e, st, p)], "Payload::" + name, label): opt("Payload::" + name, o, want, "%s: %s()" % (label, name))
        with ctx.ob(m, "Payload::has_" + name, "accessor"):
            for o in run(m.method("Payload", "has_" + name), [ref(e, st, p)], "Payload::has_" + name, label):
                ctx.expect(m, e, o.st, "Payload::has_" + name, "presence", o.val, ("B", want is not None), label)
        with ctx.ob(m, "Payload::%s_utf8" % name, "text view"):
            con = "Payload::%s_utf8" % name
            for o in run(m.method("Payload", name + "_utf8"), [ref(e, st, p)], con, label):
                v = e.resolve_enum(o.val, o.st)
                if v[0] != "A": raise Undecided("text view")
                ctx.count("text view")
                if want is None:
                    if v[2] != 0: ctx.violate(m, con, "text view", label + ": an absent part is an error", facts(o.st))
                    else: ctx.expect(m, e, o.st, con, "text view", v[3][0], ("Q", ()), label)
                    continue
                u8 = valid_utf8(e, o.st, want)
                if v[2] == 0:
                    ctx.expect(m, e, o.st, con, "text view", v[3][0], want, label)
                    if u8 is not True: ctx.violate(m, con, "text view", label + ": unchecked bytes are presented as text", facts(o.st))
                elif u8 is not False: ctx.violate(m, con, "text view", label + ": valid text is refused", facts(o.st))
    for f, con in ((m.method("Payload", "len"), "Payload::len"), (m.need("Payload", "Encode", "len"), "Encode::len")):
        with ctx.ob(m, con, "length"):
            for o in run(f, [ref(e, st, p)], con, label): ctx.expect(m, e, o.st, con, "length is the sum of both parts", o.val, ("I", total), label)
    with ctx.ob(m, "Payload::is_empty", "emptiness"):
        for o in run(m.method("Payload", "is_empty"), [ref(e, st, p)], "Payload::is_empty", label):
            ctx.expect(m, e, o.st, "Payload::is_empty", "empty exactly when the length is zero", o.val, ("B", EQ0(o.st.nz(total))), label)
    with ctx.ob(m, "Payload::split", "split"):
        for o in run(m.method("Payload", "split"), [p], "Payload::split", label):
            v = o.val
            if v[0] != "A" or len(v[3]) != 2: raise Undecided("split")
            for x, w, n in ((v[3][0], meta, "metadata"), (v[3][1], data, "data")):
                class O: pass
                o2 = O()
                o2.val, o2.st = x, o.st
                opt("Payload::split", o2, w, "%s: split %s" % (label, n))
    with ctx.ob(m, "Payload::encode", "order"):
        for o, q, _ in b.encode(None, p, st.copy(), prior=True, ty="Payload"):
            if o.kind != "return":
                ctx.violate(m, "Payload::encode", "metadata before data", "%s: panics: %s" % (label, panic_at(o)), facts(o.st))
                continue
            segs = bytes_in("prior")[1] + (meta[1] if meta is not None else ()) + (data[1] if data is not None else ())
            ctx.expect(m, e, o.st, "Payload::encode", "metadata before data", q, ("Q", segs), label)


# ------------------------------------------------------------------ C21
MUTANTS = [str.upper, str.lower, str.title, lambda n: " " + n, lambda n: n + " ", lambda n: n[:-1], lambda n: n[1:], lambda n: n + "x", lambda n: n + ";q=1", lambda n: n + "\0",
           lambda n: n.replace("/", ""), lambda n: n.replace(".", "-"), lambda n: n.replace("-", "."), lambda n: n.replace("+", " "), lambda n: n.split("/")[0] + "/", lambda n: n + n]


def qstr(s): return ("Q", (engine.be_const(s.encode()),) if s else ())


@check("C21", "The name of every variant by constant propagation, read back through the other conversion; the conversion of an arbitrary string "
       "partitioned by the comparisons it makes: a partition that yields a known type must imply that the string is that type's name.")
def c21(ctx):
    for m in ctx.each():
        e = m.engine()
        ty = m.tid("WellKnownMimeType")
        names = variants(e, ty)
        unp = names.index("UNPARSEABLE") if "UNPARSEABLE" in names else None
        if unp is None: raise Missing("WellKnownMimeType::UNPARSEABLE")
        to_name = from_name = None
        for f in m.d.fns:
            if f.get("name") != "from" or "From" not in f.get("trait", "") or f.get("inst") is None: continue
            a, r = m.argty(f, 0), m.retty(f)
            if a == ty and m.d.types[r]["k"] == "ref": to_name = f
            if r == ty and m.d.types[a]["k"] == "ref": from_name = f
        if to_name is None: raise Missing("From<WellKnownMimeType> for &str")
        if from_name is None: raise Missing("From<&str> for WellKnownMimeType")
        CT, CF = "<&str as From<WellKnownMimeType>>::from", "<WellKnownMimeType as From<&str>>::from"
        text_of = {}
        for i, n in enumerate(names):
            with ctx.ob(m, CT, "every type has one name"):
                for o in returns(ctx, m, e, to_name, [("A", ty, i, ())], State(), CT, "conversion terminates", n):
                    k = e.qconst(e.qnorm(e.as_q(o.val, o.st), o.st))
                    if k is None: raise Undecided("name of " + n)
                    text_of[i] = k.decode("utf8", "replace")
        ctx.count("the unparseable type has the empty name")
        if text_of.get(unp, "") != "": ctx.violate(m, CT, "the unparseable type has the empty name", "UNPARSEABLE is named %r" % text_of[unp])

        def convert(s, want, rule):
            for o in returns(ctx, m, e, from_name, [("R", e.newcell(o_st := State(), qstr(s)), ())], o_st, CF, "conversion terminates", repr(s)):
                v = vname(e, o.val, o.st)
                if v is None: raise Undecided("type of %r" % s)
                ctx.count(rule)
                if v != want: ctx.violate(m, CF, rule, "%r converts to %s, expected %s" % (s, v, want))
        for i, s in text_of.items():
            with ctx.ob(m, CF, "names convert back"): convert(s, names[i], "names convert back")
        done = False
        with ctx.ob(m, CF, "an arbitrary string"):
            st = State()
            v = bytes_in("v")
            for o in returns(ctx, m, e, from_name, [("R", e.newcell(st, v), ())], st, CF, "conversion terminates", "an arbitrary string"):
                r = e.resolve_enum(o.val, o.st)
                if r[0] != "A": raise Undecided("type of an arbitrary string")
                ctx.count("a known type means its exact name")
                if r[2] == unp: continue
                if r[2] not in text_of: raise Undecided("name of " + names[r[2]])
                if o.st.decide(e.models.qeq(e, o.st, e.qnorm(v, o.st), qstr(text_of[r[2]]))) is not True:
                    ctx.violate(m, CF, "a known type means its exact name", "a string other than %r converts to %s" % (text_of[r[2]], names[r[2]]), facts(o.st)[-3:])
            done = True
        if not done or ctx.tier == "thorough":
            known = set(text_of.values())
            seen = set()
            for s in text_of.values():
                for f in MUTANTS:
                    x = f(s)
                    if x in known or x in seen: continue
                    seen.add(x)
                    with ctx.ob(m, CF, "near misses"): convert(x, "UNPARSEABLE", "near misses")


# ------------------------------------------------------------------ C22, C23, C24: errors
PROTOCOL = {"InvalidSetup": 0x1, "UnsupportedSetup": 0x2, "RejectedSetup": 0x3, "RejectedResume": 0x4, "ConnectionError": 0x101, "ConnectionClose": 0x102,
            "ApplicationError": 0x201, "Rejected": 0x202, "Canceled": 0x203, "Invalid": 0x204}
PREDICATES = {"is_decode": ["Decode"], "is_protocol": list(PROTOCOL), "is_setup": ["InvalidSetup", "UnsupportedSetup", "RejectedSetup"],
              "is_invalid_setup": ["InvalidSetup"], "is_unsupported_setup": ["UnsupportedSetup"], "is_rejected_setup": ["RejectedSetup"],
              "is_rejected_resume": ["RejectedResume"], "is_connection_error": ["ConnectionError"], "is_connection_close": ["ConnectionClose"],
              "is_application_error": ["ApplicationError"], "is_rejected": ["Rejected"], "is_cancel": ["Canceled"], "is_invalid": ["Invalid"]}


def upper(n):
    """InvalidSetup -> INVALID_SETUP"""
    return "".join("_" + c if c.isupper() and i else c for i, c in enumerate(n)).upper()


def error_type(m):
    """The library's error: the public type with is_protocol."""
    for p in m.d.adts:
        if p.split("::")[-1] == "Error" and any(f.get("name") == "is_protocol" for f in m.d.inherent(p)):
            for i, t in enumerate(m.d.types):
                if t["k"] == "adt" and t["path"] == p: return i, p
    raise Missing("Error")


def error_method(m, name):
    _, p = error_type(m)
    for f in m.d.inherent(p):
        if f.get("name") == name and f.get("inst") is not None: return f
    raise Missing("Error::" + name)


def error_trait(m, trait, name):
    _, p = error_type(m)
    for f in m.d.fns:
        if f.get("name") == name and f.get("trait", "").split("<")[0] == trait and "self" in f and f.get("inst") is not None and m.d.types[f["self"]].get("path") == p: return f
    raise Missing("<Error as %s>::%s" % (trait, name))


def inner_enum(e, st, v, pred, depth=0):
    """The (still symbolic) enum inside a value whose variant names satisfy pred."""
    if depth > 6: return None
    if v[0] == "R":
        if v[1][0] != "sym": return None
        return inner_enum(e, st, e.rd(st, v), pred, depth + 1)
    if v[0] == "S" and e.is_enum(v[2]): return v if pred([x["name"] for x in e.types[v[2]].get("variants", ())]) else None
    if v[0] == "S":
        try: v = e.expand(v)
        except Undecided: return None
    if v[0] == "A":
        for f in v[3]:
            r = inner_enum(e, st, f, pred, depth + 1)
            if r is not None: return r
    return None


def error_kinds(m, e):
    """[(kind name, state, error value)] for every kind of error, nothing else known about it."""
    ty, _ = error_type(m)
    out = []
    st0 = State()
    v = e.mksym(("in", "error"), ty)
    k = inner_enum(e, st0, v, lambda ns: {"InvalidSetup", "Canceled"} <= set(ns))
    if k is None: raise Undecided("the kind inside Error")
    for i, n in enumerate(variants(e, k[2])):
        st = st0.copy()
        st.vars[k[1]] = frozenset([i])
        out.append((n, st, v))
    return out


@check("C22", "Truth table of every public predicate over every kind of error, whatever its source and decode error are, by constant propagation.")
def c22(ctx):
    for m in ctx.each():
        e = m.engine()
        with ctx.ob(m, "Error", "kinds"):
            ks = error_kinds(m, e)
            have = {n for n, _, _ in ks}
            for n in list(PROTOCOL) + ["Decode", "Io"]:
                ctx.count("every kind exists")
                if n not in have: raise Undecided("kind %s not found" % n)
            for p, true_for in PREDICATES.items():
                f = error_method(m, p)
                con = "Error::" + p
                for n, st, v in ks:
                    with ctx.ob(m, con, "predicate"):
                        st = st.copy()
                        for o in returns(ctx, m, e, f, [ref(e, st, v)], st, con, "predicate returns", n):
                            ctx.expect(m, e, o.st, con, "answers to exactly its errors", o.val, ("B", n in true_for), "%s on %s" % (p, n))


def fmt_ok(e, st):
    """Is this the partition in which every write to the formatter succeeds?"""
    for n, p in st.vars.items():
        if isinstance(n, tuple) and n and n[0] in ("fmtres", "dbg") and p != frozenset([0]): return False
    return True


def shown(e, o):
    """What a Display implementation wrote: ('text', Q) and ('arg', how, value) pieces, texts merged."""
    out = []
    for ev in o.st.events:
        if ev[0] == "fmtdbg": raise Undecided("debug formatting in Display")
        if ev[0] != "fmt": continue
        ev = ev[1]
        if ev[0] == "str":
            if out and out[-1][0] == "text": out[-1] = ("text", e.qnorm(("Q", out[-1][1][1] + ev[1][1]), o.st))
            else: out.append(("text", e.qnorm(ev[1], o.st)))
        else:
            arg = ev[2]
            while arg[0] == "&": arg = arg[1]
            q = arg if arg[0] == "Q" else None
            if q is not None and ev[1] == "new_display" and ev[3] is True:
                if out and out[-1][0] == "text": out[-1] = ("text", e.qnorm(("Q", out[-1][1][1] + q[1]), o.st))
                else: out.append(("text", q))
            else: out.append(("arg", ev[1:4]))
    return out


def display(ctx, m, e, f, v, st, con, what):
    """[(state, pieces)] for the outcomes in which writing succeeds."""
    st = st.copy()
    st.events = ()
    fm = e.mksym(("in", "formatter"), m.argty(f, 1))
    res = []
    for o in returns(ctx, m, e, f, [ref(e, st, v), fm], st, con, "display returns", what):
        if fmt_ok(e, o.st): res.append((o.st, shown(e, o)))
    return res


def lead(e, pieces):
    """The known text a display starts with."""
    if not pieces or pieces[0][0] != "text": return ""
    q = pieces[0][1]
    if not q[1] or q[1][0][0] != "be": return ""
    k = e.qconst(("Q", (q[1][0],)))
    return k.decode("utf8", "replace") if k is not None else ""


@check("C23", "The discriminants of the error-code enumeration, the error-frame constants, and the constant text displayed for each kind of error "
       "(with and without a source) against the protocol's table of codes.")
def c23(ctx):
    for m in ctx.each():
        e = m.engine()
        with ctx.ob(m, "Code", "codes"):
            ty = m.tid("Code")
            got = {v["name"]: int(v["discr"]) for v in m.d.types[ty]["variants"]}
            for n, c in PROTOCOL.items():
                ctx.count("the protocol's code in the enumeration")
                if n not in got: ctx.violate(m, "Code::" + n, "the protocol's code in the enumeration", "no such code")
                elif got[n] != c: ctx.violate(m, "Code::" + n, "the protocol's code in the enumeration", "is %#x, expected %#x" % (got[n], c))
            for n in got:
                if n not in PROTOCOL: ctx.violate(m, "Code::" + n, "one code per error", "%#x is not an RSocket error" % got[n])
        for n, c in list(PROTOCOL.items()) + [("MinApplicationErrorCode", 0x301), ("MaxApplicationErrorCode", 0xFFFFFFFE)]:
            con = "ErrorFrame::" + upper(n)
            with ctx.ob(m, con, "the protocol's code as a constant"):
                k = [x for x in m.d.consts if x.endswith(con)]
                if not k: raise Missing(con)
                ctx.expect(m, e, State(), con, "the protocol's code as a constant", e.const(m.d.consts[k[0]]["v"]), ("I", C(c)), con)
        with ctx.ob(m, "Error", "display"):
            f = error_trait(m, "core::fmt::Display", "fmt")
            con = "<Error as Display>::fmt"
            texts = {}
            for n, st, v in error_kinds(m, e):
                with ctx.ob(m, con, "display of one kind"):
                    for st2, ps in display(ctx, m, e, f, v, st, con, n):
                        t = lead(e, ps)
                        ctx.count("text names the error and its code")
                        texts.setdefault(n, set()).add(t)
                        if n not in PROTOCOL: continue
                        words = re.findall(r"\b[A-Z][A-Z_]+\b", t)
                        codes = [int(x, 16) for x in re.findall(r"0x([0-9a-fA-F]+)", t)]
                        names = [w for w in words if w in {upper(x) for x in PROTOCOL}]
                        if names != [upper(n)]: ctx.violate(m, con, "text names the error and its code", "%s is displayed as %r" % (n, t), facts(st2))
                        elif codes != [PROTOCOL[n]]: ctx.violate(m, con, "text names the error and its code", "%s is displayed as %r, its code is %#010x" % (n, t, PROTOCOL[n]), facts(st2))
            for a in texts:
                for b in texts:
                    if a < b and texts[a] & texts[b]:
                        ctx.violate(m, con, "no two errors share a text", "%s and %s are both displayed as %r" % (a, b, sorted(texts[a] & texts[b])[0]))
                    if a < b: ctx.count("no two errors share a text")


def flat(v):
    """Everything inside a snapshot."""
    if not isinstance(v, tuple): return
    yield v
    if v[0] == "A": subs = v[3]
    elif v[0] == "&": subs = v[1:2]
    elif v[0] == "X": subs = v[2] if isinstance(v[2], tuple) and v[2] and isinstance(v[2][0], tuple) else (v[2],)
    else: subs = ()
    for x in subs:
        if isinstance(x, tuple): yield from flat(x)


@check("C24", "Value flow through both conversions into the library's error and through its source() and Display: the original failure must be "
       "reachable in the error and its text in the display.")
def c24(ctx):
    for m in ctx.each():
        e = m.engine()
        ety, epath = error_type(m)
        convs = [f for f in m.d.fns if f.get("name") == "from" and f.get("inst") is not None and m.retty(f) == ety and m.argty(f, 0) != ety]
        want = {"DecodeError": ["Decode"], "Error": ["Io"]}
        seen = set()
        for f in convs:
            src = m.d.types[m.argty(f, 0)]
            n = src.get("path", "?").split("::")[-1]
            con = "<Error as From<%s>>::from" % ("io::Error" if n == "Error" else n)
            seen.add(n)
            for label, st, cause in causes(e, m.argty(f, 0)):
                with ctx.ob(m, con, "cause kept"):
                    for o in returns(ctx, m, e, f, [cause], st, con, "conversion returns", label):
                        keeps(ctx, m, e, con, label, o, cause, n)
        for n in want:
            ctx.count("both conversions exist")
            if n not in seen: ctx.violate(m, "Error", "both conversions exist", "no conversion from %s" % ("io::Error" if n == "Error" else n))
        # any error: source() is what Display shows
        with ctx.ob(m, "Error", "source shown"):
            for n, st, v in error_kinds(m, e):
                source_shown(ctx, m, e, n, st, v)


def causes(e, ty):
    v = e.mksym(("in", "cause"), ty)
    if v[0] == "S" and e.is_enum(ty):
        for i, st, agg in e.fork_variant(State(), v): yield e.types[ty]["variants"][i]["name"], st, agg
    else: yield e.types[ty]["s"], State(), v


def holds(e, st, v, cause):
    c = e.snapshot(st, cause)
    return any(x == c for x in flat(e.snapshot(st, v)))


def text_marks(e, st, cause):
    """The contents a to_string of the cause has."""
    c = e.snapshot(st, cause)
    return [x for x in st.events if x[0] == "to_string" and any(y == c for y in flat(x[1]))]


def keeps(ctx, m, e, con, label, o, cause, n):
    st = o.st
    ctx.count("kind matches the cause")
    for p in ("is_decode", "is_protocol", "is_setup"):
        for o2 in returns(ctx, m, e, error_method(m, p), [ref(e, st, o.val)], st.copy(), con, "kind matches the cause", label):
            ctx.expect(m, e, o2.st, con, "kind matches the cause", o2.val, ("B", n == "DecodeError" and p == "is_decode"), "%s of the error from %s" % (p, label))
    ctx.count("the original failure is kept")
    if not holds(e, st, o.val, cause): ctx.violate(m, con, "the original failure is kept", "%s: the error holds %s" % (label, pv(e, e.snapshot(st, o.val))), facts(st))
    # source() must be there and lead to the cause or its text
    f = error_trait(m, "core::error::Error", "source")
    marks = [qatom(("to_string", repr(x[1]))) for x in text_marks(e, st, cause)]

    def is_cause(v, st2):
        return holds(e, st2, v, cause) or any(x == q for x in flat(e.snapshot(st2, v)) for q in marks)
    for o2 in returns(ctx, m, e, f, [ref(e, st, o.val)], st.copy(), con, "source", label):
        v = e.resolve_enum(o2.val, o2.st)
        ctx.count("the cause is the source")
        if v[0] == "S" and skips(v[1]):
            ctx.violate(m, con, "the cause is the source", "%s: source() gives what lies behind the cause, not the cause" % label, facts(o2.st))
            continue
        if v[0] != "A": raise Undecided("source of " + label)
        if v[2] == 0: ctx.violate(m, con, "the cause is the source", "%s: the error has no source" % label, facts(o2.st))
        elif not is_cause(v[3][0], o2.st): ctx.violate(m, con, "the cause is the source", "%s: the source is %s" % (label, pv(e, e.snapshot(o2.st, v[3][0]))), facts(o2.st))
    d = error_trait(m, "core::fmt::Display", "fmt")
    for st2, ps in display(ctx, m, e, d, o.val, st, con, label):
        ctx.count("the cause's text is displayed")
        known = marks + [qatom(("to_string", repr(x[1]))) for x in text_marks(e, st2, cause)]
        ok = any(p[0] == "arg" and p[1][0] == "new_display" and p[1][2] is True and is_cause(p[1][1], st2) for p in ps) or \
            any(p[0] == "text" and any(s in p[1][1] for q in known for s in q[1]) for p in ps) or any(st2.decide(EQ0(e.qlen(q, st2))) is True for q in known)
        if not ok: ctx.violate(m, con, "the cause's text is displayed", "%s: displayed as %r" % (label, [lead(e, [p]) if p[0] == "text" else p[1][0] for p in ps]), facts(st2))


def skips(name):
    return isinstance(name, tuple) and bool(name) and name[0] == "innersource"


def source_shown(ctx, m, e, n, st, v):
    con = "<Error as Error>::source"
    f = error_trait(m, "core::error::Error", "source")
    d = error_trait(m, "core::fmt::Display", "fmt")
    st = st.copy()
    for o in returns(ctx, m, e, f, [ref(e, st, v)], st, con, "source", n):
        r = e.resolve_enum(o.val, o.st)
        if r[0] == "S" and skips(r[1]): continue
        if r[0] != "A": raise Undecided("source of " + n)
        src = None if r[2] == 0 else e.snapshot(o.st, r[3][0])
        for st2, ps in display(ctx, m, e, d, v, o.st, con, n):
            args = [p for p in ps if p[0] == "arg"]
            ctx.count("display shows exactly the source")
            if src is None and (args or any(x[0] == "to_string" for x in st2.events)): ctx.violate(m, con, "display shows exactly the source", "%s: no source, but a cause is displayed" % n, facts(st2))
            if src is not None:
                inner = [x for x in flat(src) if x[0] != "&"]
                texts = [qatom(("to_string", repr(x[1]))) for x in st2.events if x[0] == "to_string" and any(y in inner for y in flat(x[1]) if y[0] != "&")]
                if not any(p[1][0] == "new_display" and p[1][2] is True and any(x in inner for x in flat(p[1][1]) if x[0] != "&") for p in args) and \
                        not any(p[0] == "text" and any(s in p[1][1] for q in texts for s in q[1]) for p in ps) and not any(st2.decide(EQ0(e.qlen(q, st2))) is True for q in texts):
                    ctx.violate(m, con, "display shows exactly the source", "%s: the source is not displayed" % n, facts(st2))


# ------------------------------------------------------------------ C25
def trait_fn(m, adt, trait, name):
    f = m.tmethod(adt, trait, name)
    if f is None: raise Missing("<%s as %s>::%s" % (adt, trait, name))
    return f


def encoded(ctx, m, b, v, st, con, rule, want, what):
    e = b.e
    for o, q, _ in b.encode(None, v, st.copy(), prior=False, ty=con.split("::")[0]):
        if o.kind != "return": ctx.violate(m, con, rule, "%s: panics: %s" % (what, panic_at(o)), facts(o.st))
        else: ctx.expect(m, e, o.st, con, rule, q, ("Q", (("be", want),)), what)


@check("C25", "Bit-precise value analysis of every 24-bit integer and version method on arbitrary arguments; comparison outcomes of arbitrary pairs "
       "of versions against the lexicographic order.")
def c25(ctx):
    for m in ctx.each():
        e = m.engine()
        b = Builder(m, e)

        def conv(v, st, t, con, what):
            for name in ("into_u32", "into_usize"):
                for o in returns(ctx, m, e, m.method("U24", name), [v], st.copy(), "U24::" + name, "converts back to the number", what):
                    ctx.expect(m, e, o.st, "U24::" + name, "converts back to the number", o.val, ("I", t), "%s, %s()" % (what, name))
            bits = tuple(simp_bit(x, st) for x in reversed(bits_of(st.nz(t), 24)))
            encoded(ctx, m, b, v, st, "U24::encode", "three big-endian bytes", bits, what)
        with ctx.ob(m, "U24::new", "built from its bits"):
            h, l = u("high", 8), u("low", 16)
            for o in returns(ctx, m, e, m.method("U24", "new"), [h, l], State(), "U24::new", "built from its bits", "U24::new"):
                conv(o.val, o.st, from_bits(bits_of(l[1], 16) + bits_of(h[1], 8), o.st), "U24::new", "new(high, low)")
        for name, w in (("from_u32", 32), ("from_usize", 64)):
            con = "U24::" + name
            with ctx.ob(m, con, "built from a number"):
                n = u("n", w)
                st = State()
                assume_all(st, [LE(n[1], C(0xFFFFFF))])
                for o in returns(ctx, m, e, m.method("U24", name), [n], st, con, "numbers up to 16,777,215 are accepted", con): conv(o.val, o.st, n[1], con, name)
            with ctx.ob(m, con, "larger numbers panic"):
                st = State()
                assume_all(st, [LE(C(0x1000000), n[1])])
                for o in call(e, m.method("U24", name), [n], st):
                    ctx.parts += 1
                    ctx.count("larger numbers panic")
                    if o.kind == "return": ctx.violate(m, con, "larger numbers panic", "returns %s" % pv(e, e.snapshot(o.st, o.val)), facts(o.st))
        for cn, want in (("MAX", 0xFFFFFF), ("MIN", 0)):
            with ctx.ob(m, "U24::" + cn, "bounds"):
                k = [x for x in m.d.consts if x.endswith("U24::" + cn)]
                if not k: raise Missing("U24::" + cn)
                ctx.expect(m, e, State(), "U24::" + cn, "bounds", e.const(m.d.consts[k[0]]["v"]), ("I", C(want)), cn)
        # versions
        M1, N1, M2, N2 = (u(x, 16) for x in ("major", "minor", "other major", "other minor"))

        def versions(*pairs):
            outs = [(State(), [])]
            for a, c in pairs:
                outs = [(o.st, vs + [o.val]) for st, vs in outs for o in returns(ctx, m, e, m.method("Version", "new"), [a, c], st, "Version::new", "built from its numbers", "new")]
            return outs
        for st, (v,) in versions((M1, N1)):
            for name, want in (("major", M1), ("minor", N1)):
                with ctx.ob(m, "Version::" + name, "accessor"):
                    for o in returns(ctx, m, e, m.method("Version", name), [v], st.copy(), "Version::" + name, "accessor", name):
                        ctx.expect(m, e, o.st, "Version::" + name, "accessor", o.val, want, name)
            with ctx.ob(m, "Version::encode", "major then minor"):
                bits = tuple(reversed(bits_of(M1[1], 16))) + tuple(reversed(bits_of(N1[1], 16)))
                encoded(ctx, m, b, v, st, "Version::encode", "major then minor", bits, "a version")
            with ctx.ob(m, "<Version as Display>::fmt", "prints major.minor"):
                con = "<Version as Display>::fmt"
                for st2, ps in display(ctx, m, e, trait_fn(m, "Version", "Display", "fmt"), v, st, con, "a version"):
                    ctx.count("prints major.minor")
                    want = [("arg", M1), ("text", "."), ("arg", N1)]
                    got = []
                    plain = True
                    for p in ps:
                        if p[0] == "text":
                            k = e.qconst(p[1])
                            got.append(("text", k.decode("utf8", "replace") if k is not None else "?"))
                        else:
                            x = p[1][1]
                            while x[0] == "&": x = x[1]
                            got.append(("arg", x))
                            plain = plain and p[1][0] in ("new_display", "new_debug") and p[1][2] is True
                    if got != want or not plain:
                        if any(g[0] == "arg" and opaque_terms(g[1]) for g in got): raise Undecided("display of a version")
                        ctx.violate(m, con, "prints major.minor", "prints %s" % [g[1] if g[0] == "text" else pv(e, g[1]) for g in got])
        with ctx.ob(m, "Version::default", "default is 1.0"):
            f = trait_fn(m, "Version", "Default", "default")
            for o in returns(ctx, m, e, f, [], State(), "Version::default", "default is 1.0", "default"):
                for name, want in (("major", 1), ("minor", 0)):
                    for o2 in returns(ctx, m, e, m.method("Version", name), [o.val], o.st.copy(), "Version::default", "default is 1.0", name):
                        ctx.expect(m, e, o2.st, "Version::default", "default is 1.0", o2.val, ("I", C(want)), name)
        a, c, x, y = M1[1], M2[1], N1[1], N2[1]
        less = OR([LT(a, c), AND([EQ(a, c), LT(x, y)])])
        more = OR([LT(c, a), AND([EQ(a, c), LT(y, x)])])
        equal = AND([EQ(a, c), EQ(x, y)])
        conds = {"Less": less, "Equal": equal, "Greater": more}
        for st, (v, w) in versions((M1, N1), (M2, N2)):
            for trait, name in (("Ord", "cmp"), ("PartialOrd", "partial_cmp"), ("PartialEq", "eq"), ("PartialEq", "ne"), ("PartialOrd", "lt"), ("PartialOrd", "le"), ("PartialOrd", "gt"), ("PartialOrd", "ge"), ("Ord", "max"), ("Ord", "min")):
                con = "<Version as %s>::%s" % (trait, name)
                f = m.tmethod("Version", trait, name)
                if f is None:
                    if name in ("cmp", "partial_cmp", "eq"): ctx.violate(m, con, "totally ordered", "not implemented")
                    continue
                if f.get("inst") is None: continue
                with ctx.ob(m, con, "ordered by major, then minor"):
                    args = [v, w] if name in ("max", "min") else [ref(e, st, v), ref(e, st, w)]
                    for o in returns(ctx, m, e, f, args, st.copy(), con, "ordered by major, then minor", name):
                        r = e.resolve_enum(o.val, o.st)
                        ctx.count("ordered by major, then minor")
                        if r[0] == "B":
                            want = {"eq": equal, "ne": NOT(equal), "lt": less, "le": OR([less, equal]), "gt": more, "ge": OR([more, equal])}[name]
                            by_cases(ctx, m, e, o.st, con, r[1], want, name)
                            continue
                        if name in ("max", "min"):
                            hi = v if name == "max" else w
                            for t, s2 in e.fork(o.st, less):
                                want = (w if t else v) if name == "max" else (v if t else w)
                                if same(e, s2, o.val, want) is False: ctx.violate(m, con, "ordered by major, then minor", name + " returns the other version", facts(s2))
                            continue
                        if name == "partial_cmp":
                            if r[0] == "A" and r[2] == 0:
                                ctx.violate(m, con, "totally ordered", "two versions do not compare", facts(o.st))
                                continue
                            r = e.resolve_enum(r[3][0], o.st)
                        if r[0] != "A": raise Undecided("ordering")
                        n = e.types[r[1]]["variants"][r[2]]["name"]
                        d = o.st.decide(conds[n])
                        if d is True: continue
                        for t, s2 in e.fork(o.st, conds[n]):
                            if not t: ctx.violate(m, con, "ordered by major, then minor", "%s is returned when it should not be" % n, facts(s2))


def by_cases(ctx, m, e, st, con, got, want, name):
    """A boolean result against its definition, case by case."""
    for t, s in e.fork(st, want):
        for g, s2 in e.fork(s, got):
            if g != t: ctx.violate(m, con, "ordered by major, then minor", "%s is %s where it should be %s" % (name, g, t), facts(s2))
