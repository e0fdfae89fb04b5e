"""Builds symbolic frames through the public API and the wire layouts they must have."""
import itertools
from lib import *
import spec
from spec import *
from engine import qatom


class Args(dict):
    """Argument values of one case, and which optional parts are there."""


class Builder:
    def __init__(self, m, e):
        self.m, self.e = m, e
        self.ren = {}
        self.small = None      # a length to give every field of unknown bytes
        e.free_chunks = True    # input may come in any chunks
        self.bytes_ty = e.tid("bytes::bytes::Bytes") or e.tid("bytes::Bytes")

    def nm(self, n):
        """The symbol an argument goes by: two frames can be built with different ones."""
        return self.ren.get(n, n)

    def one(self, outs, what):
        rs = [o for o in outs if o.kind == "return"]
        if len(rs) != 1 or len(outs) != 1: raise Undecided("%s has %d outcomes" % (what, len(outs)))
        return rs[0].st, rs[0].val

    def payload(self, st, meta, data):
        """A Payload made with the public builder; meta and data are Q values or None."""
        m, e = self.m, self.e
        st, b = self.one(call(e, m.method("PayloadBuilder", "new"), [], st), "PayloadBuilder::new")
        if meta is not None: st, b = self.one(call(e, m.method("PayloadBuilder", "set_metadata"), [b, meta], st), "set_metadata")
        if data is not None: st, b = self.one(call(e, m.method("PayloadBuilder", "set_data"), [b, data], st), "set_data")
        return self.one(call(e, m.method("PayloadBuilder", "build"), [b], st), "build")

    def flags(self, st, name):
        f = self.m.method("Flags", "from_bits_truncate")
        return self.one(call(self.e, f, [u(name, 16)], st), "Flags::from_bits_truncate")

    def version(self, st, major="major", minor="minor"):
        return self.one(call(self.e, self.m.method("Version", "new"), [u(major, 16), u(minor, 16)], st), "Version::new")

    def opt(self, ty, v):
        return ("A", ty, 0, ()) if v is None else ("A", ty, 1, (v,))

    # -- cases
    def cases(self, sp):
        """Choices of the optional parts: dicts name -> present."""
        if sp["ty"] == "SetupFrame":
            names = ["token", "lease", "payload.metadata", "payload.data"]
        else:
            names = []
            for n, k in sp["args"]:
                if k == "optbytes": names.append(n)
                if k == "payload": names += ["payload.metadata", "payload.data"]
        for bits in itertools.product((True, False), repeat=len(names)):
            yield dict(zip(names, bits))

    def construct(self, sp, case, st):
        """(args, outcomes) of building the frame with symbolic arguments."""
        m, e = self.m, self.e
        a = Args()
        a.case = case
        if sp["ty"] == "SetupFrame": return a, self.setup(sp, case, st, a)
        f = m.method(sp["ty"], "new")
        vals = []
        if m.d.bodies[f["inst"]]["argc"] != len(sp["args"]): raise Missing("%s::new with %d arguments" % (sp["ty"], len(sp["args"])))
        for i, (n, k) in enumerate(sp["args"]):
            ty = m.argty(f, i)
            if k in ("sid", "r31", "n31", "u32"): v = u(self.nm(n), 32)
            elif k == "r63": v = u(self.nm(n), 64)
            elif k == "bool": v = ("B", ("at", ("in", self.nm(n))))
            elif k == "bytes": v = bytes_in(self.nm(n))
            elif k == "optbytes":
                v = self.opt(ty, bytes_in(self.nm(n)) if case[n] else None)
            elif k == "payload":
                a["pmeta"] = bytes_in(self.nm("metadata")) if case["payload.metadata"] else None
                a["pdata"] = bytes_in(self.nm("data")) if case["payload.data"] else None
                st, v = self.payload(st, a["pmeta"], a["pdata"])
            elif k == "flags": st, v = self.flags(st, self.nm(n))
            elif k == "version":
                st, v = self.version(st, self.nm("major"), self.nm("minor"))
                a["major"], a["minor"] = u(self.nm("major"), 16), u(self.nm("minor"), 16)
            a[n] = v
            vals.append(v)
        return a, call(e, f, vals, st)

    def setup(self, sp, case, st, a, steps=None):
        """A SETUP frame built with every setter the case asks for."""
        m, e = self.m, self.e
        outs = call(e, m.method("SetupFrame", "builder"), [], st)
        if steps is None:
            steps = [("set_version", [u(self.nm("major"), 16), u(self.nm("minor"), 16)]), ("set_keepalive_interval", [u(self.nm("keepalive"), 32)]),
                     ("set_keepalive_timeout", [u(self.nm("lifetime"), 32)]), ("set_metadata_mimetype", [bytes_in(self.nm("mmime"))]), ("set_data_mimetype", [bytes_in(self.nm("dmime"))])]
            a["major"], a["minor"], a["keepalive"], a["lifetime"] = u(self.nm("major"), 16), u(self.nm("minor"), 16), u(self.nm("keepalive"), 32), u(self.nm("lifetime"), 32)
            a["mmime"], a["dmime"] = bytes_in(self.nm("mmime")), bytes_in(self.nm("dmime"))
            a["token"] = bytes_in(self.nm("token")) if case["token"] else None
            a["pmeta"] = bytes_in(self.nm("metadata")) if case["payload.metadata"] else None
            a["pdata"] = bytes_in(self.nm("data")) if case["payload.data"] else None
            a["lease"] = ("B", case["lease"])
            if case["token"]: steps.append(("set_resume_token", [bytes_in(self.nm("token"))]))
            if case["lease"]: steps.append(("set_lease_flag", []))
            if case["payload.metadata"]: steps.append(("set_metadata", [bytes_in(self.nm("metadata"))]))
            if case["payload.data"]: steps.append(("set_data", [bytes_in(self.nm("data"))]))
            steps.append(("build", []))
        for name, xs in steps:
            f = m.method("SetupFrameBuilder", name)
            nxt = []
            for o in outs:
                if o.kind != "return": nxt.append(o)
                else: nxt += call(e, f, [o.val] + xs, o.st)
            outs = nxt
        return outs

    # -- conditions a caller must respect
    def range_cond(self, sp, st):
        """All integer arguments are within their documented ranges."""
        cs = []
        if sp["ty"] == "SetupFrame": kinds = [("keepalive", "r31"), ("lifetime", "r31")]
        else: kinds = sp["args"]
        for n, k in kinds:
            if k in ("sid", "r31", "n31"):
                cs.append(LE(u(self.nm(n), 32)[1], C(MAX31)))
                if k == "n31": cs.append(LE(C(1), u(self.nm(n), 32)[1]))
            if k == "r63": cs.append(LE(u(self.nm(n), 64)[1], C(MAX63)))
        return cs

    def size_cond(self, sp, case):
        """All length-prefixed arguments fit their prefixes."""
        cs = []
        for w in sp["wire"]:
            if w[0] in ("lp16", "lp8", "opt16"): cs.append(LE(len_in(self.nm(w[1])), C(LIMIT[w[1]])))
        if sp["tail"] == "payload": cs.append(LE(len_in(self.nm("metadata")), C(LIMIT["metadata"])))
        return cs

    # -- the wire
    def low(self, v, n, st):
        """The low n bits of an integer value, MSB first."""
        t = st.nz(v[1])
        return tuple(simp_bit(b, st) for b in reversed(bits_of(t, n)))

    def flag_cond(self, c, a):
        if c[0] == "always": return 1
        if c[0] == "meta": return 1 if a["pmeta"] is not None else 0
        if c[0] == "some":
            v = a[c[1]]
            if v is None: return 0
            if v[0] == "A": return 1 if v[2] == 1 else 0
            return 1
        if c[0] == "is":
            b = a[c[1]][1]
            if b is True: return 1
            if b is False: return 0
            return ("?", b)
        if c[0] == "bit": return (u(c[1], 16)[1], c[2])
        raise AssertionError(c)

    def header(self, sp, a, st):
        sid = (0,) * 32 if sp["conn"] else (0,) + self.low(a["sid"], 31, st)
        fl = [0] * 10
        for mask, c in sp["flags"].items():
            b = self.flag_cond(c, a)
            if isinstance(b, tuple): b = simp_bit(b, st)
            fl[9 - (mask.bit_length() - 1)] = b
        code = tuple((sp["code"] >> i) & 1 for i in range(5, -1, -1))
        return sid + code + tuple(fl)

    def optval(self, v):
        """Bytes of an optional argument, or None."""
        if v is None: return None
        if v[0] == "A": return v[3][0] if v[2] == 1 else None
        return v

    def wire(self, sp, a, st):
        """The byte sequence the frame must have."""
        e = self.e
        segs = [("be", self.header(sp, a, st))]

        def lp(q, n):
            ln = e.qlen(q, st)
            segs.append(e.int_q(ln, n, st))
            segs.extend(q[1])
        for w in sp["wire"]:
            k, n = w[0], w[1]
            v = a.get(n)
            if k == "r31": segs.append(("be", (0,) + self.low(v, 31, st)))
            elif k == "r63": segs.append(("be", (0,) + self.low(v, 63, st)))
            elif k == "u32": segs.append(("be", self.low(v, 32, st)))
            elif k == "u16": segs.append(("be", self.low(v, 16, st)))
            elif k == "lp16": lp(v, 2)
            elif k == "lp8": lp(v, 1)
            elif k == "opt16":
                if self.optval(v) is not None: lp(self.optval(v), 2)
        t = sp["tail"]
        if t == "payload":
            if a["pmeta"] is not None: lp(a["pmeta"], 3)
            if a["pdata"] is not None: segs.extend(a["pdata"][1])
        elif t == "data" and self.optval(a["data"]) is not None: segs.extend(self.optval(a["data"])[1])
        elif t == "metadata": segs.extend(a["metadata"][1])
        elif t == "optmeta" and self.optval(a["metadata"]) is not None: segs.extend(self.optval(a["metadata"])[1])
        return e.qnorm(("Q", tuple(segs)), st)

    # -- encoding
    def encode(self, sp, frame, st, prior=False, ty=None):
        """Outcomes (Out, bytes appended, reference to the buffer)."""
        m, e = self.m, self.e
        f = m.need(ty or sp["ty"], "Encode", "encode")
        start = bytes_in("prior") if prior else ("Q", ())
        buf = ref(e, st, start)
        fr = ref(e, st, frame)
        res = []
        for o in call(e, f, [fr, buf], st):
            q = e.qnorm(e.as_q(e.rd(o.st, buf), o.st), o.st) if o.kind == "return" else None
            res.append((o, q, fr))
        return res

    def length(self, sp, frame, st, ty=None):
        m, e = self.m, self.e
        f = m.need(ty or sp["ty"], "Encode", "len")
        return call(e, f, [ref(e, st, frame)], st)

    # -- decoding
    def decode(self, q, st):
        """Outcomes of Frame::decode on the byte sequence q: (Out, bytes left)."""
        m, e = self.m, self.e
        f = m.method("Frame", "decode")
        buf = ref(e, st, q)
        res = []
        for o in call(e, f, [buf], st):
            left = e.qnorm(e.as_q(e.rd(o.st, buf), o.st), o.st) if o.kind == "return" else None
            res.append((o, left))
        return res

    def ok_frame(self, o):
        """('ok', variant name, inner frame) or ('err', DecodeError value)."""
        e = self.e
        v = e.resolve_enum(o.val, o.st)
        if v[0] != "A": raise Undecided("unknown result")
        if v[2] == 1:
            return ("err", e.resolve_enum(v[3][0], o.st))
        fr = e.resolve_enum(v[3][0], o.st)
        if fr[0] != "A": raise Undecided("unknown frame")
        return ("ok", e.types[fr[1]]["variants"][fr[2]]["name"], fr[3][0], fr)

    def err_name(self, v):
        if v[0] != "A": raise Undecided("unknown error")
        return self.e.types[v[1]]["variants"][v[2]]["name"]

    # -- accessors
    def accessor(self, sp, name, frame, st):
        m, e = self.m, self.e
        f = m.method(sp["ty"], name)
        t = e.types[m.argty(f, 0)]
        arg = ref(e, st, frame) if t["k"] == "ref" else frame
        return f, call(e, f, [arg], st)

    def want(self, w, a, st, retty, hdr_flags=None):
        """Expected accessor result for arguments a, or None when it depends on text validity."""
        k = w[0]
        if k == "int":
            v = a[w[1]]
            ty = self.e.types[retty]
            return v
        if k == "ms": return ("X", "duration", ("ms", a[w[1]][1]))
        if k == "flag": return ("B", hdr_flags[w[1]])
        if k == "opt":
            v = self.optval(a[w[1]])
            return self.opt(retty, v)
        if k == "bytes": return a[w[1]]
        if k == "pmeta": return self.opt(retty, a["pmeta"])
        if k == "pdata": return self.opt(retty, a["pdata"])
        raise AssertionError(w)

    def version_of(self, st, major, minor):
        return self.one(call(self.e, self.m.method("Version", "new"), [major, minor], st), "Version::new")
