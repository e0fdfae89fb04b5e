"""Partitioned abstract interpretation of MIR.

Values:
  ('I', term)                    integer / char / raw address
  ('B', bool)                    boolean
  ('A', ty, variant, fields)     struct / enum / tuple / closure / array
  ('S', name, ty)                unknown value, expanded on demand
  ('Q', segs)                    contents of a byte container or of a generic Buf
  ('R', cell, path)              reference, raw pointer or Box
  ('F', callee)                  function item or pointer
  ('D', prefix, tail, suffix)    queue: known items, unknown middle, known items
  ('X', tag, data)               library object kept abstract
  ('U',)                         uninitialised

Segments of Q:
  ('be', bits)                   bytes given by their bits, most significant first
  ('sub', src, off, len)         the bytes [off, off+len) of src
"""
import sys
import time
from terms import *
from state import State

sys.setrecursionlimit(20000)
U = ("U",)
UNIT_FIELDS = ()


FN_TRAITS = ("core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce")


DEADLINE = 400.0   # seconds of processor time of this process


class Undecided(Exception):
    """The analysis cannot follow this construct."""


class UnknownCut(Undecided):
    """Where a sequence is cut depends on a condition; the caller may split on it."""

    def __init__(self, msg, cond):
        super().__init__(msg)
        self.cond = cond


class Out:
    __slots__ = ("kind", "st", "val", "msg", "at")

    def __init__(self, kind, st, val=None, msg="", at=""):
        self.kind, self.st, self.val, self.msg, self.at = kind, st, val, msg, at

    def __repr__(self):
        return "Out(%s,%s,%s@%s)" % (self.kind, self.val, self.msg, self.at)


def fop(name, args):
    """A floating-point result: evaluated where a concrete case is sought, otherwise not interpreted."""
    return op(name, args, -(1 << 200), 1 << 200)


FRESH = ("atomic", "contains", "isempty", "polled", "instant", "tmp")


def fresh_in(x, out):
    """Fresh values mentioned, in order."""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] in FRESH and isinstance(x[1], int):
            if x not in out: out.append(x)
            return out
        for y in x: fresh_in(y, out)
    elif isinstance(x, (frozenset, set)):
        for y in sorted(x, key=repr): fresh_in(y, out)
    return out


def mentions(x, t):
    if x == t: return True
    if isinstance(x, (tuple, frozenset)): return any(mentions(y, t) for y in x)
    return False


def sweep(s, kept):
    """Forgets the cells that nothing refers to, but for those in kept."""
    live, work = set(), [v for k, v in s.mem.items() if k[0] != "tmp" or k in kept] + [s.events]
    while work:
        x = work.pop()
        if not isinstance(x, tuple): continue
        if len(x) == 2 and x[0] == "tmp":
            if x not in live:
                live.add(x)
                if x in s.mem: work.append(s.mem[x])
            continue
        work.extend(x)
    for k in [k for k in s.mem if k[0] == "tmp" and k not in live and k not in kept]: del s.mem[k]


def canon(s):
    """Forgets the facts about fresh values that nothing refers to; returns what is left, fresh values renumbered."""
    mem = sorted(s.mem.items(), key=lambda x: repr(x[0]))
    live = fresh_in((tuple(mem), s.events), [])
    ok = set(live)

    def old(x): return not all(y in ok for y in fresh_in(x, []))
    for d in (s.iv, s.pins, s.bits, s.bools, s.vars):
        for k in [k for k in d if old((k, d[k]))]: del d[k]
    s.ges = tuple(x for x in s.ges if not old(x))
    s.clauses = tuple(x for x in s.clauses if not old(x))
    s.nes = frozenset(x for x in s.nes if not old(x))
    num = {x: (x[0], i) for i, x in enumerate(live)}

    def ren(x):
        if isinstance(x, tuple):
            if x in num: return num[x]
            return tuple(ren(y) for y in x)
        if isinstance(x, frozenset): return tuple(sorted((ren(y) for y in x), key=repr))
        return x
    facts = [sorted((repr(ren((k, v))) for k, v in d.items())) for d in (s.iv, s.pins, s.bits, s.bools, s.vars)]
    facts += [sorted(repr(ren(x)) for x in g) for g in (s.ges, s.clauses, s.nes)]
    return repr((ren(tuple(mem)), ren(s.events), facts))


class NeedSummary(Exception):
    pass


BYTE_ADTS = {
    "bytes::bytes::Bytes", "bytes::bytes_mut::BytesMut", "alloc::string::String",
}


def len_atom(src):
    return ("a", ("len", src), 0, LENMAX)


def qatom(src):
    return ("Q", (("sub", src, C(0), len_atom(src)),))


def slide(q, by, st):
    """A window of a source, that much further along."""
    s = q[1][0]
    return ("Q", ((s[0], s[1], st.nz(add(s[2], by)), s[3]),))


OFFSETS = {}
OFFSET_LIST = []


def intern(off):
    """A small stand-in for an offset, so that terms stay shallow."""
    if is_c(off): return off[1]
    n = OFFSETS.get(off)
    if n is None:
        n = OFFSETS[off] = ("o", len(OFFSET_LIST))
        OFFSET_LIST.append(off)
    return n


def offset_of(n):
    return C(n) if isinstance(n, int) else OFFSET_LIST[n[1]]


def byte_bits(src, off, k):
    """Bits (MSB first) of k bytes of src at offset off."""
    if src[0] == "fill": return tuple((src[1] >> j) & 1 for j in range(7, -1, -1)) * k
    out = []
    for i in range(k):
        t = ("a", ("byte", src, intern(add(off, C(i)))), 0, 255)
        out += [(t, j) for j in range(7, -1, -1)]
    return tuple(out)


def be_const(bs):
    out = []
    for b in bs:
        out += [(b >> j) & 1 for j in range(7, -1, -1)]
    return ("be", tuple(out))


class Engine:
    UNROLL = 130
    MAXSTATES = 3000

    def __init__(self, dump, overrides=None, skip_inline=None):
        self.d = dump
        self.types = dump.types
        self.bodies = dump.bodies
        self.fid = 0
        self.tmp = 0
        self.places = set()     # places the caller gave by reference, all different
        self.stack = []
        self.chunks = {}
        self.loops = []
        self.analysed = set()
        self.calls = 0
        self.overrides = overrides or {}
        self.vt = None
        self.tyindex = {}
        for i, t in enumerate(self.types):
            self.tyindex.setdefault(t["s"], i)
        self._cfg = {}
        self.unmodelled = {}
        self.recursion = []
        self.budget = 400000
        self.finite = False       # a check's word that its loops end after a few iterations, so that they are followed to the end
        self.keep_events = None   # a check's choice of events that matter across iterations
        self.jump = None          # a check's word on what skipping iterations does to its events
        self.repeat_first = False # a check's word that its loops repeat rather than end
        self.invariant = None  # hook: (eng, st, name, ty) -> None, for symbolic ADTs
        import models
        self.models = models

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def tid(self, s):
        return self.tyindex.get(s)

    def is_byte(self, i):
        e = self.types[i]
        return e["k"] == "int" and e["w"] == 8

    def is_bytes_ty(self, i):
        t = self.types[i]
        if t["k"] == "str": return True
        if t["k"] == "slice": return self.is_byte(t["elem"])
        if t["k"] == "adt":
            if t["path"] in BYTE_ADTS: return True
            if t["path"] == "alloc::vec::Vec" and t["args"]:
                e = self.types[t["args"][0]]
                return e["k"] == "int" and e["w"] == 8
        return False

    def mksym(self, name, i):
        t = self.types[i]
        k = t["k"]
        if k == "int":
            lo, hi = limits(t["w"], t["signed"])
            return ("I", ("a", name, lo, hi))
        if k == "char":
            return ("I", ("a", name, 0, 0x10FFFF))
        if k == "bool":
            return ("B", ("at", name))
        if k in ("ref", "ptr"):
            return ("R", ("sym", (name, "*"), t["to"]), ())
        if k == "adt" and t.get("box"):
            return ("R", ("sym", (name, "*"), t["args"][0]), ())
        if self.is_bytes_ty(i):
            return qatom(name)
        if k == "adt" and t["path"] == "alloc::collections::vec_deque::VecDeque":
            return ("D", (), (name, t["args"][0]), ())
        if k == "fndef":
            return ("S", name, i)
        if k == "tuple" and not t["elems"]:
            return ("A", i, 0, ())
        if k == "adt" and t["kind"] == "struct" and "variants" in t and not t["variants"][0]["fields"]:
            return ("A", i, 0, ())
        if k == "adt" and t["kind"] == "enum" and len(t.get("variants", ())) == 1:
            return ("A", i, 0, tuple(self.mksym((name, 0, j), f["ty"]) for j, f in enumerate(t["variants"][0]["fields"])))
        return ("S", name, i)

    def fields_of(self, i, variant=0):
        t = self.types[i]
        if t["k"] == "adt":
            if "variants" not in t: return None
            return [f["ty"] for f in t["variants"][variant]["fields"]]
        if t["k"] == "tuple": return t["elems"]
        if t["k"] == "closure": return t["upvars"]
        if t["k"] == "array" and t["len"] is not None and t["len"] <= 64:
            return [t["elem"]] * t["len"]
        return None

    def is_enum(self, i):
        t = self.types[i]
        return t["k"] == "adt" and t["kind"] == "enum"

    def expand(self, v, variant=0):
        """S -> A with symbolic children."""
        fs = self.fields_of(v[2], variant)
        if fs is None: raise Undecided("cannot look inside %s" % self.types[v[2]]["s"])
        return ("A", v[2], variant, tuple(self.mksym((v[1], variant, i), f) for i, f in enumerate(fs)))

    def resolve_enum(self, v, st):
        """A symbolic enum whose variant is known becomes an aggregate."""
        if v[0] == "S":
            p = st.vars.get(v[1])
            if p is not None and len(p) == 1 and self.is_enum(v[2]):
                return self.expand(v, next(iter(p)))
        return v

    def norm(self, v, st):
        """Value in normal form under the facts."""
        k = v[0]
        if k == "I": return ("I", st.nz(v[1]))
        if k == "B": return ("B", st.nzb(v[1]))
        if k == "S":
            w = self.resolve_enum(v, st)
            if w is not v: return self.norm(w, st)
            return v
        if k == "A":
            return ("A", v[1], v[2], tuple(self.norm(f, st) for f in v[3]))
        if k == "Q": return self.qnorm(v, st)
        if k == "D":
            v = self.dnorm(v, st)
            return ("D", tuple(self.norm(x, st) for x in v[1]), v[2], tuple(self.norm(x, st) for x in v[3]))
        return v

    # ------------------------------------------------------------ memory
    def newcell(self, st, val):
        self.tmp += 1
        c = ("tmp", self.tmp)
        st.mem[c] = val
        return c

    def load_cell(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            if cell[0] == "sym": v = self.mksym(cell[1], cell[2])
            elif cell[0] == "bytes": v = ("Q", (be_const(cell[1]),) if cell[1] else ())
            elif cell[0] == "cval": v = cell[1]
            elif cell[0] == "static": v = ("X", "static", cell[1])
            else: v = U
            if cell[0] in ("sym",): st.mem[cell] = v
        return v

    def child(self, v, e, st):
        if e[0] == "d":
            if v[0] == "S":
                p = st.vars.get(v[1])
                if p is None or e[1] in p:
                    return ("SD", v, e[1])
                raise Undecided("impossible downcast")
            if v[0] == "A" and v[2] != e[1] and self.is_enum(v[1]):
                raise Undecided("impossible downcast")
            return v
        if e[0] == "f":
            if v[0] == "R" or v[0] == "X": return v  # Box / NonNull / Unique / Pin wrappers
            if v[0] == "SD":
                fs = self.fields_of(v[1][2], v[2])
                return self.mksym((v[1][1], v[2], e[1]), fs[e[1]])
            if v[0] == "S":
                fs = self.fields_of(v[2])
                if fs is None: raise Undecided("field of " + self.types[v[2]]["s"])
                return self.mksym((v[1], 0, e[1]), fs[e[1]])
            if v[0] == "A":
                if e[1] >= len(v[3]): raise Undecided("field of another variant")
                return v[3][e[1]]
            if v[0] == "U": return U
            if v[0] == "F": return v
            raise Undecided("field of %s" % (v[0],))
        if e[0] == "dq":
            v = self.dnorm(v, st) if v[0] == "D" else v
            if v[0] == "D" and e[1] < len(v[1]): return v[1][e[1]]
            raise Undecided("item of a queue")
        if e[0] == "i":
            if v[0] == "A":
                t = e[1]
                if is_c(t) and t[1] < len(v[3]): return v[3][t[1]]
                raise Undecided("index")
            if v[0] == "S":
                ty = self.types[v[2]]
                if ty["k"] in ("array", "slice"): return self.mksym((v[1], "idx", e[1]), ty["elem"])
            if v[0] == "Q":
                return ("I", self.qbyte(v, e[1], st))
            if v[0] == "D":
                v = self.dnorm(v, st)
                if is_c(e[1]) and e[1][1] < len(v[1]): return v[1][e[1][1]]
            raise Undecided("index of %s" % v[0])
        if e[0] == "q":
            if v[0] == "D":
                lo, hi = self.dcut(v, e)
                return ("D", v[1][lo:hi], None, ())
            return self.qslice(v, e[1], e[2], st)
        raise Undecided("projection %r" % (e,))

    def read(self, st, cell, path):
        v = self.load_cell(st, cell)
        for e in path:
            v = self.child(v, e, st)
        if v[0] == "SD": v = self.expand(v[1], v[2])
        return v

    def dcut(self, v, e):
        """The bounds of a part of a list of which every item is known."""
        if v[2] is not None or v[3] or not is_c(e[1]) or not is_c(e[2]) or e[2][1] > len(v[1]): raise Undecided("part of a list")
        return e[1][1], e[2][1]

    def update(self, v, path, val, st):
        if not path: return val
        e = path[0]
        if e[0] == "d":
            if v[0] == "S": v = self.expand(v, e[1])
            return self.update(v, path[1:], val, st)
        if e[0] == "f":
            if v[0] == "S": v = self.expand(v)
            if v[0] == "U" or v[0] == "A":
                fs = list(v[3]) if v[0] == "A" else []
                while len(fs) <= e[1]: fs.append(U)
                fs[e[1]] = self.update(fs[e[1]], path[1:], val, st)
                return ("A", v[1] if v[0] == "A" else None, v[2] if v[0] == "A" else 0, tuple(fs))
            raise Undecided("write to field of %s" % v[0])
        if e[0] == "i" and v[0] == "A" and is_c(e[1]) and e[1][1] < len(v[3]):
            fs = list(v[3])
            fs[e[1][1]] = self.update(fs[e[1][1]], path[1:], val, st)
            return ("A", v[1], v[2], tuple(fs))
        if e[0] == "dq" and v[0] == "D":
            v = self.dnorm(v, st)
            if e[1] < len(v[1]): return ("D", v[1][:e[1]] + (self.update(v[1][e[1]], path[1:], val, st),) + v[1][e[1] + 1:], v[2], v[3])
        if e[0] == "i" and v[0] == "D":
            v = self.dnorm(v, st)
            if is_c(e[1]) and e[1][1] < len(v[1]): return ("D", v[1][:e[1][1]] + (self.update(v[1][e[1][1]], path[1:], val, st),) + v[1][e[1][1] + 1:], v[2], v[3])
        if e[0] == "q" and v[0] == "D":
            lo, hi = self.dcut(v, e)
            w = self.update(("D", v[1][lo:hi], None, ()), path[1:], val, st)
            if w[0] == "D" and w[2] is None: return ("D", v[1][:lo] + w[1] + w[3] + v[1][hi:], None, ())
        if e[0] in ("q", "i") and (v[0] == "Q" or v[0] == "A" and v[1] is not None and (self.is_bytes_ty(v[1]) or self.types[v[1]]["k"] == "array" and self.is_byte(self.types[v[1]]["elem"]))):
            lo = e[1]
            hi = e[2] if e[0] == "q" else add(lo, C(1))
            q = self.as_q(v, st)
            a, r = self.qcut(q, lo, st)
            m, z = self.qcut(r, sub(hi, lo), st)
            if e[0] == "i":
                if len(path) > 1 or val[0] != "I": raise Undecided("write into a byte")
                m = ("Q", (self.int_q(val[1], 1, st),))
            else: m = self.as_q(self.update(m, path[1:], val, st), st)
            return self.qnorm(("Q", a[1] + m[1] + z[1]), st)
        raise Undecided("write through %r" % (e,))

    def write(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
        else:
            st.mem[cell] = self.update(self.load_cell(st, cell), tuple(path), val, st)

    def deref(self, st, v):
        """(cell, path) a pointer value refers to."""
        if v[0] == "R": return v[1], v[2]
        if v[0] == "S":
            t = self.types[v[2]]
            if t["k"] in ("ref", "ptr"): return ("sym", (v[1], "*"), t["to"]), ()
        if v[0] == "A" and len(v[3]) >= 1:
            return self.deref(st, v[3][0])
        if v[0] == "X" and v[1] == "static":
            return ("static", v[2]), ()
        raise Undecided("dereference of %s" % (v[0],))

    def rd(self, st, v):
        c, p = self.deref(st, v)
        return self.read(st, c, p)

    def wr(self, st, ref, val):
        c, p = self.deref(st, ref)
        self.write(st, c, p, val)

    def loc(self, st, fid, place):
        cell, path = (fid, place[0]), ()
        for e in place[1]:
            if e == "*":
                v = self.read(st, cell, path)
                cell, path = self.deref(st, v)
            elif e == "cast":
                continue
            elif e[0] == "f":
                path += (("f", e[1]),)
            elif e[0] == "d":
                path += (("d", e[1]),)
            elif e[0] == "i":
                iv = self.read(st, (fid, e[1]), ())
                path += (("i", st.nz(iv[1])),)
            elif e[0] == "c":
                if e[3]:
                    n = self.seqlen(self.read(st, cell, path), st)
                    path += (("i", st.nz(sub(n, C(e[1])))),)
                else:
                    path += (("i", C(e[1])),)
            elif e[0] == "s":
                v = self.read(st, cell, path)
                n = self.seqlen(v, st)
                end = sub(n, C(e[2])) if e[3] else C(e[2])
                path += (("q", C(e[1]), end),)
            else:
                raise Undecided("projection")
        return cell, path

    # ------------------------------------------------------------ byte sequences
    def byte_elems(self, ty):
        x = self.types[ty["elem"]] if ty.get("elem") is not None else {}
        return x.get("k") == "int" and x["w"] == 8

    def as_q(self, v, st):
        """The contents of anything that holds bytes."""
        if v[0] == "Q": return v
        if v[0] == "R": return self.as_q(self.rd(st, v), st)
        if v[0] == "S":
            return qatom(v[1])
        if v[0] == "A":
            ty = self.types[v[1]] if v[1] is not None else {"k": "array"}
            if ty["k"] == "array":
                if v[1] is not None and not self.byte_elems(ty): raise Undecided("bytes of an array of something else")
                segs = ()
                for f in v[3]:
                    if f[0] != "I" or rng(f[1], st)[1] > 255: raise Undecided("bytes of array")
                    segs += (("be", tuple(reversed(bits_of(st.nz(f[1]), 8)))),)
                return self.qnorm(("Q", segs), st)
        if v[0] == "D":
            return self.dcontent(v, st)
        raise Undecided("bytes of %s" % v[0])

    def qnorm(self, q, st):
        out = []
        for s in q[1]:
            if s[0] == "be":
                bits = tuple(simp_bit(b, st) for b in s[1])
                if not bits: continue
                if out and out[-1][0] == "be":
                    out[-1] = ("be", out[-1][1] + bits)
                else:
                    out.append(("be", bits))
            else:
                n = st.nz(s[3]) if st else s[3]
                o = st.nz(s[2]) if st else s[2]
                if n == C(0): continue
                if s[1][0] == "fill":
                    o = C(0)
                    if out and out[-1][0] == "sub" and out[-1][1] == s[1]:
                        out[-1] = ("sub", s[1], o, add(out[-1][3], n))
                        continue
                if out and out[-1][0] == "sub" and out[-1][1] == s[1] and add(out[-1][2], out[-1][3]) == o:
                    out[-1] = ("sub", s[1], out[-1][2], add(out[-1][3], n))
                else:
                    out.append(("sub", s[1], o, n))
        return ("Q", tuple(out))

    def seglen(self, s):
        return C(len(s[1]) // 8) if s[0] == "be" else s[3]

    def qlen(self, q, st=None):
        t = C(0)
        for s in q[1]: t = add(t, self.seglen(s))
        return st.nz(t) if st else t

    def seqlen(self, v, st):
        if v[0] == "A": return C(len(v[3]))
        if v[0] == "S":
            t = self.types[v[2]]
            if t["k"] == "array" and t["len"] is not None: return C(t["len"])
            return len_atom(v[1])
        if v[0] == "D" and v[2] is None: return C(len(v[1]) + len(v[3]))
        return self.qlen(self.as_q(v, st), st)

    def qcut(self, q, n, st):
        """(first n bytes, rest); needs n <= len to be known."""
        q = self.qnorm(q, st)
        n = st.nz(n)
        left = []
        segs = list(q[1])
        while True:
            if n == C(0): return ("Q", tuple(left)), ("Q", tuple(segs))
            if not segs:
                # a cut lies within the sequence: at its end, the place is the end itself
                if st.ge0(sub(C(0), n)) is True and st.ge0(n) is True and st.assume(EQ(n, C(0))) is not False: n = C(0); continue
                raise Undecided("cut past the end")
            s = segs[0]
            sl = st.nz(self.seglen(s))
            d = st.nz(sub(n, sl))
            r = st.ge0(d)
            if r is True:
                left.append(s)
                segs.pop(0)
                n = d
                continue
            if r is None:
                # the cut lies in this segment if the rest of the bytes cannot be reached
                if st.ge0(sub(sl, n)) is not True:
                    raise UnknownCut("cut at an unknown segment", LE(n, sl))
            if s[0] == "be":
                if not is_c(n):
                    for j in range(len(s[1]) // 8 + 1):
                        if st.decide(EQ(n, C(j), st)) is not False: raise UnknownCut("cut inside known bytes at an unknown place", EQ(n, C(j), st))
                    raise Undecided("cut inside known bytes at an unknown place")
                left.append(("be", s[1][: 8 * n[1]]))
                segs[0] = ("be", s[1][8 * n[1]:])
            else:
                left.append(("sub", s[1], s[2], n))
                segs[0] = ("sub", s[1], st.nz(add(s[2], n)), st.nz(sub(s[3], n)))
            return ("Q", tuple(left)), ("Q", tuple(segs))

    def qbits(self, q, st):
        """All bits of a sequence of constant length, MSB first."""
        out = ()
        for s in self.qnorm(q, st)[1]:
            if s[0] == "be": out += s[1]
            else:
                n = st.nz(s[3])
                if not is_c(n) or n[1] > 64: raise Undecided("bits of unknown length")
                out += byte_bits(s[1], s[2], n[1])
        return tuple(simp_bit(b, st) for b in out)

    def qint(self, q, st, little=False):
        b = self.qbits(q, st)
        if little:
            by = [b[i:i + 8] for i in range(0, len(b), 8)]
            b = tuple(x for y in reversed(by) for x in y)
        return from_bits(tuple(reversed(b)), st)

    def qbyte(self, q, idx, st):
        a, b = self.qcut(q, idx, st)
        c, _ = self.qcut(b, C(1), st)
        return self.qint(c, st)

    def qslice(self, v, a, b, st):
        q = self.as_q(v, st)
        _, r = self.qcut(q, a, st)
        m, _ = self.qcut(r, sub(b, a), st)
        return m

    def int_q(self, t, nbytes, st, little=False):
        bs = tuple(simp_bit(b, st) for b in reversed(bits_of(t, 8 * nbytes)))
        if little:
            by = [bs[i:i + 8] for i in range(0, len(bs), 8)]
            bs = tuple(x for y in reversed(by) for x in y)
        return ("be", bs)

    def qconst(self, q):
        """The bytes of a fully known sequence, or None."""
        if not q[1]: return b""
        if len(q[1]) != 1 or q[1][0][0] != "be": return None
        bits = q[1][0][1]
        if any(b not in (0, 1) for b in bits): return None
        return bytes(int("".join(map(str, bits[i:i + 8])), 2) for i in range(0, len(bits), 8))

    # ------------------------------------------------------------ queues
    def dnorm(self, v, st):
        _, pre, tail, suf = v
        while tail is not None:
            e = st.bools.get(("at", ("empty", tail)))
            if e is None: break
            if e: tail = None
            else:
                pre = pre + (self.mksym((tail[0], "head"), tail[1]),)
                tail = ((tail[0], "tl"), tail[1])
        if tail is None and suf:
            pre, suf = pre + suf, ()
        return ("D", pre, tail, suf)

    def dcontent(self, v, st):
        v = self.dnorm(v, st)
        segs = ()
        for x in v[1]: segs += self.as_q(x, st)[1]
        if v[2] is not None: segs += qatom(("cat", v[2]))[1]
        for x in v[3]: segs += self.as_q(x, st)[1]
        return self.qnorm(("Q", segs), st)

    # ------------------------------------------------------------ constants and operands
    def const(self, k):
        c = k["c"]
        if c == "int":
            t = self.types[k["ty"]]
            v = int(k["v"])
            if t["k"] == "bool": return ("B", bool(v))
            if t["k"] == "float": return ("X", "float", (t["s"], fop("bits" + t["s"], (C(v),))))
            if t["k"] == "int" and t["signed"] and v >> (t["w"] - 1): v -= 1 << t["w"]
            return ("I", C(v))
        if c == "str": return ("R", ("bytes", k["v"].encode()), ())
        if c == "bytes": return ("R", ("bytes", bytes(k["v"])), ())
        if c == "adt":
            t = self.types[k["ty"]]
            if t["k"] == "adt" and t["path"] == "bytes::bytes::Bytes": return ("S", ("const",), k["ty"])
            return ("A", k["ty"], k["variant"], tuple(self.const(f) for f in k["fields"]))
        if c in ("tuple", "list"): return ("A", k["ty"], 0, tuple(self.const(f) for f in k["fields"]))
        if c == "ref": return ("R", ("cval", self.const(k["v"])), ())
        if c == "fn": return ("F", Callee(k["callee"]))
        if c == "zst":
            return ("A", k["ty"], 0, ())
        if c == "static": return ("R", ("static", k["path"]), ())
        t = self.types[k["ty"]]
        if "src" in k: return self.mksym(("const", k["src"]), k["ty"])
        return self.mksym(("const", t["s"]), k["ty"])

    def operand(self, st, fid, o):
        if o["o"] == "const": return self.const(o["k"])
        if o["o"] == "rtcheck":
            if o["which"].startswith("Overflow"): return ("B", bool(self.d.d["overflow_checks"]))
            return ("B", False)
        c, p = self.loc(st, fid, o["p"])
        return self.read(st, c, p)

    def as_int(self, v, st, ty=None):
        if v[0] == "I": return v[1]
        if v[0] == "B": 
            b = v[1]
            if b is True: return C(1)
            if b is False: return C(0)
            return from_bits((("?", b),), st)
        if v[0] == "S" and self.is_enum(v[2]): return self.discr(v, st)
        if v[0] == "A" and len(v[3]) == 1: return self.as_int(v[3][0], st)
        if v[0] == "R": return ("op", "addr", (repr(v[1:]),), 1, (1 << 64) - 1)
        raise Undecided("integer of %s" % v[0])

    def discr(self, v, st):
        v = self.resolve_enum(v, st)
        if v[0] == "A":
            t = self.types[v[1]]
            if t["k"] == "adt" and t["kind"] == "enum":
                return C(int(t["variants"][v[2]]["discr"]))
            return C(0)
        if v[0] == "S":
            t = self.types[v[2]]
            if t["k"] == "adt" and t["kind"] == "enum" and "variants" in t:
                tab = []
                for i, x in enumerate(t["variants"]):
                    dv = int(x["discr"])
                    tab.append((i, dv))
                vals = [b for _, b in tab]
                return ("op", "discr", (v[1], tuple(tab)), min(vals), max(vals))
        raise Undecided("discriminant of %s" % (v[0],))

    # ------------------------------------------------------------ forks
    def fork(self, st, cond):
        """[(truth, state)] for the feasible truth values of cond."""
        v = st.decide(cond)
        if v is not None: return [(v, st)]
        out = []
        for b in (True, False):
            s = st.copy()
            s.forks += 1
            if s.assume(cond if b else NOT(cond)) is not False:
                out.append((b, s))
        if len(out) == 1:
            out[0][1].forks -= 1
        return out

    def fork_variant(self, st, v):
        """[(variant, state, aggregate)] for an enum value."""
        v = self.resolve_enum(v, st)
        if v[0] == "A": return [(v[2], st, v)]
        if v[0] != "S": raise Undecided("variant of %s" % v[0])
        n = len(self.types[v[2]]["variants"])
        p = st.vars.get(v[1])
        out = []
        for i in range(n):
            if p is not None and i not in p: continue
            s = st.copy()
            s.forks += 1
            s.vars[v[1]] = frozenset([i])
            out.append((i, s, self.expand(v, i)))
        return out

    # ------------------------------------------------------------ rvalues
    def tyof_place(self, body, place):
        t = body["locals"][place[0]]
        for e in place[1]:
            ty = self.types[t]
            if e == "*":
                t = ty["to"] if "to" in ty else ty["args"][0]
            elif e == "cast": pass
            elif e[0] == "f": t = e[2]
            elif e[0] in ("i", "c"): t = ty["elem"]
        return t

    def tyof_op(self, body, o):
        if o["o"] == "const": return o["k"]["ty"]
        if o["o"] == "rtcheck": return self.tid("bool")
        return self.tyof_place(body, o["p"])

    def rvalue(self, st, fid, body, r):
        k = r["r"]
        if k == "use": return self.operand(st, fid, r["x"])
        if k == "ref":
            p = r["p"]
            if p[1] and p[1][-1] == "*":
                c, pa = self.loc(st, fid, [p[0], p[1][:-1]])
                v = self.read(st, c, pa)
                if v[0] == "F" or v[0] == "X": return v
            c, pa = self.loc(st, fid, p)
            return ("R", c, pa)
        if k == "agg":
            xs = tuple(self.operand(st, fid, x) for x in r["xs"])
            if r["kind"] == "coroutine": return ("X", "coroutine", (r["ty"], xs))
            if r["kind"] == "rawptr": return xs[0]
            return ("A", r["ty"], r["variant"], xs)
        if k == "discr":
            c, p = self.loc(st, fid, r["p"])
            v = self.read(st, c, p)
            if v[0] == "U": return U    # what optimised library code leaves of a discriminant it no longer needs
            return ("I", st.nz(self.discr(v, st)))
        if k == "cast": return self.cast(st, fid, body, r)
        if k == "bin":
            l, rr = self.operand(st, fid, r["l"]), self.operand(st, fid, r["rr"])
            if l[0] == "U" or rr[0] == "U": return U
            return self.binop(st, r["op"], l, rr, r["ty"])
        if k == "un":
            v = self.operand(st, fid, r["x"])
            t = self.types[r["ty"]]
            if r["op"] == "Not":
                if v[0] == "B": return ("B", NOT(v[1]))
                x = st.nz(self.as_int(v, st))
                bs = [bnot(b) for b in bits_of(x, t["w"])]
                y = from_bits(bs, st)
                return ("I", wrap(y, t["w"], t["signed"], st))
            if r["op"] == "Neg":
                return ("I", wrap(neg(st.nz(self.as_int(v, st))), t["w"], t["signed"], st))
            if r["op"] == "PtrMetadata":
                if v[0] == "R":
                    return ("I", st.nz(self.seqlen(self.rd(st, v), st)))
                raise Undecided("pointer metadata")
            raise Undecided("unary " + r["op"])
        if k == "repeat":
            v = self.operand(st, fid, r["x"])
            if r["n"] is not None and r["n"] <= 64:
                # element type is known from the destination when needed
                return ("A", None, 0, (v,) * r["n"])
            raise Undecided("long array")
        raise Undecided("rvalue " + k)

    def cast(self, st, fid, body, r):
        v = self.operand(st, fid, r["x"])
        kind = r["kind"]
        to, fr = self.types[r["to"]], self.types[r["from"]]
        if kind == "IntToInt":
            x = st.nz(self.as_int(v, st))
            if to["k"] in ("int", "char"):
                w, s = (to["w"], to["signed"]) if to["k"] == "int" else (32, False)
                return ("I", wrap(x, w, s, st))
            raise Undecided("cast")
        if kind == "IntToFloat": return ("X", "float", (to["s"], fop("i2" + to["s"], (st.nz(self.as_int(v, st)),))))
        if kind == "FloatToFloat" and v[0] == "X" and v[1] == "float": return ("X", "float", (to["s"], fop("f2" + to["s"], (v[2][1],))))
        if kind == "FloatToInt" and v[0] == "X" and v[1] == "float" and to["k"] == "int" and not to["signed"]:
            return ("I", op("f2i", (v[2][1],), 0, (1 << to["w"]) - 1))
        if kind.startswith("coerce:"):
            if "Reify" in kind:
                return ("F", Callee(r["callee"])) if "callee" in r else v
            return v
        if kind in ("PtrToPtr", "FnPtrToPtr") or kind.startswith("BoxDeref"): return v
        if kind == "Transmute":
            if v[0] in ("R", "F", "X"): return v
            if v[0] == "I" and to["k"] == "int":
                return ("I", wrap(st.nz(v[1]), to["w"], to["signed"], st))
            if r["to"] == r["from"]: return v
            if to["k"] in ("ptr", "ref") and v[0] == "A" and len(v[3]) == 1: return v[3][0]
            if v[0] == "A" and to["k"] == "adt" and to["kind"] == "struct" and "variants" in to and len(to["variants"][0]["fields"]) == 1:
                return ("A", r["to"], 0, (v,))
            # fixed byte arrays and integers
            if to["k"] == "int" and v[0] == "A":
                w = v
                while w[0] == "A" and w[1] is not None and self.types[w[1]]["k"] == "adt" and len(w[3]) == 1: w = w[3][0]
                if w[0] == "I" and fr["s"].endswith("NonZero<%s>" % to["s"]): return w
                if w[0] == "I": return ("I", wrap(st.nz(w[1]), to["w"], to["signed"], st))
                return ("I", wrap(self.qint(self.as_q(v, st), st, little=True), to["w"], to["signed"], st))
            if to["k"] == "array" and v[0] == "I" and self.types[to["elem"]].get("w") == 8:
                q = ("Q", (self.int_q(st.nz(v[1]), fr["w"] // 8, st, little=True),))
                b = self.qbits(q, st)
                return ("A", r["to"], 0, tuple(("I", from_bits(tuple(reversed(b[i:i + 8])), st)) for i in range(0, len(b), 8)))
            if v[0] == "Q": return v
            raise Undecided("transmute %s to %s" % (fr["s"], to["s"]))
        if kind in ("PointerExposeProvenance", "PointerWithExposedProvenance"):
            return ("I", self.as_int(v, st))
        raise Undecided("cast " + kind)

    def binop(self, st, o, l, r, tyi):
        t = self.types[tyi]
        if l[0] == "B" and r[0] == "B":
            a, b = l[1], r[1]
            if o == "BitAnd": return ("B", AND([a, b]))
            if o == "BitOr": return ("B", OR([a, b]))
            x = OR([AND([a, NOT(b)]), AND([NOT(a), b])])
            if o in ("BitXor", "Ne"): return ("B", x)
            if o == "Eq": return ("B", NOT(x))
            if o == "Lt": return ("B", AND([NOT(a), b]))
            if o == "Gt": return ("B", AND([a, NOT(b)]))
            if o == "Le": return ("B", OR([NOT(a), b]))
            if o == "Ge": return ("B", OR([a, NOT(b)]))
        if l[0] == r[0] == "X" and l[1] == r[1] == "float" and o in ("Add", "Sub", "Mul", "Div"):
            return ("X", "float", (l[2][0], fop(o + l[2][0], (l[2][1], r[2][1]))))
        if l[0] == "X" or r[0] == "X": raise Undecided("comparison of library objects")
        if l[0] in ("R", "F") and r[0] in ("R", "F") and o in ("Eq", "Ne"):
            same = l[:3] == r[:3]
            if same: return ("B", o == "Eq")
            if l[0] == r[0] == "R" and l[1] != r[1] and l[1] in self.places and r[1] in self.places: return ("B", o == "Ne")
            return ("B", ("at", ("ptreq", o, repr(l), repr(r))))
        a, b = st.nz(self.as_int(l, st)), st.nz(self.as_int(r, st))
        if o == "Eq": return ("B", st.nzb(EQ(a, b, st)))
        if o == "Ne": return ("B", st.nzb(NOT(EQ(a, b, st))))
        if o == "Lt": return ("B", st.nzb(LT(a, b)))
        if o == "Le": return ("B", st.nzb(LE(a, b)))
        if o == "Gt": return ("B", st.nzb(LT(b, a)))
        if o == "Ge": return ("B", st.nzb(LE(b, a)))
        w, s = (t["w"], t["signed"]) if t["k"] == "int" else (64, False)
        if o == "Cmp":
            return ("X", "cmp", (a, b))
        return self.arith(st, o, a, b, w, s)

    def bool_ty(self):
        return self.tid("bool")

    def arith(self, st, o, a, b, w, s):
        base = o.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            if base == "Add": e = iadd(a, b, st)
            elif base == "Sub": e = sub(a, b)
            else:
                if is_c(a): e = scale(b, a[1])
                elif is_c(b): e = scale(a, b[1])
                else:
                    (la, ha), (lb, hb) = rng(a, st), rng(b, st)
                    ps = [la * lb, la * hb, ha * lb, ha * hb]
                    e = op("mul", sorted((a, b), key=repr), min(ps), max(ps))
            e = st.nz(e)
            if "Unchecked" in o: return ("I", e)
            lo, hi = limits(w, s)
            over = OR([st.nzb(LT(e, C(lo))), st.nzb(LT(C(hi), e))])
            if over is False: res = e
            else:
                d = st.decide(over) if over is not True else True
                res = e if d is False else wrap(e, w, s, st)
            if "WithOverflow" in o:
                # the exact value is used on the branch where no overflow happened
                return ("A", None, 0, (("I", res if res == e else ("op", "nowrap", (e, res), lo, hi)), ("B", over)))
            return ("I", res)
        if base in ("BitAnd", "BitOr", "BitXor"):
            x, y = bits_of(a, w), bits_of(b, w)
            f = {"BitAnd": band, "BitOr": bor, "BitXor": bxor}[base]
            bs = [f(simp_bit(p, st), simp_bit(q, st)) for p, q in zip(x, y)]
            return ("I", wrap(from_bits(bs, st), w, s, st))
        if base in ("Shl", "Shr"):
            if not is_c(b): return ("I", op(base.lower(), (a, b), *limits(w, s)))
            n = b[1] % w
            if base == "Shl":
                bs = (0,) * n + bits_of(a, w)[: w - n]
                return ("I", wrap(from_bits(bs, st), w, s, st))
            if rng(a, st)[0] >= 0:
                return ("I", from_bits(bits_of(a, w)[n:], st))
            if is_c(a): return ("I", C(a[1] >> n))
            return ("I", op("sar", (a, b), *limits(w, s)))
        if base in ("Div", "Rem"):
            return ("I", self.divrem(st, base, a, b, w, s))
        raise Undecided("operator " + o)

    def divrem(self, st, base, a, b, w=64, s=False):
        if is_c(a) and is_c(b) and b[1]:
            if a[1] >= 0 and b[1] > 0:
                return C(a[1] // b[1] if base == "Div" else a[1] % b[1])
        nn = lambda t: rng(t, st)[0] >= 0 or st.ge0(t) is True
        if not nn(a) or not nn(b): return op(base.lower() + "s", (a, b), *limits(w, s))
        if b == C(1): return a if base == "Div" else C(0)
        if is_c(b) and b[1] > 0 and b[1] & (b[1] - 1) == 0:
            k = b[1].bit_length() - 1
            bs = bits_of(a, 64)
            return from_bits(bs[k:], st) if base == "Div" else from_bits(bs[:k], st)
        # the multiples of the divisor in the dividend go straight to the quotient
        q = C(0)
        for t, k in to_lin(a)[1].items():
            if t == b: x = C(k)
            elif t[0] == "op" and t[1] == "mul" and b in t[2]: x = scale(t[2][1] if t[2][0] == b else t[2][0], k)
            else: continue
            q = add(q, x)
            a = sub(a, scale(t, k))
        for k in (0, -1, 1):
            x = sub(a, scale(b, k))
            if st.ge0(x) is True and st.ge0(sub(sub(b, x), C(1))) is True:
                return add(q, C(k)) if base == "Div" else x
        hi = max(rng(a, st)[1], 0)
        if base == "Div":
            lo = 0 if rng(a, st)[0] >= 0 else -(1 << 64)
            return add(op("div", (a, b), lo, hi), q)
        return op("rem", (a, b), 0, hi if rng(a, st)[0] >= 0 else rng(b, st)[1])

    # ------------------------------------------------------------ control flow graph
    def cfg(self, body):
        key = id(body)
        if key in self._cfg: return self._cfg[key]
        n = len(body["blocks"])
        succ = []
        for b in body["blocks"]:
            t = b["t"]
            k = t["t"]
            if b["cleanup"]: succ.append([])
            elif k in ("goto", "drop", "assert", "yield"): succ.append([t["to"]])
            elif k == "switch": succ.append([x[1] for x in t["ts"]] + [t["else"]])
            elif k == "call": succ.append([t["to"]] if t["to"] is not None else [])
            else: succ.append([])
        # reachable blocks, reverse postorder
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        rpo = list(reversed(order))
        pos = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for y in succ[b]: preds[y].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while pos[x] > pos[y]: x = idom[x]
                        while pos[y] > pos[x]: y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True

        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for h in succ[b]:
                if dom(h, b):
                    s = loops.setdefault(h, {h})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in s: continue
                        s.add(x)
                        w += preds[x]
        # irreducible cycles
        irreducible = any(pos[y] <= pos[b] and not dom(y, b) for b in rpo for y in succ[b])
        # liveness
        uses, defs, taken = [set() for _ in range(n)], [set() for _ in range(n)], set()

        def use_place(p, u, d):
            if p[0] not in d: u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i" and e[1] not in d: u.add(e[1])

        def use_op(o, u, d):
            if o["o"] in ("copy", "move"): use_place(o["p"], u, d)
        for b in rpo:
            u, d = uses[b], defs[b]
            for s in body["blocks"][b]["ss"]:
                if s["s"] == "=":
                    r = s["r"]
                    for key2 in ("x", "l", "rr"):
                        if key2 in r and isinstance(r[key2], dict): use_op(r[key2], u, d)
                    for x in r.get("xs", ()): use_op(x, u, d)
                    if "p" in r:
                        use_place(r["p"], u, d)
                        if r["r"] == "ref" and not (r["p"][1] and "*" in r["p"][1]): taken.add(r["p"][0])
                    if s["p"][1]: use_place(s["p"], u, d)
                    else: d.add(s["p"][0])
                elif s["s"] == "setdiscr": use_place(s["p"], u, d)
            t = body["blocks"][b]["t"]
            if t["t"] == "call":
                use_op(t["f"], u, d)
                for x in t["args"]: use_op(x, u, d)
                if t["dest"][1]: use_place(t["dest"], u, d)
                else: d.add(t["dest"][0])
            elif "x" in t and isinstance(t["x"], dict): use_op(t["x"], u, d)
            elif t["t"] == "return": u.add(0)
        livein = {b: set() for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                o = set()
                for y in succ[b]: o |= livein[y]
                i = uses[b] | (o - defs[b])
                if i != livein[b]:
                    livein[b] = i
                    ch = True
        r = {"succ": succ, "rpo": rpo, "pos": pos, "loops": loops, "livein": livein, "taken": taken, "irreducible": irreducible}
        self._cfg[key] = r
        return r

    # ------------------------------------------------------------ execution
    def call_inst(self, inst, args, st, at=""):
        body = self.bodies[inst]
        path = body["path"]
        depth = sum(1 for f in self.stack if f[0] == inst)
        if depth >= 3:
            self.recursion.append([self.bodies[f[0]]["path"] for f in self.stack] + [path])
            return [Out("diverge", st, None, "unbounded recursion through %s" % path, at)]
        if len(self.stack) > 70: raise Undecided("call depth at " + path)
        if len(args) != body["argc"]:
            # rust-call ABI: the last argument is a tuple to spread
            if args and args[-1][0] == "A" and len(args) - 1 + len(args[-1][3]) == body["argc"]:
                args = list(args[:-1]) + list(args[-1][3])
            elif body.get("spread") is not None and len(args) >= body["argc"] - 1:
                n = body["argc"] - 1
                args = list(args[:n]) + [("A", body["locals"][body["argc"]], 0, tuple(args[n:]))]
            else:
                raise Undecided("argument count of " + path)
        self.fid += 1
        fid = self.fid
        self.analysed.add(path)
        for i, a in enumerate(args): st.mem[(fid, i + 1)] = a
        self.stack.append((inst, fid))
        try:
            outs = self.run(fid, body, st)
        finally:
            self.stack.pop()
        for o in outs:
            for k in [k for k in o.st.mem if k[0] == fid]: del o.st.mem[k]
        return self.dedupe(outs)

    def dedupe(self, outs):
        if len(outs) < 2: return outs
        seen = {}
        res = []
        for o in outs:
            if o.kind != "return":
                res.append(o)
                continue
            k = (o.val, tuple(sorted(((repr(a), b) for a, b in o.st.mem.items()), key=lambda x: x[0])), o.st.facts_key(), o.st.events)
            if k in seen: continue
            seen[k] = 1
            res.append(o)
        if len(res) > self.MAXSTATES: raise Undecided("too many partitions")
        return res

    def run(self, fid, body, st):
        c = self.cfg(body)
        if c["irreducible"]: raise Undecided("irreducible control flow")
        outs = []
        ex, backs = self.region(fid, body, 0, st, None, None, outs)
        assert not ex and not backs
        return outs

    def region(self, fid, body, start, st, blocks, header, outs):
        """Runs from start within blocks; returns (exits, back-edge states)."""
        c = self.cfg(body)
        exits, backs = [], []
        work = [(start, st)]
        first = True
        while work:
            # earliest block first, so that joins see all their states
            work.sort(key=lambda x: -c["pos"][x[0]])
            bb, s = work.pop()
            if not first or header is None:
                if header is not None and bb == header:
                    backs.append(s)
                    continue
                if blocks is not None and bb not in blocks:
                    exits.append((bb, s))
                    continue
                if bb in c["loops"] and bb != header:
                    for y, s2 in self.loop(fid, body, bb, s, outs): work.append((y, s2))
                    continue
            first = False
            self.budget -= 1
            if self.budget < 0: raise Undecided("analysis budget exhausted")
            if time.process_time() > DEADLINE: raise Undecided("time limit of the analysis reached")
            for y, s2 in self.block(fid, body, bb, s, outs):
                work.append((y, s2))
            if len(work) > self.MAXSTATES: raise Undecided("too many partitions")
        return exits, backs

    def loop(self, fid, body, h, st, outs):
        blocks = self.cfg(body)["loops"][h]
        if self.jump is not None:
            mark, nloops = len(outs), len(self.loops)
            r = self.loop_jump(fid, body, h, st, blocks, outs)
            if r is not None: return r
            del outs[mark:]
            del self.loops[nloops:]
        if self.repeat_first and self.keep_events is not None:
            mark, nloops = len(outs), len(self.loops)
            r = self.loop_repeat(fid, body, h, st, blocks, outs)
            if r is not None: return r
            del outs[mark:]
            del self.loops[nloops:]
        try:
            return self.loop_unroll(fid, body, h, st, blocks, outs)
        except NeedSummary:
            if self.keep_events is not None:
                mark, nloops = len(outs), len(self.loops)
                r = self.loop_repeat(fid, body, h, st, blocks, outs)
                if r is not None: return r
                del outs[mark:]
                del self.loops[nloops:]
            mark, nloops = len(outs), len(self.loops)
            try:
                return self.loop_summary(fid, body, h, st, blocks, outs)
            except Undecided:
                # a loop a constant bounds, walked by hand (a table read at a counter): every round is followed
                if not any(c[0] == fid and v[0] == "I" and is_c(v[1]) for c, v in st.mem.items()): raise
                if time.process_time() > DEADLINE or self.budget < 0: raise
                del outs[mark:]
                del self.loops[nloops:]
                try: return self.loop_unroll(fid, body, h, st, blocks, outs, True)
                except NeedSummary: pass
                raise

    def loop_repeat(self, fid, body, h, st0, blocks, outs):
        """Explores iterations until every state at the loop's head is one seen before, up to the names of fresh values.
        What is dead there and the events the check does not ask for (keep_events) are forgotten first."""
        live = self.cfg(body)["livein"][h] | self.cfg(body)["taken"]
        fname = self.bodies[self.stack[-1][0]]["path"] if self.stack else "?"
        seen, exits, backs, work = set(), [], [], [(st0, ())]
        most = 80 if any(self.holds_list(st0, v) for c, v in st0.mem.items() if c[0] == fid) else 16
        counters = {}
        while work:
            s, anc = work.pop(0)
            s = s.copy()
            for k in list(s.mem):
                if k[0] == fid and k[1] not in live: del s.mem[k]
            s.events = tuple(self.keep_events(s))
            sweep(s, st0.mem)
            for k in s.mem:
                # a number that moves by the same constant each time takes every value in that direction
                if k[0] != fid or k in counters or len(anc) < 2: continue
                v = [x.get(k) for x in anc[-2:]] + [s.mem[k]]
                if any(x is None or x[0] != "I" or not is_c(x[1]) for x in v): continue
                d = v[1][1][1] - v[0][1][1]
                if d and v[2][1][1] - v[1][1][1] == d:
                    t = self.types[body["locals"][k[1]]]
                    if t["k"] != "int": continue
                    lo, hi = limits(t["w"], t["signed"])
                    c0 = anc[0].get(k, v[0])[1][1] if is_c(anc[0].get(k, v[0])[1]) else v[0][1][1]
                    counters[k] = ("a", ("count", fname, h, k[1]), *((c0, min(hi, c0 + (1 << 31))) if d > 0 else (max(lo, c0 - (1 << 31)), c0)))
            for k, t in counters.items():
                if k in s.mem:
                    s.mem[k] = ("I", t)
                    for d in (s.iv, s.pins): d.pop(t, None)
                    s.ges = tuple(x for x in s.ges if not mentions(x, t))
                    s.nes = frozenset(x for x in s.nes if not mentions(x, t))
                    s.clauses = tuple(x for x in s.clauses if not mentions(x, t))
                    for d in (s.iv, s.pins, s.bits, s.bools):
                        for x in [x for x in d if mentions(x, t)]: del d[x]
            key = canon(s)
            if key in seen: continue
            if len(seen) >= most: return None
            seen.add(key)
            ex, bk = self.region(fid, body, h, s, blocks, h, outs)
            exits += ex
            backs += bk
            work += [(x, anc + (s.mem,)) for x in bk]
        self.loops.append({"fn": fname, "header": h, "entry": st0, "head": st0, "backs": backs, "mod": {}, "exits": exits})
        return exits

    def loop_jump(self, fid, body, h, st0, blocks, outs):
        """Induction over the iterations: once an iteration only moves numbers by constants and takes constant amounts off byte
        strings, the state after j more of them is written down for an unknown j, one iteration is run from it, and those of its
        ends that are that state for j + 1 are not followed. jump(before, after, j) marks the skip (or refuses it)."""
        live = self.cfg(body)["livein"][h] | self.cfg(body)["taken"]
        exits, work, n = [], [(st0.copy(), None, 0, None)], 0
        while work:
            s, prev, jumps, moved = work.pop()
            n += 1
            if n > 400: return None
            for k in list(s.mem):
                if k[0] == fid and k[1] not in live: del s.mem[k]
            if moved is not None:
                if self.shifted(prev, s, moved): continue
                prev = moved = None
            if prev is not None and jumps < 3:
                moved = self.shifts(prev, s)
                if moved:
                    open_ = [q for _, _, q, d in moved if q[0] == "Q" and not isinstance(d, tuple) and s.decide(GE(sub(self.qlen(q, s), C(1)))) is None]
                    if open_:
                        # is there anything left? asked first, so that the skipped iterations end where they can
                        for x in (EQ0(self.qlen(open_[0], s)), GE(sub(self.qlen(open_[0], s), C(1)))):
                            t = s.copy()
                            if t.assume(x) is not False: work.append((t, prev, jumps, None))
                        continue
                    j = ("a", ("in", "iterations skipped %d" % (len(s.events) + n)), 0, LENMAX)
                    t = self.jump(prev, s.copy(), j)
                    if t is not None:
                        least = {}
                        for cell, path, old, d in moved:
                            if old[0] == "I": self.write(t, cell, path, ("I", t.nz(add(old[1], scale(j, d)))))
                            elif isinstance(d, tuple): self.write(t, cell, path, slide(old, scale(j, d[1]), t))
                            else:
                                some = 1 if s.decide(GE(sub(self.qlen(old, s), C(1)))) is True else 0
                                if t.assume(LE(add(scale(j, d), C(some)), self.qlen(old, t))) is False: return None
                                least[cell, path] = some
                                self.write(t, cell, path, self.qslice(old, scale(j, d), self.qlen(old, t), t))
                        s, jumps = t, jumps + 1
                        moved = [(c, p, self.read(s, c, p), d, least.get((c, p))) for c, p, o, d in moved]
                    else: moved = None
                else: moved = None
            ex, bk = self.region(fid, body, h, s.copy(), blocks, h, outs)
            exits += ex
            for b in bk: work.append((b, s, jumps, moved))
        return exits

    def shifts(self, a, b):
        """[(cell, path, value in b, constant step)] if b differs from a only in numbers and byte strings moved by constants."""
        res = []
        for cell in b.mem:
            if cell not in a.mem: continue
            for path in self.diff(a.mem[cell], b.mem[cell], ()):
                try: x, y = self.read(a, cell, path), self.read(b, cell, path)
                except Undecided: return None
                if x[0] == "I" and y[0] == "I":
                    d = b.nz(sub(y[1], x[1]))
                    if not is_c(d) or not d[1]: return None
                    res.append((cell, path, y, d[1]))
                elif x[0] == "Q" and y[0] == "Q":
                    d = b.nz(sub(self.qlen(x, b), self.qlen(y, b)))
                    if is_c(d) and d[1] == 0 and len(x[1]) == len(y[1]) == 1 and x[1][0][0] == y[1][0][0] == "sub":
                        # a window that moves along its source
                        k = b.nz(sub(y[1][0][2], x[1][0][2]))
                        if not is_c(k) or k[1] < 1 or x[1][0][1] != y[1][0][1]: return None
                        res.append((cell, path, y, ("window", k[1])))
                        continue
                    if not is_c(d) or d[1] < 1: return None
                    try: want = self.qslice(x, d, self.qlen(x, b), b)
                    except Undecided: return None
                    if self.norm(want, b) != self.norm(y, b): return None
                    res.append((cell, path, y, d[1]))
                else: return None
        return res

    def shifted(self, a, b, moved):
        """Is b what a becomes by one more step of moved?"""
        hit = set()
        for cell in b.mem:
            if cell not in a.mem: continue
            for path in self.diff(a.mem[cell], b.mem[cell], ()):
                m = [x for x in moved if x[0] == cell and x[1] == path]
                if not m: return False
                y = self.read(b, cell, path)
                old, d = m[0][2], m[0][3]
                if y[0] != old[0]: return False
                if y[0] == "I":
                    if b.decide(EQ(y[1], add(old[1], C(d)), b)) is not True: return False
                elif isinstance(d, tuple):
                    if self.norm(slide(old, C(d[1]), b), b) != self.norm(y, b): return False
                else:
                    try: want = self.qslice(old, C(d), self.qlen(old, b), b)
                    except Undecided: return False
                    if self.norm(want, b) != self.norm(y, b): return False
                    if b.decide(GE(sub(self.qlen(y, b), C(m[0][4])))) is not True: return False
                hit.add((cell, path))
        return len(hit) == len(moved)

    def holds_list(self, st, v, depth=0):
        """Does a value hold an iterator over a list of known length?"""
        if v[0] == "X": return v[1] == "sliter" or v[1] == "dqiter" and v[2][0][2] is None
        if v[0] == "D": return v[2] is None
        if depth > 4: return False
        if v[0] == "A" and len(v[3]) >= 2 and all(x[0] == "I" and is_c(x[1]) for x in v[3][:2]) and self.types[v[1]].get("path", "").startswith("core::ops::range::Range"):
            return v[3][1][1][1] - v[3][0][1][1] <= 64
        if v[0] == "A": return any(self.holds_list(st, x, depth + 1) for x in v[3])
        if v[0] == "R" and v[1] in st.mem: return self.holds_list(st, st.mem[v[1]], depth + 1)
        return False

    def loop_unroll(self, fid, body, h, st0, blocks, outs, by_hand=False):
        mark = len(outs)
        nloops = len(self.loops)
        exits = []
        states = [st0.copy()]
        bounded = by_hand or self.finite or any(self.holds_list(st0, v) for c, v in st0.mem.items() if c[0] == fid)
        for _ in range(300 if bounded else self.UNROLL):
            new = []
            for s in states:
                f0 = s.forks
                ex, backs = self.region(fid, body, h, s, blocks, h, outs)
                if backs and ex and not bounded and any(b.forks > f0 for b in backs):
                    del outs[mark:]
                    del self.loops[nloops:]
                    raise NeedSummary()
                exits += ex
                new += backs
            states = new
            if not states: return exits
            if len(states) > 64: break
        del outs[mark:]
        del self.loops[nloops:]
        raise NeedSummary()

    def diff(self, a, b, path):
        """Paths at which two values differ."""
        if a == b: return []
        if a[0] == "A" and b[0] == "A" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and a[1] is not None:
            out = []
            for i, (x, y) in enumerate(zip(a[3], b[3])): out += self.diff(x, y, path + (("f", i),))
            return out
        if a[0] == "S" and b[0] == "A" and a[2] == b[1] and not self.is_enum(a[2]) and self.fields_of(a[2]) is not None:
            return self.diff(self.expand(a), b, path)
        return [path]

    def loop_summary(self, fid, body, h, st0, blocks, outs):
        c = self.cfg(body)
        live = c["livein"][h] | c["taken"]
        base = st0.copy()
        # dead locals carry nothing into the loop
        for k in list(base.mem):
            if k[0] == fid and k[1] not in live: del base.mem[k]
        mod = {}     # (cell, path) -> type or None
        dropped = set()
        mark, nloops = len(outs), len(self.loops)
        fname = self.bodies[self.stack[-1][0]]["path"] if self.stack else "?"
        for rnd in range(12):
            del outs[mark:]
            del self.loops[nloops:]
            s = base.copy()
            entry = {}
            for (cell, path), ty in mod.items():
                try: old = self.read(base, cell, path)
                except Undecided: old = U
                name = ("loop", fname, h, self.cellname(cell, fid), path)
                new = self.havoc(old, ty, name)
                entry[(cell, path)] = (old, new)
                self.write(s, cell, path, new)
            # candidate invariants, kept while every back edge preserves them
            cands = []
            ints = [(k, o[1], n[1]) for k, (o, n) in entry.items() if o[0] == "I" and n[0] == "I"]
            for k, o, n in ints:
                cands.append((("ge", k), lambda v, k=k, o=o: GE(sub(v[k], o))))
                cands.append((("le", k), lambda v, k=k, o=o: GE(sub(o, v[k]))))
                if is_c(o) and o[1] < 0 or rng(o, base)[0] < 0:
                    pass
                cands.append((("par", k), lambda v, k=k, o=o: NOT(BIT(bxor(bit_of(v[k], 0), bit_of(o, 0))))))
            for i in range(len(ints)):
                for j in range(i):
                    (k1, o1, _), (k2, o2, _) = ints[i], ints[j]
                    cands.append((("d", k1, k2), lambda v, k1=k1, k2=k2, o1=o1, o2=o2: EQ0(sub(sub(v[k1], v[k2]), sub(o1, o2)))))
                    cands.append((("s", k1, k2), lambda v, k1=k1, k2=k2, o1=o1, o2=o2: EQ0(sub(add(v[k1], v[k2]), add(o1, o2)))))
            for k, (o, n) in entry.items():
                if n[0] == "Q":
                    cands.append((("q<=", k), lambda v, k=k, o=o: GE(sub(self.qlen(self.as_q(o, base), base), v[k]))))
            cands = [x for x in cands if x[0] not in dropped]
            vals = {k: (n[1] if n[0] == "I" else self.qlen(n)) for k, (o, n) in entry.items() if n[0] in ("I", "Q")}
            ok = True
            for key, f in cands:
                if s.assume(f(vals)) is False: ok = False
            if not ok: raise Undecided("loop invariant")
            head = s.copy()
            s.events += (("loop", fname, h),)
            exits, backs = self.region(fid, body, h, s, blocks, h, outs)
            again = False
            for b in backs:
                for cell in list(head.mem):
                    if cell[0] == fid and cell[1] not in live: continue
                    if cell not in b.mem: continue
                    for path in self.diff(head.mem[cell], b.mem[cell], ()):
                        if any(mc == cell and path[: len(mp)] == mp for mc, mp in mod): continue
                        for k in [k for k in mod if k[0] == cell and k[1][: len(path)] == path]: del mod[k]
                        mod[(cell, path)] = self.tyof_cell(body, fid, cell, path, head)
                        again = True
                # cells created lazily but present in the base
                bv = {}
                for k in vals:
                    try: v = self.read(b, k[0], k[1])
                    except Undecided: continue
                    if v[0] == "I": bv[k] = v[1]
                    elif v[0] in ("Q",): bv[k] = self.qlen(v, b)
                for key, f in cands:
                    ks = [x for x in key[1:]]
                    if any(k not in bv for k in ks) or b.decide(f(bv)) is not True:
                        if key not in dropped:
                            dropped.add(key)
                            again = True
            if not again:
                self.loops.append({"fn": fname, "header": h, "entry": st0, "head": head, "backs": backs,
                                   "mod": {k: entry[k] for k in entry}, "exits": exits})
                return exits
        raise Undecided("loop does not stabilise in " + fname)

    def cellname(self, cell, fid):
        if cell[0] == fid: return ("local", cell[1])
        if isinstance(cell[0], int): return ("outer", self.stack_index(cell[0]), cell[1])
        return cell

    def stack_index(self, f):
        for i, x in enumerate(self.stack):
            if x[1] == f: return i
        return -1

    def tyof_cell(self, body, fid, cell, path, st):
        t = None
        if cell[0] == fid: t = body["locals"][cell[1]]
        elif isinstance(cell[0], int):
            for inst, f in self.stack:
                if f == cell[0]: t = self.bodies[inst]["locals"][cell[1]]
        elif cell[0] == "sym": t = cell[2]
        v = self.load_cell(st, cell)
        for e in path:
            if v[0] == "A" and e[0] == "f":
                if v[1] is not None:
                    fs = self.fields_of(v[1], v[2])
                    t = fs[e[1]] if fs else None
                else: t = None
                v = v[3][e[1]]
            else:
                return None
        return t

    def havoc(self, old, ty, name):
        if old[0] == "Q": return qatom(name)
        if old[0] == "D":
            ety = None
            if old[2] is not None: ety = old[2][1]
            elif ty is not None: ety = self.types[ty]["args"][0]
            if ety is None: raise Undecided("havoc of queue")
            return ("D", (), (name, ety), ())
        if old[0] == "X":
            h = self.models.havoc_x(self, old, name)
            if h is not None: return h
            raise Undecided("havoc of " + old[1])
        if ty is None:
            if old[0] == "I": raise Undecided("havoc of an integer of unknown type")
            if old[0] == "B": return ("B", ("at", name))
            raise Undecided("havoc of unknown type")
        return self.mksym(name, ty)

    # ------------------------------------------------------------ blocks
    def block(self, fid, body, bb, st, outs, start=0, splits=0):
        b = body["blocks"][bb]
        for i in range(start, len(b["ss"])):
            s = b["ss"][i]
            if s["s"] == "=":
                try:
                    v = self.rvalue(st, fid, body, s["r"])
                    cell, path = self.loc(st, fid, s["p"])
                    if not (v[0] == "X" and v[1] == "cmp"):
                        if v[0] == "A" and v[1] is None:
                            v = ("A", self.tyof_place(body, s["p"]), v[2], v[3])
                        self.write(st, cell, path, v)
                        continue
                except UnknownCut as x:
                    # which bytes the statement reads or writes depends on a condition
                    if splits > 16: raise
                    res = []
                    for _, st2 in self.fork(st, x.cond): res += self.block(fid, body, bb, st2, outs, i, splits + 1)
                    return res
                return self.split_cmp(st, fid, body, bb, b, s, v, outs)
            elif s["s"] == "setdiscr":
                cell, path = self.loc(st, fid, s["p"])
                v = self.read(st, cell, path)
                ty = self.tyof_place(body, s["p"])
                fs = self.fields_of(ty, s["v"]) or []
                self.write(st, cell, path, ("A", ty, s["v"], (v[3] if v[0] == "A" else ()) or (U,) * len(fs)))
            elif s["s"] == "assume":
                v = self.operand(st, fid, s["x"])
                if v[0] == "B" and st.assume(v[1]) is False: return []
            else:
                raise Undecided(s["s"])
        return self.terminator(fid, body, bb, st, b["t"], outs)

    def split_cmp(self, st, fid, body, bb, b, s, v, outs):
        """a.cmp(b): one partition per outcome, then re-run the block's rest."""
        a, c = v[2]
        ty = self.tyof_place(body, s["p"])
        names = [x["name"] for x in self.types[ty]["variants"]]
        rest = {"ss": b["ss"][b["ss"].index(s) + 1:], "t": b["t"], "cleanup": False}
        out = []
        conds = [("Less", LT(a, c)), ("Equal", EQ(a, c, st)), ("Greater", LT(c, a))]
        feas = []
        for n, cond in conds:
            if st.decide(cond) is False: continue
            x = st.copy()
            if x.assume(cond) is False: continue
            feas.append((n, x))
        for n, x in feas:
            if len(feas) > 1: x.forks += 1
            cell, path = self.loc(x, fid, s["p"])
            self.write(x, cell, path, ("A", ty, names.index(n), ()))
            fake = {"blocks": {bb: rest}, "locals": body["locals"], "path": body["path"]}
            out += self.block_rest(fid, body, bb, x, rest, outs)
        return out

    def block_rest(self, fid, body, bb, st, blk, outs):
        saved = body["blocks"][bb]
        body["blocks"][bb] = blk
        try:
            return self.block(fid, body, bb, st, outs)
        finally:
            body["blocks"][bb] = saved

    def terminator(self, fid, body, bb, st, t, outs):
        k = t["t"]
        if k in ("goto", "drop"):
            if k == "drop": self.do_drop(st, fid, t)
            return [(t["to"], st)]
        if k == "return":
            v = self.read(st, (fid, 0), ())
            outs.append(Out("return", st, v if v != U else ("A", body["locals"][0], 0, ())))
            return []
        if k in ("unreachable", "resume"):
            return []
        if k == "switch":
            return self.switch(fid, body, st, t)
        if k == "assert" and t["msg"] == "pointer check":
            return [(t["to"], st)]  # references and boxes of safe code are valid
        if k == "assert":
            v = self.operand(st, fid, t["x"])
            cond = v[1] if t["expected"] else NOT(v[1])
            res = []
            for truth, s in self.fork(st, cond):
                if truth: res.append((t["to"], self.settle(s)))
                else: outs.append(Out("panic", s, None, t["msg"], t["at"]))
            return res
        if k == "call":
            return self.do_call(fid, body, st, t, outs)
        raise Undecided("terminator " + k)

    def settle(self, s):
        return s

    def do_drop(self, st, fid, t):
        ty = self.types[t["ty"]]
        if ty["k"] == "adt" and ty.get("local"):
            for im in self.d.impls:
                if im.get("trait") == "core::ops::drop::Drop" and self.types[im["self"]].get("path") == ty["path"]:
                    raise Undecided("drop of " + ty["path"])

    def switch(self, fid, body, st, t):
        v = self.operand(st, fid, t["x"])
        res = []
        if v[0] == "B":
            for truth, s in self.fork(st, v[1]):
                tgt = t["else"]
                for val, y in t["ts"]:
                    if int(val) == int(truth): tgt = y
                res.append((tgt, s))
            return res
        x = st.nz(self.as_int(v, st))
        ty = self.types[t["ty"]]
        cur = st
        n = 0
        targets = {}
        # group targets so that equal successors share a partition when nothing is learnt
        for val, y in t["ts"]:
            val = int(val)
            if ty["k"] == "int" and ty["signed"] and val >> (ty["w"] - 1): val -= 1 << ty["w"]
            cond = EQ(x, C(val), cur)
            d = cur.decide(cond)
            if d is True:
                res.append((y, cur))
                cur = None
                break
            if d is False: continue
            s = cur.copy()
            if s.assume(cond) is not False:
                res.append((y, s))
            c2 = cur.copy()
            if c2.assume(NOT(cond)) is False:
                cur = None
                break
            cur = c2
        if cur is not None: res.append((t["else"], cur))
        live = [(y, s) for y, s in res if body["blocks"][y]["t"]["t"] != "unreachable" or body["blocks"][y]["ss"]]
        if len(live) > 1:
            for y, s in live: s.forks += 1
        return live

    # ------------------------------------------------------------ calls
    def do_call(self, fid, body, st, t, outs):
        f = self.operand(st, fid, t["f"])
        args = [self.operand(st, fid, a) for a in t["args"]]
        self.calls += 1
        site = {"fn": body["path"], "at": t["at"], "dty": t["dty"], "fid": fid,
                "aty": [self.tyof_op(body, a) for a in t["args"]]}
        rs = self.apply(f, args, st, site)
        res = []
        for o in rs:
            if o.kind == "return":
                if t["to"] is None: continue
                cell, path = self.loc(o.st, fid, t["dest"])
                v = o.val
                if v[0] == "A" and v[1] is None: v = ("A", t["dty"], v[2], v[3])
                self.write(o.st, cell, path, v)
                res.append((t["to"], o.st))
            else:
                if not o.at or (o.at.startswith("/") or "/rustc/" in o.at or "library/" in o.at): o.at = t["at"]
                outs.append(o)
        if len(res) > 1:
            for _, s in res: s.forks += 1
        return res

    def apply(self, f, args, st, site):
        if f[0] == "R": f = self.rd(st, f)
        if f[0] == "F":
            return self.apply_callee(f[1], args, st, site)
        if f[0] == "A" and f[1] is not None and self.types[f[1]]["k"] == "closure":
            return self.call_closure(f, args, st, site)
        if f[0] == "A" and f[1] is not None and self.types[f[1]]["k"] == "fndef":
            raise Undecided("function item")
        raise Undecided("call of %s" % f[0])

    def call_fnmut(self, fref, args, st, site):
        """Calls a function value in place, so that what it captures keeps its changes."""
        f = self.rd(st, fref)
        while f[0] == "R" and f[1][0] != "cval": fref, f = f, self.rd(st, f)
        if f[0] == "A" and f[1] is not None and self.types[f[1]]["k"] == "closure":
            for b in self.bodies:
                if b["path"] == self.types[f[1]]["path"] and b["locals"] and self.closure_self(b) == f[1]:
                    return self.call_inst(b["id"], [fref if self.types[b["locals"][1]]["k"] == "ref" else f] + list(args), st, site["at"])
        return self.apply(f, list(args), st, site)

    def call_closure(self, f, args, st, site):
        """Calls a closure value with already separate arguments."""
        path = self.types[f[1]]["path"]
        for b in self.bodies:
            if b["path"] == path and b["locals"] and self.closure_self(b) == f[1]:
                first = b["locals"][1]
                a0 = f
                if self.types[first]["k"] == "ref":
                    a0 = ("R", self.newcell(st, f), ())
                return self.call_inst(b["id"], [a0] + list(args), st, site["at"])
        for b in self.bodies:
            if b["path"] == path:
                first = b["locals"][1]
                a0 = f
                if self.types[first]["k"] == "ref":
                    a0 = ("R", self.newcell(st, f), ())
                return self.call_inst(b["id"], [a0] + list(args), st, site["at"])
        raise Undecided("closure body " + path)

    def closure_self(self, b):
        t = b["locals"][1] if len(b["locals"]) > 1 else None
        if t is None: return None
        if self.types[t]["k"] == "ref": return self.types[t]["to"]
        return t

    def apply_callee(self, ca, args, st, site):
        c = ca.j
        if c.get("kind") == "ctor":
            return [Out("return", st, ("A", site["dty"], c.get("variant", 0), tuple(args)))]
        for name in (c.get("rpath"), c["path"]):
            if name in self.overrides:
                r = self.overrides[name](self, st, c, args, site)
                if r is not None: return r
        r = self.models.call(self, st, c, args, site)
        if r is not None: return r
        if "inst" in c and self.bodies[c["inst"]] is not None:
            b = self.bodies[c["inst"]]
            if c.get("trait") in FN_TRAITS and len(args) == 2 and args[1][0] == "A" and b.get("spread") is None and (args[1][1] is None or self.types[args[1][1]]["k"] == "tuple"):
                if len(b["locals"]) > 1 and "{closure" in b["path"]: args = [args[0]] + list(args[1][3])
            return self.call_inst(c["inst"], args, st, site["at"])
        # calls through the Fn* traits on a value whose body is known
        if c.get("trait") in ("core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce"):
            f = args[0]
            if f[0] == "R" and f[1][0] != "cval":
                fv = self.rd(st, f)
                if fv[0] == "A" and fv[1] is not None and self.types[fv[1]]["k"] == "closure":
                    path = self.types[fv[1]]["path"]
                    for b in self.bodies:
                        if b["path"] == path and self.closure_self(b) == fv[1]:
                            a0 = f if self.types[b["locals"][1]]["k"] == "ref" else fv
                            return self.call_inst(b["id"], [a0] + list(args[1][3]), st, site["at"])
                f = fv
            return self.apply(f, list(args[1][3]), st, site)
        if c.get("kind") in ("unresolved", "virtual") and args:
            inst = self.local_impl(st, c, args[0])
            if inst is not None: return self.call_inst(inst, args, st, site["at"])
            m = self.vtable_of(st, c, args[0])
            if m is not None: return self.apply_callee(Callee(m), args, st, site)
        if c.get("kind") == "virtual" or c.get("kind") == "unresolved":
            return self.opaque_call(st, c, args, site)
        if self.ty(site["dty"])["k"] == "never":
            return [Out("panic", st, None, c.get("rpath") or c["path"], site["at"])]
        return self.unknown_call(st, c, args, site)

    def vtable_of(self, st, c, v):
        """The method a call on a trait object of an iterator means for the value at hand."""
        if self.vt is None:
            self.vt = {}
            for b in list(self.bodies) + list(self.d.coroutines):
                for bl in (b or {}).get("blocks", ()):
                    for s in bl["ss"]:
                        for m in s.get("r", {}).get("vtable", ()) if isinstance(s.get("r"), dict) else ():
                            self.vt[m["of"], m["path"]] = m["callee"]
        if not self.vt: return None
        for _ in range(4):
            if v[0] != "R" or v[1][0] == "cval": break
            v = self.rd(st, v)
        ty = v[1] if v[0] == "A" else v[2] if v[0] == "S" else None
        return self.vt.get((ty, c["path"]))

    def local_impl(self, st, c, v):
        """The local impl a trait call on a type parameter means for the value at hand."""
        tr = c.get("trait")
        if not tr or not tr.startswith("binate"): return None
        for _ in range(4):
            if v[0] != "R" or v[1][0] == "cval": break
            v = self.rd(st, v)
        ty = v[1] if v[0] == "A" else v[2] if v[0] == "S" else None
        if ty is None or self.types[ty]["k"] != "adt": return None
        p = self.types[ty].get("path")
        name = c["path"].split("::")[-1]
        for f in self.d.fns:
            if f.get("name") == name and f.get("trait", "").split("<")[0] == tr and f.get("inst") is not None \
               and "self" in f and self.types[f["self"]].get("path") == p: return f["inst"]
        # a provided method
        for f in self.d.fns:
            if f.get("name") == name and f.get("intrait") == tr and f.get("inst") is not None: return f["inst"]
        return None

    def fresh(self, st, key):
        n = st.fresh.get(key, 0)
        st.fresh[key] = n + 1
        return n

    def snapshot(self, st, v, depth=0):
        """A value with references replaced by what they point to."""
        v = self.norm(v, st)
        if v[0] == "R":
            if depth > 6: return ("deep",)
            try: return ("&", self.snapshot(st, self.rd(st, v), depth + 1))
            except Undecided: return ("&", ("?",))
        if v[0] == "A": return ("A", v[1], v[2], tuple(self.snapshot(st, f, depth + 1) for f in v[3]))
        return v

    def opaque_call(self, st, c, args, site):
        """A call whose body is chosen by the environment: recorded as an event."""
        name = c["path"]
        for a, t in list(zip(args, site["aty"]))[1:]:
            if t is not None and self.types[t]["k"] == "ref" and self.types[t].get("mut"): raise Undecided("an unknown body of %s may write through an argument" % name)
        n = self.fresh(st, name)
        ev = ("call", name, tuple(self.snapshot(st, a) for a in args), n)
        st.events += (ev,)
        return [Out("return", st, self.mksym(("ret", name, n), site["dty"]))]

    def unknown_call(self, st, c, args, site):
        name = c.get("rpath") or c["path"]
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        raise Undecided("no model for " + name)


class Callee:
    __slots__ = ("j", "key")

    def __init__(self, j):
        self.j = j
        self.key = (j.get("path"), j.get("inst"), tuple(j.get("args", ())))

    def __eq__(self, o):
        return isinstance(o, Callee) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "fn:" + (self.j.get("rpath") or self.j["path"])
