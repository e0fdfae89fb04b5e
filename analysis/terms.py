"""Abstract integer, boolean and bit terms, with their normal forms.

An integer term is the mathematical value of a machine integer:
  ('c', n)                        constant
  ('a', name, lo, hi)             atom (unknown value within a range)
  ('lin', c, ((t, k), ...))       c + sum k*t
  ('bits', (b0, b1, ...))         unsigned, least significant bit first
  ('op', name, args, lo, hi)      uninterpreted function of its arguments

A bit is 0, 1, (t, i) [bit i of the two's complement of t], ('!', b),
('&', a, b), ('|', a, b), ('^', a, b) or ('?', boolean).

A boolean is True, False, ('at', name), ('ge', t) [t >= 0], ('eq', t) [t == 0],
('bit', b), ('not', x), ('and', xs), ('or', xs), ('var', name, indices),
('seq', q1, q2).
"""

LENMAX = (1 << 47) - 1  # no byte buffer is larger than the address space


def C(n):
    return ("c", n)


def atom(name, lo, hi):
    if lo == hi:
        return C(lo)
    return ("a", name, lo, hi)


def is_c(t):
    return t[0] == "c"


NOFACTS = None


def rng(t, st=None):
    k = t[0]
    if k == "c":
        return t[1], t[1]
    if k == "a":
        lo, hi = t[2], t[3]
    elif k == "lin":
        lo = hi = t[1]
        for x, c in t[2]:
            a, b = rng(x, st)
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
    elif k == "bits":
        lo = hi = 0
        for i, b in enumerate(t[1]):
            v = bitval(b, st)
            if v == 1:
                lo |= 1 << i
                hi |= 1 << i
            elif v is None:
                hi |= 1 << i
    else:
        lo, hi = t[3], t[4]
    if st is not None:
        r = st.iv.get(t)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        p = st.pins.get(t)
        if p is not None:
            a, b = rng(p, st)
            lo, hi = max(lo, a), min(hi, b)
    return lo, hi


# ---------------------------------------------------------------- bits
def bnot(a):
    if a == 0: return 1
    if a == 1: return 0
    if a[0] == "!": return a[1]
    return ("!", a)


def bkey(b):
    return repr(b)


def band(a, b):
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    if a == b: return a
    if a == bnot(b): return 0
    # absorption
    if a[0] == "&" and b in a[1:]: return a
    if b[0] == "&" and a in b[1:]: return b
    if a[0] == "|" and b in a[1:]: return b
    if b[0] == "|" and a in b[1:]: return a
    x, y = sorted((a, b), key=bkey)
    return ("&", x, y)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    if a == 0: return b
    if b == 0: return a
    if a == 1: return bnot(b)
    if b == 1: return bnot(a)
    if a == b: return 0
    if a == bnot(b): return 1
    x, y = sorted((a, b), key=bkey)
    return ("^", x, y)


def bitval(b, st):
    """0, 1 or None under the facts of st."""
    if b == 0 or b == 1:
        return b
    h = b[0]
    if h == "!":
        v = bitval(b[1], st)
        return None if v is None else 1 - v
    if h == "&":
        v, w = bitval(b[1], st), bitval(b[2], st)
        if v == 0 or w == 0: return 0
        return 1 if v == 1 and w == 1 else None
    if h == "^":
        v, w = bitval(b[1], st), bitval(b[2], st)
        return None if v is None or w is None else v ^ w
    if h == "?":
        v = st.decide(b[1]) if st is not None else None
        return None if v is None else int(v)
    t, i = b
    if st is not None:
        v = st.bits.get(b)
        if v is not None:
            return v
        p = st.pins.get(t)
        if p is not None:
            q = bit_of(p, i)
            if q != b:
                return bitval(q, st)
        lo, hi = rng(t, st)
    else:
        lo, hi = rng(t)
    if lo == hi:
        return (lo >> i) & 1
    if lo >= 0:
        if hi < (1 << i): return 0
        # common high bits of lo and hi
        if (lo >> i) == (hi >> i): return (lo >> i) & 1
    return None


def bit_of(t, i):
    k = t[0]
    if k == "c":
        return (t[1] >> i) & 1
    if k == "bits":
        return t[1][i] if i < len(t[1]) else 0
    if k == "lin":
        # c + 2^m(...) + x : the low m bits are those of x + c's low bits 0
        m = i + 1
        mod = 1 << m
        odd = [(x, c) for x, c in t[2] if c % mod]
        if not odd:
            return (t[1] >> i) & 1
        if len(odd) == 1 and odd[0][1] % mod == 1:
            if t[1] % mod == 0:
                return bit_of(odd[0][0], i)
            if i == 0:
                return bnot(bit_of(odd[0][0], 0)) if t[1] % 2 else bit_of(odd[0][0], 0)
        d = placed(t)
        if d is not None:
            for x, lo, hi in d:
                if lo <= i < hi: return bit_of(x, i - lo)
            return 0
        return (t, i)
    if k == "op" and t[1].startswith("wrap"):
        w = int(t[1][5:])
        if i < w:
            return bit_of(t[2][0], i)
        if t[3] >= 0:
            return 0
        return bit_of(t[2][0], w - 1)
    lo, hi = rng(t)
    if lo >= 0 and hi < (1 << i):
        return 0
    return (t, i)


def placed(t):
    """The places of the summands of a sum in which no two share a bit (65536*high + low), else None."""
    if t[1] < 0: return None
    out = []
    for x, c in t[2] + (((C(t[1]), 1),) if t[1] else ()):
        if c <= 0 or c & (c - 1): return None
        lo, hi = rng(x)
        if lo < 0: return None
        s = c.bit_length() - 1
        if x[0] == "c":
            s = (x[1] & -x[1]).bit_length() - 1
            x = C(x[1] >> s)
        out.append((x, s, s + hi.bit_length() if x[0] != "c" else hi.bit_length()))
    out.sort(key=lambda y: y[1])
    if any(out[i][2] > out[i + 1][1] for i in range(len(out) - 1)): return None
    return out


def bits_of(t, w):
    return tuple(bit_of(t, i) for i in range(w))


def simp_bit(b, st):
    if st is None or b == 0 or b == 1:
        return b
    v = bitval(b, st)
    if v is not None:
        return v
    h = b[0]
    if h == "!": return bnot(simp_bit(b[1], st))
    if h == "&": return band(simp_bit(b[1], st), simp_bit(b[2], st))
    if h == "^": return bxor(simp_bit(b[1], st), simp_bit(b[2], st))
    if h == "?": return b
    p = st.pins.get(b[0])
    if p is not None:
        return bit_of(p, b[1])
    return b


def from_bits(bs, st=None):
    """The unsigned integer with the given bits, in normal form."""
    bs = [simp_bit(b, st) for b in bs]
    while bs and bs[-1] == 0:
        bs.pop()
    if all(b in (0, 1) for b in bs):
        return C(sum(b << i for i, b in enumerate(bs)))
    # low bits of one term, and its other bits are known zero
    b0 = bs[0]
    if isinstance(b0, tuple) and b0[0] not in ("!", "&", "^", "?") and b0[1] == 0:
        t = b0[0]
        lo, hi = rng(t, st)
        if lo >= 0 and hi < (1 << 64):
            n = max(hi.bit_length(), len(bs))
            if all(simp_bit(bit_of(t, i), st) == (bs[i] if i < len(bs) else 0) for i in range(n)):
                return t
    for b in bs:
        if isinstance(b, tuple) and b[0] not in ("!", "&", "^", "?"):
            t = b[0]
            if t[0] in ("lin", "op", "a"):
                lo, hi = rng(t, st)
                if lo >= 0 and hi < (1 << 64):
                    n = max(hi.bit_length(), len(bs))
                    if all(simp_bit(bit_of(t, i), st) == (bs[i] if i < len(bs) else 0) for i in range(n)):
                        return t
            break
    return ("bits", tuple(bs))


# ---------------------------------------------------------------- linear
def tkey(t):
    return repr(t)


def to_lin(t):
    if t[0] == "c": return t[1], {}
    if t[0] == "lin": return t[1], dict(t[2])
    if t[0] == "bits":
        # shifted whole term
        bs = t[1]
        s = 0
        while s < len(bs) and bs[s] == 0: s += 1
        b = bs[s] if s < len(bs) else 0
        if s and isinstance(b, tuple) and b[0] not in ("!", "&", "^", "?") and b[1] == 0:
            u = b[0]
            lo, hi = rng(u)
            if lo >= 0 and hi.bit_length() + s <= 64 and all(
                (bs[s + i] if s + i < len(bs) else 0) == bit_of(u, i) for i in range(hi.bit_length())
            ) and len(bs) <= s + hi.bit_length():
                return 0, {u: 1 << s}
    return 0, {t: 1}


def unpack(t):
    """A linear term whose concatenations of whole terms are written as sums."""
    if t[0] == "c" or t[0] == "a" or t[0] == "op": return t
    c, d = to_lin(t)
    if not any(x[0] == "bits" for x in d): return t
    out = C(c)
    for x, k in d.items():
        y = x
        if x[0] == "bits":
            y = C(0)
            bs, i = x[1], 0
            while i < len(bs):
                b = bs[i]
                if b in (0, 1):
                    if b: y = add(y, C(1 << i))
                    i += 1
                    continue
                if not isinstance(b, tuple) or b[0] in ("!", "&", "^", "?", "|") or b[1] != 0: break
                u = b[0]
                lo, hi = rng(u)
                n = hi.bit_length() if lo >= 0 else 65
                if n > 64 or tuple(bs[i:i + n]) != tuple(bit_of(u, j) for j in range(n)): break
                y = add(y, scale(u, 1 << i))
                i += n
            else:
                out = add(out, scale(y, k))
                continue
            y = x
        e = mk_lin(0, {y: k})
        out = add(out, e)
    return out


def mk_lin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: tkey(x[0])))
    if not items: return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return ("lin", c, items)


def add(a, b, sb=1):
    c, d = to_lin(a)
    c2, d2 = to_lin(b)
    c += sb * c2
    d = dict(d)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + sb * k
    return mk_lin(c, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = to_lin(a)
    return mk_lin(c * n, {t: k * n for t, k in d.items()})


def neg(a):
    return scale(a, -1)


def disjoint_or(a, b, st):
    """a + b as a concatenation of bits when no position can carry, else None."""
    if a[0] != "bits" and b[0] != "bits": return None
    (la, ha), (lb, hb) = rng(a, st), rng(b, st)
    if la < 0 or lb < 0: return None
    w = max(ha.bit_length(), hb.bit_length())
    if w > 64: return None
    x, y = bits_of(a, w), bits_of(b, w)
    x = [simp_bit(v, st) for v in x]
    y = [simp_bit(v, st) for v in y]
    if all(p == 0 or q == 0 for p, q in zip(x, y)):
        return from_bits([q if p == 0 else p for p, q in zip(x, y)], st)
    return None


def iadd(a, b, st=None):
    if not is_c(a) and not is_c(b):
        r = disjoint_or(a, b, st)
        if r is not None: return r
    return add(a, b)


def op(name, args, lo, hi):
    if lo == hi: return C(lo)
    return ("op", name, tuple(args), lo, hi)


def limits(w, signed):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)


def wrap(t, w, signed, st=None):
    """t reduced to a w-bit integer."""
    lo, hi = rng(t, st)
    a, b = limits(w, signed)
    if a <= lo and hi <= b:
        return t
    if is_c(t):
        n = t[1] & ((1 << w) - 1)
        if signed and n >> (w - 1): n -= 1 << w
        return C(n)
    while t[0] == "op" and t[1].startswith("wrap") and int(t[1][5:]) >= w:
        t = t[2][0]
        lo, hi = rng(t, st)
        if a <= lo and hi <= b:
            return t
    if not signed:
        bs = [simp_bit(x, st) for x in bits_of(t, w)]
        if t[0] == "lin" and all(isinstance(x, tuple) and x == (t, i) for i, x in enumerate(bs)):
            return ("op", "wrapu%d" % w, (t,), a, b)
        return from_bits(bs, st)
    bs = [simp_bit(x, st) for x in bits_of(t, w)]
    if bs[-1] == 0:
        return from_bits(bs, st)
    return ("op", "wraps%d" % w, (t,), a, b)


def signed_of(t, w, st=None):
    """Reinterpret an unsigned w-bit value as signed."""
    return wrap(t, w, True, st)


def subst(t, m):
    """Replace terms (pins) inside t."""
    if t in m:
        return subst(m[t], m)
    k = t[0]
    if k == "lin":
        r = C(t[1])
        ch = False
        for x, c in t[2]:
            y = subst(x, m)
            if y is not x: ch = True
            r = add(r, scale(y, c))
        return r if ch else t
    if k == "op":
        a = tuple(subst(x, m) if isinstance(x, tuple) and x and x[0] in ("c", "a", "lin", "bits", "op") else x for x in t[2])
        if a != t[2]:
            return reop(t[1], a, t[3], t[4])
    return t


def reop(name, args, lo, hi):
    if name == "max" and all(is_c(x) for x in args): return C(max(x[1] for x in args))
    if name == "min" and all(is_c(x) for x in args): return C(min(x[1] for x in args))
    if name == "div" and all(is_c(x) for x in args) and args[1][1]: return C(args[0][1] // args[1][1])
    if name == "rem" and all(is_c(x) for x in args) and args[1][1]: return C(args[0][1] % args[1][1])
    if name.startswith("wrap"):
        w = int(name[5:])
        return wrap(args[0], w, name[4] == "s")
    return ("op", name, args, lo, hi)


# ---------------------------------------------------------------- booleans
def NOT(b):
    if b is True: return False
    if b is False: return True
    if b[0] == "not": return b[1]
    if b[0] == "ge": return GE(sub(neg(b[1]), C(1)))
    if b[0] == "bit": return BIT(bnot(b[1]))
    if b[0] == "and": return OR([NOT(x) for x in b[1]])
    if b[0] == "or": return AND([NOT(x) for x in b[1]])
    return ("not", b)


def AND(xs):
    out = []
    for x in xs:
        if x is False: return False
        if x is True: continue
        if x[0] == "and":
            for y in x[1]:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    for x in out:
        if NOT(x) in out: return False
    if not out: return True
    if len(out) == 1: return out[0]
    return ("and", tuple(sorted(out, key=repr)))


def OR(xs):
    out = []
    for x in xs:
        if x is True: return True
        if x is False: continue
        if x[0] == "or":
            for y in x[1]:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    for x in out:
        if NOT(x) in out: return True
    if not out: return False
    if len(out) == 1: return out[0]
    return ("or", tuple(sorted(out, key=repr)))


def GE(t):
    lo, hi = rng(t)
    if lo >= 0: return True
    if hi < 0: return False
    if t[0] == "lin":
        import math
        g = 0
        for _, k in t[2]: g = math.gcd(g, k)
        if g > 1:
            t = mk_lin(t[1] // g, {x: k // g for x, k in t[2]})
    return ("ge", t)


def EQ0(t):
    lo, hi = rng(t)
    if lo > 0 or hi < 0: return False
    if lo == hi == 0: return True
    if t[0] == "lin":
        if t[2][0][1] < 0: t = neg(t)
        if t[0] != "lin": return ("eq", t)
        import math
        g = 0
        for _, k in t[2]: g = math.gcd(g, k)
        if g > 1:
            if t[1] % g: return False
            t = mk_lin(t[1] // g, {x: k // g for x, k in t[2]})
    return ("eq", t)


def BIT(b):
    if b == 0: return False
    if b == 1: return True
    if b[0] == "?": return b[1]
    if b[0] == "!":
        if b[1][0] in ("!", "&", "^", "?"):
            return NOT(BIT(b[1]))
        return ("not", ("bit", b[1]))
    if b[0] == "&": return AND([BIT(b[1]), BIT(b[2])])
    if b[0] == "^":
        x, y = BIT(b[1]), BIT(b[2])
        return OR([AND([x, NOT(y)]), AND([NOT(x), y])])
    return ("bit", b)


def EQ(a, b, st=None):
    """a == b"""
    if a == b: return True
    for x, y in ((a, b), (b, a)):
        if is_c(x) and x[1] >= 0 and y[0] == "bits":
            n = max(len(y[1]), x[1].bit_length())
            conj = []
            for i in range(n):
                e = y[1][i] if i < len(y[1]) else 0
                e = simp_bit(e, st)
                conj.append(BIT(e) if (x[1] >> i) & 1 else NOT(BIT(e)))
            r = AND(conj)
            if r is True or r is False: return r
            nconj = len(r[1]) if r[0] == "and" else 1
            if nconj == 1: return r
            return ("eq", sub(y, x))
    for x, y in ((a, b), (b, a)):
        if x[0] == "lin" and y[0] in ("bits", "a", "op") and placed(x) is not None:
            lo, hi = rng(y)
            if lo >= 0 and hi < (1 << 64):
                n = max(hi.bit_length(), rng(x)[1].bit_length())
                if n <= 64 and all(simp_bit(bit_of(x, i), st) == simp_bit(bit_of(y, i), st) for i in range(n)): return True
    if a[0] == "bits" and b[0] == "bits":
        n = max(len(a[1]), len(b[1]))
        conj = []
        for i in range(n):
            x = simp_bit(a[1][i] if i < len(a[1]) else 0, st)
            y = simp_bit(b[1][i] if i < len(b[1]) else 0, st)
            if x == y: continue
            if x in (0, 1): conj.append(BIT(y) if x else NOT(BIT(y)))
            elif y in (0, 1): conj.append(BIT(x) if y else NOT(BIT(x)))
            else: conj.append(NOT(BIT(bxor(x, y))))
        if len(conj) > 8:
            u, v = unpack(a), unpack(b)
            # the same fields at the same places
            if u != a and v != b:
                x, y = to_lin(u), to_lin(v)
                if x[0] == y[0] and sorted(x[1].values()) == sorted(y[1].values()) and len(set(x[1].values())) == len(x[1]):
                    n = {k: t for t, k in y[1].items()}
                    w = lambda t: rng(t)[1].bit_length()
                    if all(w(t) == w(n[k]) for t, k in x[1].items()): return AND([EQ0(sub(t, n[k])) for t, k in x[1].items()])
        return AND(conj)
    return EQ0(sub(a, b))


def LE(a, b):
    return GE(sub(b, a))


def LT(a, b):
    return GE(sub(sub(b, a), C(1)))


def atoms_in(x, out=None):
    """Every atom and operation term occurring in x (any nested tuple)."""
    if out is None: out = set()
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] == "a": out.add(x)
        if len(x) == 5 and x[0] == "op": out.add(x)
        for y in x: atoms_in(y, out)
    return out
