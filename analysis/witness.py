"""Concretising a partition: values for its atoms under which every recorded fact holds.

A partition of the abstract interpretation may be empty without the analysis noticing. A finding is reported only
when the facts of its partition have a common concrete solution (and, for a wrong value, one on which it differs).
"""
import math
import random
import struct
import time
from terms import *
import engine


class Unknown(Exception):
    pass


class Env:
    def __init__(self, vals, st, rnd):
        self.v = vals
        self.st = st
        self.rnd = rnd
        self.bv = {}
        self.busy = set()
        self.hints = ()

    def pick(self, t):
        """A value for a free term within its bounds."""
        lo, hi = self.st.iv.get(t, (t[-2], t[-1]))
        r = self.rnd
        m = r.random()
        name = t[1]
        if self.hints and r.random() < .25: x = r.choice(self.hints) + r.choice([0, 0, 0, 1, -1])
        elif t[0] == "a" and isinstance(name, tuple) and name and name[0] in ("len", "qn", "cap"):
            x = lo + r.choice([0, 0, 1, 1, 2, 3, 4, 6, 9]) if r.random() < .85 else (1 << r.choice([7, 8, 8, 15, 16, 16, 23, 24, 24, 31, 32])) + r.choice([-1, 0, 1, 5])
        elif m < .25: x = lo
        elif m < .4: x = hi
        elif m < .6: x = lo + r.randrange(0, 4)
        elif m < .75: x = hi - r.randrange(0, 4)
        elif m < .82: x = (1 << r.randrange(1, max(2, min(hi.bit_length(), 128)))) + r.choice([-1, 0, 1])
        elif hi - lo < 1 << 70: x = r.randint(lo, hi)
        else: x = lo + r.randrange(0, 1000)
        x = min(max(x, lo), hi)
        for i, v in self.bits_of.get(t, ()):
            x = x | (1 << i) if v else x & ~(1 << i)
        return x

    def term(self, t):
        k = t[0]
        if k == "c": return t[1]
        if k == "lin": return t[1] + sum(c * self.term(x) for x, c in t[2])
        if t in self.v: return self.v[t]
        if k == "bits": return sum(self.bit(b) << i for i, b in enumerate(t[1]))
        if t in self.st.pins:
            if t in self.busy: raise Unknown()
            self.busy.add(t)
            r = self.term(self.st.pins[t])
            self.busy.discard(t)
            self.v[t] = r
            return r
        if k == "op":
            r = self.op(t)
            if r is not None:
                return r
        r = self.pick(t)
        self.v[t] = r
        return r

    def op(self, t):
        n, a = t[1], t[2]
        if n.startswith("wrap"):
            w = int(n[5:])
            x = self.term(a[0]) & ((1 << w) - 1)
            return x - (1 << w) if n[4] == "s" and x >> (w - 1) else x
        if n == "discr":
            p = self.st.vars.get(a[0])
            tab = [d for i, d in a[1] if p is None or i in p]
            key = ("discr", a[0])
            if key not in self.v: self.v[key] = self.rnd.choice(tab) if tab else 0
            return self.v[key]
        if n == "nowrap":
            e = self.term(a[0])
            return e if t[3] <= e <= t[4] else self.term(a[1])
        if n in ("max", "min"): return (max if n == "max" else min)(self.term(x) for x in a)
        if n in ("div", "rem") and len(a) == 2:
            x, y = self.term(a[0]), self.term(a[1])
            if y <= 0 or x < 0: raise Unknown()
            return x // y if n == "div" else x % y
        if n == "f2i":
            x = self.term(a[0])
            if x != x or x in (float("inf"), float("-inf")): raise Unknown()
            return min(max(int(x), t[3]), t[4])
        if n[-3:] in ("f32", "f64"):
            x = [self.term(y) for y in a]
            if n[:2] in ("i2", "f2"): r = float(x[0])
            elif n[:-3] == "bits": r = struct.unpack("<f" if n[-3:] == "f32" else "<d", x[0].to_bytes(int(n[-2:]) // 8, "little"))[0]
            elif n[:-3] == "Div": 
                if x[1] == 0: raise Unknown()
                r = x[0] / x[1]
            elif n[:-3] in ("Add", "Sub", "Mul"): r = {"Add": x[0] + x[1], "Sub": x[0] - x[1], "Mul": x[0] * x[1]}[n[:-3]]
            elif n[:-3] in ("max", "min"): r = (max if n[:-3] == "max" else min)(x)
            elif n[:-3] in ("ceil", "floor", "trunc"): r = float(getattr(math, n[:-3])(x[0]))
            else: raise Unknown()
            if n[-3:] == "f32":
                try: r = struct.unpack("f", struct.pack("f", r))[0]
                except OverflowError: raise Unknown()
            return r
        if n == "mul":
            x = self.term(a[0]) * self.term(a[1])
            if not t[3] <= x <= t[4]: raise Unknown()
            return x
        if n == "sar": return self.term(a[0]) >> self.term(a[1])
        if n in ("ctlz", "cttz", "ctpop") and len(a) == 2:
            w = a[1][1]
            x = self.term(a[0]) & ((1 << w) - 1)
            return bin(x).count("1") if n == "ctpop" else w - x.bit_length() if n == "ctlz" else (x & -x).bit_length() - 1 if x else w
        if n in ("shl", "shr"):
            w = (t[4] - t[3]).bit_length()
            x, y = self.term(a[0]), self.term(a[1]) % w
            if n == "shr": return x >> y
            x = (x << y) & ((1 << w) - 1)
            return x - (1 << w) if x > t[4] else x
        return None

    def bit(self, b):
        if b in (0, 1): return b
        h = b[0]
        if h == "!": return 1 - self.bit(b[1])
        if h == "&" and len(b) == 3: return self.bit(b[1]) & self.bit(b[2])
        if h == "|" and len(b) == 3: return self.bit(b[1]) | self.bit(b[2])
        if h == "^" and len(b) == 3: return self.bit(b[1]) ^ self.bit(b[2])
        if h == "?": return int(self.boolean(b[1]))
        return (self.term(b[0]) >> b[1]) & 1

    def boolean(self, b):
        if b is True or b is False: return b
        h = b[0]
        if h == "ge": return self.term(b[1]) >= 0
        if h == "eq": return self.term(b[1]) == 0
        if h == "not": return not self.boolean(b[1])
        if h == "and": return all(self.boolean(x) for x in b[1])
        if h == "or": return any(self.boolean(x) for x in b[1])
        if h == "bit": return bool(self.bit(b[1]))
        if h == "var":
            p = self.st.vars.get(b[1])
            return p is None or bool(p & b[2])
        if h == "seq":
            n = self.qlen(b[1])
            if n != self.qlen(b[2]): return False
            if not n: return True
            if n <= 4096:
                x, y = self.qbytes(b[1]), self.qbytes(b[2])
                # a byte compared with a number is a number itself
                x, y = [self.byte(p) if isinstance(q, int) else p for p, q in zip(x, y)], [self.byte(q) if isinstance(p, int) else q for p, q in zip(x, y)]
                if x == y: return True
                if any(p != q and isinstance(p, int) and isinstance(q, int) for p, q in zip(x, y)): return False
        if b not in self.bv:
            k = self.st.bools.get(b)
            self.bv[b] = self.rnd.random() < .5 if k is None else k
        return self.bv[b]

    def qlen(self, q):
        return sum(len(s[1]) // 8 if s[0] == "be" else self.term(s[3]) for s in q[1])

    def qbytes(self, q, limit=4096):
        """Bytes as numbers where known and as (source, offset) otherwise."""
        out = []
        for s in q[1]:
            if s[0] == "be":
                for i in range(0, len(s[1]), 8):
                    x = 0
                    raw = s[1][i:i + 8]
                    for b in raw: x = 2 * x + self.bit(b)
                    out.append(x)
            else:
                n, o = self.term(s[3]), self.term(s[2])
                if n < 0 or n > limit: raise Unknown()
                out += [s[1][1]] * n if s[1][0] == "fill" else [(s[1], o + i) for i in range(n)]
        return out

    def byte(self, p):
        """The number a byte of an input stands for, where it is known by source and offset."""
        if isinstance(p, int): return p
        x = 0
        for b in engine.byte_bits(p[0], ("c", p[1]), 1): x = 2 * x + self.bit(b)
        return x

    def byte_atoms(self):
        """Values chosen for single bytes, by source and offset; None when two choices clash."""
        at = {}
        for t, v in self.v.items():
            if t[0] == "a" and isinstance(t[1], tuple) and t[1] and t[1][0] == "byte":
                k = (t[1][1], self.term(engine.offset_of(t[1][2])))
                if at.setdefault(k, v) != v: return None
        return at


def consistent(env):
    """Do all the facts of the partition hold?"""
    st = env.st
    for t, (a, b) in st.iv.items():
        if not a <= env.term(t) <= b: return False
    for t, p in st.pins.items():
        x = env.term(p)
        if env.term(t) != x: return False
        if t[0] == "op":
            y = env.op(t)
            if y is not None and y != x: return False
        if t[0] in ("a", "op") and not t[-2] <= x <= t[-1]: return False
    for b, v in st.bits.items():
        if env.bit(b) != v: return False
    for b, v in st.bools.items():
        if env.boolean(b) != v: return False
    for g in st.ges:
        if env.term(g) < 0: return False
    for n in st.nes:
        if isinstance(n[0], tuple):
            if env.term(n[0]) == n[1]: return False
        elif env.term(n) == 0: return False
    for c in st.clauses:
        if not env.boolean(c): return False
    for t, v in list(env.v.items()):
        if t[0] == "a" and not t[2] <= v <= t[3]: return False
    return True


def repair(env):
    """Moves one atom of a violated inequality to where it holds."""
    st = env.st
    free = [t for t in env.v if t[0] == "a" and t not in st.pins]
    for g in env.rnd.sample(list(st.ges), len(st.ges)):
        try: x = env.term(g)
        except Unknown: continue
        if x < 0 and g[0] == "lin":
            c = [(t, k) for t, k in g[2] if t in env.v and t[0] == "a" and t not in st.pins]
            if not c: continue
            t, k = env.rnd.choice(c)
            d = -(x // abs(k)) if x % abs(k) == 0 else -(x // abs(k))
            return {**{f: env.v[f] for f in free}, t: env.v[t] + (d if k > 0 else -d)}
    for t, bits in env.lin_bits.items():
        try: x = env.term(t)
        except Unknown: continue
        want = x
        for i, v in bits: want = want | 1 << i if v else want & ~(1 << i)
        c = [(y, k) for y, k in t[2] if y in env.v and y[0] == "a" and y not in st.pins and abs(k) == 1]
        if want != x and c:
            y, k = env.rnd.choice(c)
            return {**{f: env.v[f] for f in free}, y: env.v[y] + (want - x) * k}
    for t, want in [(t, (p, p)) for t, p in st.pins.items()] + [(t, (C(a), C(b))) for t, (a, b) in st.iv.items()]:
        # a remainder or a quotient by a constant
        if t[0] != "op" or t[1] not in ("rem", "div") or t[2][1][0] != "c" or t[2][1][1] <= 0: continue
        try: x, y, a, b = env.term(t[2][0]), env.op(t), env.term(want[0]), env.term(want[1])
        except Unknown: continue
        if y is None or a <= y <= b: continue
        w, k = env.rnd.choice([a, b]), t[2][1][1]
        d = (x - x % k + w if t[1] == "rem" else w * k + x % k) - x
        c = [(z, f) for z, f in ((t[2][0], 1),) + (t[2][0][2] if t[2][0][0] == "lin" else ()) if z in env.v and z[0] == "a" and z not in st.pins and abs(f) == 1]
        if d and c:
            z, f = env.rnd.choice(c)
            return {**{f2: env.v[f2] for f2 in free}, z: env.v[z] + d * f}
    for n in st.nes:
        t = n[0] if isinstance(n[0], tuple) else None
        if t is not None and t in env.v and t not in st.pins and t[0] == "a" and env.v[t] == n[1]:
            return {**{f: env.v[f] for f in free}, t: env.v[t] + env.rnd.choice([1, -1])}
    for t, (a, b) in st.iv.items():
        try: x = env.term(t)
        except Unknown: continue
        if not a <= x <= b and t[0] == "bits":
            want = env.rnd.choice([a, b, env.rnd.randint(a, b)])
            new = {f: env.v[f] for f in free}
            lins = {}
            for i, z in enumerate(t[1]):
                v = (want >> i) & 1
                if isinstance(z, tuple) and z[0] == "!" and len(z) == 2: z, v = z[1], 1 - v
                if isinstance(z, tuple) and len(z) == 2 and isinstance(z[0], tuple) and z[0][0] == "lin": lins.setdefault(z[0], []).append((z[1], v))
                if isinstance(z, tuple) and len(z) == 2 and z[0] in new: new[z[0]] = new[z[0]] | 1 << z[1] if v else new[z[0]] & ~(1 << z[1])
            for l, bits in lins.items():
                env2 = Env(dict(new), st, env.rnd)
                env2.bits_of, env2.hints, env2.lin_bits = env.bits_of, env.hints, env.lin_bits
                try: x2 = env2.term(l)
                except Unknown: continue
                w2 = x2
                for i, v in bits: w2 = w2 | 1 << i if v else w2 & ~(1 << i)
                c = [(y, k) for y, k in l[2] if y in new and abs(k) == 1]
                if c and w2 != x2:
                    y, k = env.rnd.choice(c)
                    new[y] += (w2 - x2) * k
            return new
        if not a <= x <= b and t[0] in ("lin", "bits"):
            if t[0] == "lin":
                c = [(y, k) for y, k in t[2] if y in env.v and y[0] == "a" and y not in st.pins]
                if c:
                    y, k = env.rnd.choice(c)
                    want = env.rnd.choice([a, b])
                    return {**{f: env.v[f] for f in free}, y: env.v[y] + (want - x) // k}
    return None


LEFT = [90.0]   # seconds of searching left for this run


def search(st, goal, tries=3000, seed=1, values=()):
    """An assignment on which all facts hold and goal(env) is true, or None."""
    t0 = time.process_time()
    try: return search_(st, goal, tries, seed, t0 + min(2.0, LEFT[0]), values)
    finally: LEFT[0] -= time.process_time() - t0


def numbers(x, out):
    """Numbers that the terms of a value compare or divide by: corner cases for the choice of its atoms."""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "c" and isinstance(x[1], int): out.add(x[1])
        elif x and x[0] == "lin":
            out.add(abs(x[1]))
            numbers(x[2], out)
        elif x and x[0] == "a": return out
        else:
            for y in x: numbers(y, out)
    return out


def search_(st, goal, tries, seed, end, values=()):
    hints = numbers(values, set())
    for b, v in st.bools.items():
        # a comparison with a constant text: its length
        if isinstance(b, tuple) and b[0] == "seq":
            hints |= {sum(len(s[1]) // 8 for s in q[1]) for q in b[1:3] if all(s[0] == "be" for s in q[1])}
    hints = sorted(x for x in hints if x > 3)[:40]
    rnd = random.Random(seed)
    bits, lin_bits = {}, {}
    for b, v in st.bits.items():
        if isinstance(b, tuple) and isinstance(b[0], tuple) and len(b) == 2 and b[0][0] == "lin": lin_bits.setdefault(b[0], []).append((b[1], v))
        if isinstance(b, tuple) and isinstance(b[0], tuple) and len(b) == 2 and b[0][0] == "a": bits.setdefault(b[0], []).append((b[1], v))
    start, left = None, 0
    for _ in range(tries):
        if time.process_time() > end: return None
        env = Env(dict(start) if start and left > 0 else {}, st, rnd)
        env.bits_of, env.hints, env.lin_bits = bits, hints, lin_bits
        start, left = (start, left - 1)
        try:
            # the goal's terms take part in the choice
            g = goal(env)
            if consistent(env):
                if g and env.byte_atoms() is not None: return env
                if left <= 0: start = None
                continue
            r = repair(env)
            if r is None: start = None
            else:
                if left <= 0: left = 12
                start = r
        except (Unknown, RecursionError):
            start = None
            continue
    return None


def conditions(x, out):
    """Conditions that decide the value of a term."""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "?" and isinstance(x[1], tuple):
            if x[1] not in out: out.append(x[1])
        else:
            for y in x: conditions(y, out)
    return out


def search_cases(st, goal, values, tries=3000):
    """search, then once more on each side of the conditions the values depend on."""
    env = search(st, goal, tries, values=values)
    if env is not None: return env
    for c in conditions(values, [])[:4]:
        for b in (c, NOT(c)):
            s = st.copy()
            if s.assume(b) is False: continue
            env = search(s, goal, tries, values=values)
            if env is not None: return env
    return None


def describe(env):
    import lib
    out = []
    for t, v in env.v.items():
        if t[0] == "a" and not (isinstance(t[1], tuple) and t[1] and t[1][0] == "byte" and v == 0): out.append("%s = %s" % (lib.pt(t), v))
    return sorted(out)[:16]


def feasible(st, tries=3000):
    return search(st, lambda env: True, tries)


def differ(e, st, a, b, tries=3000):
    """A concrete case on which two values of the same shape differ."""
    pairs = []

    def walk(x, y):
        if x[0] == "R": x = e.rd(st, x)
        if y[0] == "R": y = e.rd(st, y)
        x, y = e.norm(x, st), e.norm(y, st)
        if x == y: return
        if x[0] == "S" and y[0] == "A" and not e.is_enum(x[2]): x = e.expand(x)
        if y[0] == "S" and x[0] == "A" and not e.is_enum(y[2]): y = e.expand(y)
        if x[0] == "A" and y[0] == "A" and x[2] == y[2] and len(x[3]) == len(y[3]):
            for p, q in zip(x[3], y[3]): walk(p, q)
            return
        pairs.append((x, y))
    walk(a, b)
    if any(x[0] == "A" and y[0] == "A" for x, y in pairs): return feasible(st, tries)

    def goal(env):
        at = None
        for x, y in pairs:
            if x[0] == "I" and y[0] == "I":
                if env.term(x[1]) != env.term(y[1]): return True
            elif x[0] == "B" and y[0] == "B":
                if env.boolean(x[1]) != env.boolean(y[1]): return True
            elif x[0] == "Q" or y[0] == "Q":
                p, q = e.as_q(x, st), e.as_q(y, st)
                if env.qlen(p) != env.qlen(q): return True
                p, q = env.qbytes(p), env.qbytes(q)
                at = env.byte_atoms()
                if at is None: return False
                for i, j in zip(p, q):
                    i = at.get(i, i) if isinstance(i, tuple) else i
                    j = at.get(j, j) if isinstance(j, tuple) else j
                    if i != j: return True
            else: return True
        return False
    return search_cases(st, goal, tuple(pairs), tries)


def refute(st, cond):
    """A concrete case on which a condition fails."""
    def goal(env): return not env.boolean(cond)
    s = st.copy()
    if s.assume(NOT(cond)) is not False:
        env = search(s, goal, values=(cond,))
        if env is not None: return env
    return search_cases(st, goal, (cond,))
