"""Abstract state: memory cells plus the facts known on this partition."""
from terms import *


def factored(d):
    """[(n, p)] with n*p the sum of the terms of d, at least one of them a product of unknowns."""
    muls = [x for x in d if x[0] == "op" and x[1] == "mul"]
    for n in dict.fromkeys(f for x in muls for f in x[2] if not is_c(f)):
        p = C(0)
        for x, k in d.items():
            if x == n: p = add(p, C(k))
            elif x[0] == "op" and x[1] == "mul" and n in x[2]: p = add(p, scale(x[2][1] if x[2][0] == n else x[2][0], k))
            else: break
        else: yield n, p


class State:
    __slots__ = ("mem", "iv", "pins", "bits", "bools", "ges", "nes", "vars", "clauses",
                 "events", "fresh", "notes", "forks")

    def __init__(s):
        s.mem = {}
        s.iv = {}
        s.pins = {}
        s.bits = {}
        s.bools = {}
        s.ges = ()
        s.nes = frozenset()
        s.vars = {}
        s.clauses = ()
        s.events = ()
        s.fresh = {}
        s.notes = frozenset()
        s.forks = 0

    def copy(s):
        n = State.__new__(State)
        n.mem = dict(s.mem)
        n.iv = dict(s.iv)
        n.pins = dict(s.pins)
        n.bits = dict(s.bits)
        n.bools = dict(s.bools)
        n.ges = s.ges
        n.nes = s.nes
        n.vars = dict(s.vars)
        n.clauses = s.clauses
        n.events = s.events
        n.fresh = dict(s.fresh)
        n.notes = s.notes
        n.forks = s.forks
        return n

    # -- normal forms under the facts
    def nz(s, t):
        if not isinstance(t, tuple): return t
        if s.pins:
            t = subst(t, s.pins)
        k = t[0]
        if k == "bits":
            return from_bits(t[1], s)
        if k == "op" and t[1] == "discr":
            vs = s.discr_values(t)
            if len(vs) == 1: return C(next(iter(vs)))
        if k == "op" and t[1] == "nowrap":
            e, res = t[2]
            e = s.nz(e)
            if s.ge0(sub(e, C(t[3]))) is True and s.ge0(sub(C(t[4]), e)) is True: return e
            if s.ge0(sub(e, C(t[3]))) is False or s.ge0(sub(C(t[4]), e)) is False: return s.nz(res)
        if k == "op" and t[1].startswith("wrap"): return wrap(s.nz(t[2][0]), int(t[1][5:]), t[1][4] == "s", s)
        if k in ("a", "op"):
            lo, hi = rng(t, s)
            if lo == hi: return C(lo)
        if k == "lin":
            out = C(t[1])
            for x, c in t[2]:
                y = s.nz(x) if x != t else x
                out = add(out, scale(y, c))
            return out
        return t

    def nzb(s, b):
        """Normal form of a boolean."""
        if b is True or b is False: return b
        v = s.decide(b)
        if v is not None: return v
        h = b[0]
        if h == "ge": return GE(s.nz(b[1]))
        if h == "eq": return EQ0(s.nz(b[1]))
        if h == "not": return NOT(s.nzb(b[1]))
        if h == "and": return AND([s.nzb(x) for x in b[1]])
        if h == "or": return OR([s.nzb(x) for x in b[1]])
        if h == "bit": return BIT(simp_bit(b[1], s))
        return b

    # -- entailment
    def ge0(s, t):
        """True if t >= 0 on this partition, False if t < 0, else None."""
        t = s.nz(t)
        lo, hi = rng(t, s)
        if lo >= 0: return True
        if hi < 0: return False
        if s._ent(t): return True
        if s._ent(sub(neg(t), C(1))): return False
        u = unpack(t)
        if u != t:
            if s._ent(u): return True
            if s._ent(sub(neg(u), C(1))): return False
        if s.nes:
            # t >= -1 and t is not -1, or t <= 0 and t is not 0
            for x, r in ((add(t, C(1)), True), (neg(t), False)):
                if x[0] != "c" and any(isinstance(n[0], str) and s.nz(n) in (x, neg(x)) for n in s.nes) and s._ent(x): return r
        return None

    def _ent(s, t, depth=2):
        t = s.nz(t)
        if rng(t, s)[0] >= 0: return True
        if not s.ges: return False
        at = {x for x, _ in to_lin(t)[1].items()}
        cands = [g for g in (s.nz(g) for g in s.ges) if g[0] != "c" and (at & set(to_lin(g)[1]))]
        for g in cands:
            for k in (1, 2):
                if rng(sub(t, scale(g, k)), s)[0] >= 0: return True
            # t >= 0 when k*t >= -(k-1)
            dt, dg = to_lin(t)[1], to_lin(g)[1]
            k = max((abs(dg[x]) // abs(dt[x]) for x in dt if x in dg), default=1)
            if k > 2 and rng(sub(add(scale(t, k), C(k - 1)), g), s)[0] >= 0: return True
        if depth > 1:
            for g in cands:
                r = sub(t, g)
                at2 = set(to_lin(r)[1])
                for g2 in (s.nz(x) for x in s.ges):
                    if at2 & set(to_lin(g2)[1]) and rng(sub(r, g2), s)[0] >= 0:
                        return True
        return False

    def discr_values(s, t):
        """Possible values of a ('op','discr',(name, table)) term."""
        name, table = t[2]
        p = s.vars.get(name)
        return {d for i, d in table if p is None or i in p}

    def eq0(s, t):
        t = s.nz(t)
        if is_c(t): return t[1] == 0
        c, d = to_lin(t)
        if len(d) == 1:
            (x, k), = d.items()
            if x[0] == "op" and x[1] == "discr" and k in (1, -1):
                vs = s.discr_values(x)
                if -c * k not in vs: return False
                return True if len(vs) == 1 else None
        lo, hi = rng(t, s)
        if lo > 0 or hi < 0: return False
        if (t in s.nes) or (neg(t) in s.nes): return False
        c, d = to_lin(t)
        if len(d) == 1:
            (x, k), = d.items()
            if k in (1, -1):
                v = -c * k
                a, b = rng(x, s)
                if v < a or v > b: return False
                if (x, v) in s.nes: return False
                # bitwise contradiction
                if v >= 0 and x[0] in ("bits", "a", "op"):
                    n = min(64, max(v.bit_length(), 8 if x[0] != "bits" else len(x[1])))
                    for i in range(n):
                        e = bitval(bit_of(x, i), s)
                        if e is not None and e != ((v >> i) & 1): return False
        for g in s.nes:
            if g[0] not in ("c", "a", "lin", "bits", "op"): continue
            if s.nz(g) in (t, neg(t)): return False
        if s._ent(sub(t, C(1))) or s._ent(sub(neg(t), C(1))): return False
        if s.ges and s._ent(t) and s._ent(neg(t)): return True
        return None

    def decide(s, b):
        if b is True or b is False: return b
        h = b[0]
        if h == "at" or h == "seq" or h == "utf8":
            return s.bools.get(b)
        if h == "ge": return s.ge0(b[1])
        if h == "eq": return s.eq0(b[1])
        if h == "bit":
            v = bitval(b[1], s)
            return None if v is None else bool(v)
        if h == "not":
            v = s.decide(b[1])
            return None if v is None else not v
        if h == "and":
            if b in s.bools: return s.bools[b]
            vs = [s.decide(x) for x in b[1]]
            if any(v is False for v in vs): return False
            if all(v is True for v in vs): return True
            return None
        if h == "or":
            if b in s.bools: return s.bools[b]
            vs = [s.decide(x) for x in b[1]]
            if any(v is True for v in vs): return True
            if all(v is False for v in vs): return False
            return None
        if h == "var":
            p = s.vars.get(b[1])
            if p is None: return None
            if p <= b[2]: return True
            if not (p & b[2]): return False
            return None
        raise AssertionError(b)

    # -- assumption: False when contradictory
    def assume(s, b):
        v = s.decide(b)
        if v is not None: return v
        h = b[0]
        if h == "not":
            x = b[1]
            if x[0] in ("at", "seq", "utf8"):
                s.bools[x] = False
            elif x[0] == "eq":
                s._ne(s.nz(x[1]))
            elif x[0] == "bit":
                if not s._setbit(x[1], 0): return False
            elif x[0] == "var":
                raise AssertionError("negated variant set")
            else:
                raise AssertionError(b)
        elif h in ("at", "seq", "utf8"):
            s.bools[b] = True
        elif h == "ge":
            if not s._ge(s.nz(b[1])): return False
        elif h == "eq":
            if not s._eq(s.nz(b[1])): return False
        elif h == "bit":
            if not s._setbit(b[1], 1): return False
        elif h == "and":
            for x in b[1]:
                if s.assume(x) is False: return False
        elif h == "or":
            s.clauses += (b,)
        elif h == "var":
            p = s.vars.get(b[1])
            s.vars[b[1]] = b[2] if p is None else (p & b[2])
            if not s.vars[b[1]]: return False
        else:
            raise AssertionError(b)
        return s._propagate()

    def _propagate(s):
        changed = True
        while changed and s.clauses:
            changed = False
            cl = s.clauses
            s.clauses = ()
            keep = []
            for i, c in enumerate(cl):
                live = []
                sat = False
                for x in c[1]:
                    v = s.decide(x)
                    if v is True:
                        sat = True
                        break
                    if v is None: live.append(x)
                if sat: continue
                if not live: return False
                if len(live) == 1:
                    if s.assume(live[0]) is False: return False
                    changed = True
                else:
                    keep.append(("or", tuple(live)))
            s.clauses = tuple(keep) + tuple(x for x in s.clauses if x not in keep)
        return True

    def _setbit(s, b, v):
        h = b[0]
        if h == "!": return s._setbit(b[1], 1 - v)
        if h == "?":
            return s.assume(b[1] if v else NOT(b[1])) is not False
        if h == "&":
            if v == 1:
                return s._setbit(b[1], 1) and s._setbit(b[2], 1)
            x, y = bitval(b[1], s), bitval(b[2], s)
            if x == 1: return s._setbit(b[2], 0)
            if y == 1: return s._setbit(b[1], 0)
            s.clauses += (("or", (NOT(BIT(b[1])), NOT(BIT(b[2])))),)
            return True
        if h == "^":
            x, y = bitval(b[1], s), bitval(b[2], s)
            if x is not None: return s._setbit(b[2], v ^ x)
            if y is not None: return s._setbit(b[1], v ^ y)
            return True
        b2 = simp_bit(b, s)
        if b2 in (0, 1): return b2 == v
        if b2 != b: return s._setbit(b2, v)
        s.bits[b] = v
        return True

    def _tight(s, t, lo, hi):
        a, b = rng(t, s)
        lo, hi = max(a, lo), min(b, hi)
        if s.nes:
            while lo <= hi and (t, lo) in s.nes: lo += 1
            while lo <= hi and (t, hi) in s.nes: hi -= 1
        if lo > hi: return False
        s.iv[t] = (lo, hi)
        if t[0] == "bits" and (lo, hi) != (a, b): return s._slice(t[1], lo, hi)
        return True

    def _slice(s, bs, lo, hi):
        """Bits of one number, side by side, bound that number."""
        n = len(bs)
        while n and bs[n - 1] == 0: n -= 1
        if not n or not isinstance(bs[0], tuple) or len(bs[0]) != 2 or not isinstance(bs[0][0], tuple): return True
        x, at = bs[0]
        if not isinstance(at, int) or bs[:n] != tuple((x, at + i) for i in range(n)): return True
        a, b = rng(x, s)
        if a < 0: return True
        if lo > 0 and (lo << at) > a and not s._ge(s.nz(sub(x, C(lo << at)))): return False
        top = ((hi + 1) << at) - 1
        if b < (1 << (at + n)) and top < b and not s._ge(s.nz(sub(C(top), x))): return False
        return True

    def _ge(s, t):
        c, d = to_lin(t)
        if len(d) == 1:
            (x, k), = d.items()
            if k == 1: 
                if not s._tight(x, -c, float("inf") if False else rng(x, s)[1]): return False
                return True
            if k == -1:
                return s._tight(x, rng(x, s)[0], c)
        if s._ent(neg(t)): return s._eq(t)
        if t not in s.ges:
            s.ges += (t,)
        if c <= 0 and len(d) <= 2:
            # n*(w - k) >= -c with n > 0
            for x, z in d.items():
                if x[0] == "op" and x[1] == "mul" and z in (1, -1):
                    rest = [i for i in d.items() if i[0] != x]
                    for n, w in (x[2], x[2][::-1]):
                        if all(i[0] == n for i in rest) and rng(n, s)[0] > 0:
                            k = rest[0][1] if rest else 0
                            if not s._ge(s.nz(add(scale(w, z), C(k - (1 if c < 0 else 0))))): return False
                            break
        if c > 0 and len(d) <= 3:
            # n*p >= -c with n > 0: p >= -(c/n), and n <= c when p is negative
            for n, p in factored(d):
                if rng(n, s)[0] > 0:
                    if not s._ge(s.nz(add(p, C(c // rng(n, s)[0])))): return False
                    if rng(p, s)[1] < 0 or s._ent(sub(C(-1), p)):
                        if not s._ge(sub(C(c), n)): return False
        u = unpack(t)
        if u != t and u not in s.ges:
            s.ges += (u,)
            # k*x + r >= 0 with r < k: x >= 0
            c, d = to_lin(u)
            k = max(abs(z) for z in d.values())
            big = {x: z // k for x, z in d.items() if z % k == 0}
            if k > 2 and len(big) < len(d):
                hi = rng(mk_lin(c, {x: z for x, z in d.items() if z % k}), s)[1]
                return s._ge(s.nz(add(mk_lin(0, big), C(hi // k))))
        return True

    def _ne(s, t):
        c, d = to_lin(t)
        if len(d) == 1:
            (x, k), = d.items()
            if k in (1, -1):
                v = -c * k
                if x[0] == "op" and x[1] == "discr":
                    name, table = x[2]
                    p = s.vars.get(name)
                    s.vars[name] = frozenset(i for i, dv in table if dv != v and (p is None or i in p))
                    return
                a, b = rng(x, s)
                if v == a: s._tight(x, a + 1, b)
                elif v == b: s._tight(x, a, b - 1)
                s.nes |= {(x, v)}
                return
        s.nes |= {t}
        # strengthen known inequalities
        g1 = t if t in s.ges else (neg(t) if neg(t) in s.ges else None)
        if g1 is None and len(d) <= 4: g1 = t if s._ent(t) else neg(t) if s._ent(neg(t)) else None
        if g1 is not None:
            s.ges += (sub(g1, C(1)),)

    def _eq(s, t):
        c, d = to_lin(t)
        if len(d) > 1:
            # x*y = k*x with x > 0
            for x, k in d.items():
                if x[0] == "op" and x[1] == "mul" and k in (1, -1) and len(d) == 2 and c == 0:
                    (z, j), = [i for i in d.items() if i[0] != x]
                    for p, q in (x[2], x[2][::-1]):
                        if p == z and rng(z, s)[0] > 0: return s._eq(s.nz(add(q, C(j * k))))
            if c and len(d) <= 3:
                # n*p = -c with n > 0: neither is further from zero than c, and p has the sign of -c
                for n, p in factored(d):
                    if rng(n, s)[0] > 0:
                        p1 = p if c < 0 else neg(p)
                        if any(not s._ge(s.nz(g)) for g in (sub(p1, C(1)), sub(C(abs(c) // rng(n, s)[0]), p1), sub(C(abs(c)), n))): return False
                t = s.nz(t)
                c, d = to_lin(t)
                if not d: return c == 0
            u = unpack(t)
            if u != t: s.ges += tuple(x for x in (u, neg(u)) if x not in s.ges)
        if len(d) == 1:
            (x, k), = d.items()
            if k in (1, -1):
                v = -c * k
                if x[0] == "op" and x[1] == "discr":
                    name, table = x[2]
                    p = s.vars.get(name)
                    s.vars[name] = frozenset(i for i, dv in table if dv == v and (p is None or i in p))
                    return bool(s.vars[name])
                if x[0] == "bits":
                    for i, e in enumerate(x[1]):
                        if e in (0, 1): continue
                        if not s._setbit(e, (v >> i) & 1): return False
                    s.iv[x] = (v, v)
                    return True
                s.pins[x] = C(v)
                return True
        # solve for one atom with a unit coefficient
        best = None
        for x, k in d.items():
            if k in (1, -1) and x[0] in ("a", "op"):
                rest = scale(sub(t, scale(x, k)), -k)
                if x in atoms_in(rest): continue
                key = (x[0] == "op", repr(x))
                if best is None or key > best[0]:
                    best = (key, x, rest)
        if best is None:
            for x, k in d.items():
                if k in (1, -1):
                    rest = scale(sub(t, scale(x, k)), -k)
                    if x not in atoms_in(rest) and x != rest:
                        best = (None, x, rest)
                        break
        if best is None:
            s.ges += (t, neg(t))
            return True
        _, x, rest = best
        lo, hi = rng(x, s)
        s.pins[x] = rest
        # the eliminated atom's range constrains what it stands for
        if is_c(rest):
            return lo <= rest[1] <= hi
        a, b = rng(rest, s)
        if a < lo: 
            if not s._ge(s.nz(sub(rest, C(lo)))): return False
        if b > hi:
            if not s._ge(s.nz(sub(C(hi), rest))): return False
        return True

    def empty(s):
        """Do the facts contradict each other plainly?"""
        for g in s.ges:
            if rng(s.nz(g), s)[1] < 0: return True
        for n in s.nes:
            if isinstance(n[0], str) and s.nz(n) == C(0): return True
        return any(s.decide(c) is False for c in s.clauses)

    def facts_key(s):
        return (frozenset(s.iv.items()), frozenset(s.pins.items()), frozenset(s.bits.items()),
                frozenset(s.bools.items()), frozenset(s.ges), s.nes, frozenset(s.vars.items()), s.clauses)
