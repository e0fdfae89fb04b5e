"""Checks over the whole interface: C28 (sharing and immutability), C29 (append only, no effects)."""
from lib import *
from checks_codec import assume_all, built, cname, inputs, join, panic_at, variant_index
from frames import *
import re

CHECKS = {}


def check(pid, rule):
    def deco(f):
        CHECKS[pid] = (f, rule)
        return f
    return deco


# ------------------------------------------------------------------ C28
CELLS = re.compile(r"^(core::cell::|core::sync::atomic::|std::sync::|alloc::sync::UniqueArc|parking_lot|lock_api|once_cell|tokio::sync::|dashmap|crossbeam|arc_swap|std::thread::)")
# Handles to shared bytes; the bytes themselves never change (documented contract of the bytes crate).
SHARED_BYTES = ("bytes::bytes::Bytes",)


def parts_of(d, i, seen, way):
    """(type index, way there) of everything a value of the type owns."""
    if i in seen: return
    seen.add(i)
    t = d.types[i]
    yield i, way
    k = t["k"]
    nxt = []
    if k == "adt":
        if t.get("path") in SHARED_BYTES: return
        if t["local"]:
            for v in t["variants"]:
                for f in v["fields"]: nxt.append((f["ty"], way + "." + f["name"]))
        else:
            for a in t["args"]: nxt.append((a, way + " -> " + t["s"]))
    elif k == "tuple": nxt = [(a, way) for a in t["elems"]]
    elif k in ("array", "slice"): nxt = [(t["elem"], way)]
    elif k in ("ref", "ptr"): nxt = [(t["to"], way)]
    for a, w in nxt: yield from parts_of(d, a, seen, w)


def under_mut(d, i, names, depth=0):
    """Does the type give exclusive access to one of the named types: &mut T, &mut [T], &mut Option<T>, ..."""
    t = d.types[i]
    if depth > 6: return None
    if t["k"] in ("ref", "ptr") and t.get("mut"):
        for j, _ in owned(d, t["to"], set()):
            if d.types[j].get("path") in names: return d.types[j]["path"]
    for j in below(t):
        r = under_mut(d, j, names, depth + 1)
        if r: return r
    return None


def below(t):
    k = t["k"]
    if k == "adt": return t["args"]
    if k == "tuple": return t["elems"]
    if k in ("array", "slice"): return [t["elem"]]
    if k in ("ref", "ptr"): return [t["to"]]
    return []


def owned(d, i, seen):
    """The type and the types it is spelt with (not the fields of named types)."""
    if i in seen: return
    seen.add(i)
    yield i, None
    t = d.types[i]
    if t["k"] in ("ref", "ptr") and not t.get("mut"): return
    for j in below(t): yield from owned(d, j, seen)


def any_mut(d, i, depth=0):
    t = d.types[i]
    if depth > 6: return False
    if t["k"] in ("ref", "ptr") and t.get("mut"): return True
    return any(any_mut(d, j, depth + 1) for j in below(t))


@check("C28", "Auto-trait, lifetime and freeze facts of every type the crate exposes, as the compiler computes them; every field, receiver and parameter of the public "
       "interface of frames, payloads and versions that would give write access; every unsafe block, function and impl whose text is in the crate.")
def c28(ctx):
    for m in ctx.each():
        d = m.d
        con = "public types"
        adts = d.adts
        for p, a in sorted(adts.items()):
            if not a["reachable"]: continue
            t = d.types[a["ty"]]
            if any(d.types[x]["k"] == "param" for x in t["args"]):
                ctx.notes.append("%s is generic: what it is depends on its parameters" % p)
                continue
            for k, what in (("send", "sent to another thread (Send)"), ("sync", "shared between threads (Sync)")):
                ctx.count(k)
                if not a[k]: ctx.violate(m, p, "thread safety", "%s (%s) cannot be %s%s" % (p, a["at"], what, blame(d, a["ty"], k)))
            ctx.count("owns what it holds")
            if a["lifetimes"]: ctx.violate(m, p, "owns what it holds", "%s (%s) has a lifetime parameter: it holds borrowed data" % (p, a["at"]))
        # values that do not change
        values = {}
        for sp in FRAMES: values[m.adt(sp["ty"])] = sp["ty"]
        for n in ("Frame", "Payload", "Version"): values[m.adt(n)] = n
        for p, n in sorted(values.items()):
            t = d.types[adts[p]["ty"]]
            ctx.count("no interior mutability")
            for i, way in parts_of(d, adts[p]["ty"], set(), n):
                u_ = d.types[i]
                q = u_.get("path", "")
                if u_["k"] == "adt" and CELLS.match(q):
                    ctx.violate(m, p, "no interior mutability", "%s holds a %s: a shared value can change" % (way, u_["s"]))
                elif u_["k"] == "ptr" or u_["k"] == "ref" and u_.get("mut"):
                    ctx.violate(m, p, "no interior mutability", "%s holds a %s: what it points to can change" % (way, u_["s"]))
                elif u_["k"] in ("dyn", "fnptr", "closure", "coroutine"):
                    ctx.undecided(m, p, "%s holds a %s" % (way, u_["s"]))
            if t["kind"] == "struct":
                ctx.count("no public fields", len(t["variants"][0]["fields"]))
                for f in t["variants"][0]["fields"]:
                    if f["pub"]: ctx.violate(m, p, "no public fields", "field %s of %s is public: a value can be altered after it is built" % (f["name"], p))
        names = set(values)
        for f in d.fns:
            if not f.get("reachable") or f.get("closure"): continue
            ctx.count("no write access through the public interface")
            if f.get("name") == "clone_from": continue  # assignment of a whole value
            for i in f.get("ins", []):
                w = under_mut(d, i, names)
                if w:
                    ctx.violate(m, f["path"], "no write access through the public interface", "%s (%s) takes %s: a value can be altered after it is built" % (f["path"], f["at"], d.types[i]["s"]))
            me = f.get("self")
            if me is not None and d.types[me].get("path") in names and any_mut(d, f["out"]):
                ctx.violate(m, f["path"], "no write access through the public interface", "%s (%s) returns %s" % (f["path"], f["at"], d.types[f["out"]]["s"]))
        # unsafe code
        ctx.count("no unsafe code", len(d.d["unsafe_blocks"]) + len(d.fns) + len(d.d["impls"]))
        for x in d.d["unsafe_blocks"]:
            if x["own"]: ctx.violate(m, x["in"], "no unsafe code", "unsafe block in %s (%s)" % (x["in"], x["at"]))
        for f in d.fns:
            if f.get("unsafe") and f.get("own"): ctx.violate(m, f["path"], "no unsafe code", "unsafe function %s (%s)" % (f["path"], f["at"]))
        for x in d.d["impls"]:
            if x.get("unsafe") and x["own"] and not x.get("negative"): ctx.violate(m, x["selfs"], "no unsafe code", "unsafe impl %s for %s (%s)" % (x["trait"], x["selfs"], x["at"]))
        ctx.parts += 1


def blame(d, i, k):
    """The part of a type that takes its thread safety away, when it is easy to name."""
    bad = ("alloc::rc::", "core::cell::", "std::sync::MutexGuard") if k == "sync" else ("alloc::rc::", "std::sync::MutexGuard")
    for j, way in parts_of(d, i, set(), d.types[i]["s"]):
        t = d.types[j]
        if t["k"] in ("ptr", "dyn") or t.get("path", "").startswith(bad): return ": %s holds a %s" % (way, t["s"])
    return ""


# ------------------------------------------------------------------ C29
EFFECTS = [(re.compile(r), w) for r, w in (
    (r"^std::time::(Instant|SystemTime)", "reads the clock"),
    (r"^std::env::", "reads the environment"),
    (r"^std::(fs|net|process|os)::", "performs I/O"),
    (r"^std::io::stdio::|^std::io::(stdin|stdout|stderr|copy)", "performs I/O"),
    (r"^std::thread::|^std::sys::thread_local", "depends on threads"),
    (r"^std::sync::(poison::)?(mutex|rwlock|barrier|mpsc|condvar)", "depends on threads"),
    (r"^core::sync::atomic::(Atomic|fence|compiler_fence)", "uses shared state"),
    (r"^(rand|getrandom|fastrand)(::|_)", "is random"),
    (r"^std::hash::random::|^std::collections::hash::map::RandomState", "is random"),
    (r"^tokio::", "uses the runtime"),
    (r"^parking_lot|^dashmap::", "uses shared state"),
    (r"^core::ptr::.*::(addr|expose_provenance)$", "depends on where values are in memory"),
)]
LAZY = re.compile(r"OnceLock|LazyLock|OnceCell|LazyCell|Lazy<")


def bare(p):
    """A path without the brackets and references of an impl header."""
    return p.lstrip("<&").replace("mut ", "")


class Graph:
    """What the bodies reachable from the codec's entry points call and mention."""

    def __init__(self, m, roots):
        self.m, d = m, m.d
        self.roots = roots
        self.parent = {i: None for i in roots}
        todo = list(roots)
        self.uses = []  # (body, kind, thing, at)
        closures = {}
        for b in d.bodies:
            if b: closures.setdefault(b["path"], []).append(b["id"])
        while todo:
            i = todo.pop()
            b = d.bodies[i]
            for kind, x, at in things(d, b):
                self.uses.append((i, kind, x, at))
                nxt = []
                if kind == "call" and x.get("inst") is not None: nxt = [x["inst"]]
                if kind == "closure": nxt = closures.get(x, [])
                for n in nxt:
                    if n not in self.parent and d.bodies[n]:
                        self.parent[n] = i
                        todo.append(n)

    def way(self, i):
        r = []
        while i is not None:
            r.append(self.m.d.bodies[i]["path"])
            i = self.parent[i]
        return " <- ".join(r)


def things(d, b):
    """Callees, closures, statics, thread locals and address reads of a body."""
    out = []

    def walk(x, at):
        if isinstance(x, dict):
            at = x.get("at", at)
            c = x.get("callee")
            if isinstance(c, dict): out.append(("call", c, at))
            if x.get("c") == "static": out.append(("static", x, at))
            if x.get("r") == "tls": out.append(("tls", x["path"], at))
            if x.get("r") == "cast" and x.get("kind") == "PointerExposeProvenance": out.append(("addr", None, at))
            if x.get("r") == "agg":
                t = x.get("ty")
                if isinstance(t, int) and d.types[t]["k"] == "closure": out.append(("closure", d.types[t]["path"], at))
            for y in x.values(): walk(y, at)
        elif isinstance(x, list):
            for y in x: walk(y, at)
    walk(b["blocks"], None)
    return out


def codec_roots(m):
    """Every Encode impl, its provided methods, and Frame::decode."""
    r = []
    for f in m.d.fns:
        if f.get("inst") is None: continue
        tr = (f.get("trait") or f.get("intrait") or "").split("<")[0].split("::")[-1]
        if tr in ("Encode", "Decode"): r.append(f["inst"])
    r.append(m.method("Frame", "decode")["inst"])
    return sorted(set(r))


def all_reached(d, g, x, p):
    """Is every implementation of the library's own trait method among the bodies looked at?"""
    tr = x.get("trait") or ""
    if not tr.startswith("binate"): return False
    fs = [f for f in d.fns if f.get("name") == p.split("::")[-1] and (f.get("trait") or f.get("intrait") or "").split("<")[0] == tr]
    return bool(fs) and all(f.get("inst") in g.parent for f in fs if f.get("inst") is not None)


def effects(ctx, m):
    d = m.d
    roots = codec_roots(m)
    g = Graph(m, roots)
    ctx.functions |= {d.bodies[i]["path"] for i in g.parent}
    frozen = {s["path"]: s for s in d.d["statics"]}
    ctx.count("depends on nothing but its arguments", len(g.uses))
    ctx.notes.append("%s: %d bodies reachable from %d entry points, %d calls and mentions" % (m.cfg, len(g.parent), len(roots), len(g.uses)))
    rule = "depends on nothing but its arguments"
    for i, kind, x, at in g.uses:
        b = d.bodies[i]
        own = b["local"]
        if kind == "call":
            if not own: continue
            p = bare(x.get("rpath") or x["path"])
            for r, w in EFFECTS:
                if r.search(p): ctx.violate(m, b["path"], rule, "%s %s: calls %s at %s (%s)" % (b["path"], w, p, at, g.way(i)))
            if x.get("kind") == "virtual" and not all_reached(d, g, x, p): ctx.undecided(m, b["path"], "a call through a trait object at %s: %s" % (at, p))
        elif kind == "static" and own:
            s = frozen.get(x["path"])
            if s is None:
                ctx.undecided(m, b["path"], "mentions the static %s" % x["path"])
            elif s["mut"] or not s["freeze"]:
                t = d.types[x["ty"]]["s"] if isinstance(x.get("ty"), int) else ""
                if LAZY.search(t) and not s["mut"]: ctx.undecided(m, b["path"], "uses %s, computed once" % x["path"])
                else: ctx.violate(m, b["path"], rule, "%s uses the global state %s at %s (%s)" % (b["path"], x["path"], at, g.way(i)))
        elif kind == "tls" and own:
            ctx.violate(m, b["path"], rule, "%s uses thread-local state at %s (%s)" % (b["path"], at, g.way(i)))
        elif kind == "addr" and own:
            ctx.violate(m, b["path"], rule, "%s turns an address into a number at %s (%s)" % (b["path"], at, g.way(i)))


def appends(ctx, m, b, sp, ty, label, st, value):
    """What cannot be followed for every previous content is followed for long ones, which may show a violation."""
    try: appends_to(ctx, m, b, sp, ty, label, st, value)
    except Undecided:
        st = st.copy()
        if assume_all(st, [EQ(len_in("prior"), C(3000))] + [LE(len_in(k), C(256)) for k in ("metadata", "data", "token", "mmime", "dmime")]): appends_to(ctx, m, b, sp, ty, label + ", after 3000 bytes", st, value)
        raise


def appends_to(ctx, m, b, sp, ty, label, st, value):
    """Encoding after arbitrary bytes gives those bytes, then what encoding into an empty buffer gives."""
    e = b.e
    f = m.need(ty, "Encode", "encode")
    for o, q, fr in b.encode(sp, value, st.copy(), prior=True, ty=ty):
        ctx.parts += 1
        outs = b.encode(sp, value, o.st.copy(), prior=False, ty=ty)
        for o2, q2, _ in outs:
            if (o.kind == "return") != (o2.kind == "return"):
                x, w = (o, "a buffer that holds something") if o.kind != "return" else (o2, "an empty buffer")
                ctx.violate(m, ty + "::encode", "does not depend on the buffer", "%s: panics only on %s: %s" % (label, w, panic_at(x)), facts(o2.st))
                continue
            if o.kind != "return": continue
            want = cat(bytes_in("prior"), q2)
            if ctx.expect(m, e, o2.st, ty + "::encode", "appends", q, want, label + ": the buffer afterwards") is not True: continue
        if o.kind != "return": continue
        ctx.expect(m, e, o.st, ty + "::encode", "leaves the value alone", e.rd(o.st, fr), value, label + ": the value afterwards")
        # once more into the same buffer
        buf = ref(e, o.st, q)
        fr = ref(e, o.st, value)
        for o3 in call(e, f, [fr, buf], o.st.copy()):
            if o3.kind != "return":
                ctx.violate(m, ty + "::encode", "does not depend on the buffer", "%s: encoding again panics: %s" % (label, panic_at(o3)), facts(o3.st))
                continue
            q3 = e.qnorm(e.as_q(e.rd(o3.st, buf), o3.st), o3.st)
            for o2, q2, _ in b.encode(sp, value, o3.st.copy(), prior=False, ty=ty):
                if o2.kind == "return": ctx.expect(m, e, o2.st, ty + "::encode", "the same bytes every time", q3, cat(cat(bytes_in("prior"), q2), q2), label + ": two encodings in a row")


def cat(a, b): return ("Q", a[1] + b[1])


@check("C29", "The buffer contents computed for each Encode impl from an arbitrary previous content, compared with that content followed by the encoding into an empty buffer; "
       "and an effect analysis of every body reachable from Encode and Frame::decode in the call graph.")
def c29(ctx):
    for m in ctx.each():
        effects(ctx, m)
        e = m.engine()
        b = Builder(m, e)
        for sp in FRAMES:
            for case, a, st, frame in built(ctx, m, b, sp):
                with ctx.ob(m, cname(sp, case), "only appends"):
                    appends(ctx, m, b, sp, sp["ty"], cname(sp, case), st, frame)
                    fr = ("A", m.tid("Frame"), variant_index(e, m.tid("Frame"), sp["variant"]), (frame,))
                    appends(ctx, m, b, sp, "Frame", "Frame::" + cname(sp, case), st, fr)
            for label, a, parts, st in inputs(b, sp):
                with ctx.ob(m, label, "only appends"):
                    for o, left in b.decode(join(e, st, parts), st):
                        if o.kind != "return": continue
                        r = b.ok_frame(o)
                        if r[0] == "ok": appends(ctx, m, b, None, "Frame", label + " (decoded)", o.st, r[3])
        for meta in (True, False):
            for data in (True, False):
                with ctx.ob(m, "Payload", "only appends"):
                    st, p = b.payload(State(), bytes_in("metadata") if meta else None, bytes_in("data") if data else None)
                    appends(ctx, m, b, None, "Payload", "Payload", st, p)
        with ctx.ob(m, "Version", "only appends"):
            st, v = b.version(State())
            appends(ctx, m, b, None, "Version", "Version", st, v)
        with ctx.ob(m, "U24", "only appends"):
            for o in call(e, m.method("U24", "from_u32"), [u("n", 32)], State()):
                if o.kind == "return": appends(ctx, m, b, None, "U24", "U24", o.st, o.val)
