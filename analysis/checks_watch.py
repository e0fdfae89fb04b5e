"""Checks of the session's watcher tasks: C27."""
from lib import *
import copy
from engine import qatom
from checks_codec import panic_at
from checks_session import check, CHECKS as _c, CONN, short

CHECKS = {}
NS = 1000000000
UNITS = {"core::time::Duration::as_" + n: k for n, k in (("nanos", 1), ("micros", 1000), ("millis", 10**6), ("secs", 10**9))}
SUBS = {"core::time::Duration::subsec_" + n: k for n, k in (("nanos", 1), ("micros", 1000), ("millis", 10**6))}
ARCH = (1 << 64) * NS       # durations reach u64::MAX seconds


# ------------------------------------------------------------------ coroutine bodies
def plain_body(b):
    """The coroutine's state machine, entered once at its start: what lives across awaits becomes ordinary locals, and a pending
    await is not taken (the task then goes on at that same await)."""
    b = copy.deepcopy(b)
    first = b["blocks"][0]
    alias = start = None
    for s in first["ss"]:
        if s["s"] == "=" and s["r"]["r"] == "discr": alias = s["r"]["p"][0]
    t = first["t"]
    if alias is None or t["t"] != "switch": raise Undecided("shape of a coroutine body")
    for v, to in t["ts"]:
        if v == 0: start = to
    if start is None: raise Undecided("shape of a coroutine body")
    first["ss"] = [s for s in first["ss"] if not (s["s"] == "=" and s["r"]["r"] == "discr")]
    first["t"] = {"t": "goto", "to": start, "at": t.get("at", "")}
    saved = {}

    def place(p):
        if p[0] == alias and len(p[1]) >= 3 and p[1][0] == "*" and isinstance(p[1][1], list) and p[1][1][0] == "d":
            f = p[1][2]
            k = (p[1][1][1], f[1])
            if k not in saved:
                saved[k] = len(b["locals"])
                b["locals"].append(f[2])
            p[0] = saved[k]
            p[1] = p[1][3:]

    def walk(x):
        if isinstance(x, dict):
            for k, y in x.items():
                if k in ("p", "dest") and isinstance(y, list) and len(y) == 2 and isinstance(y[0], int): place(y)
                else: walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    for blk in b["blocks"]:
        blk["ss"] = [s for s in blk["ss"] if s["s"] != "setdiscr"]
        walk(blk)
    # blocks that only the removed switch reached
    seen, work = set(), [0]
    while work:
        i = work.pop()
        if i in seen or i is None: continue
        seen.add(i)
        t = b["blocks"][i]["t"]
        for k in ("to", "else"):
            if isinstance(t.get(k), int): work.append(t[k])
        for _, y in t.get("ts", ()): work.append(y)
    for i, blk in enumerate(b["blocks"]):
        if i not in seen: blk["ss"], blk["t"] = [], {"t": "unreachable"}
    b["id"] = None
    return b


# ------------------------------------------------------------------ time
def ns(e, st, v):
    """Nanoseconds of a duration or an instant."""
    while v[0] == "R": v = e.rd(st, v)
    if v[0] == "X" and v[1] == "duration":
        k, t = v[2]
        return st.nz(scale(t, 1000000)) if k == "ms" else st.nz(t)
    if v[0] == "X" and v[1] == "instant": return st.nz(v[2])
    if v[0] == "S" and e.types[v[2]]["k"] == "adt" and e.types[v[2]]["path"] == "core::time::Duration": return ("a", ("ns", v[1]), 0, ARCH)
    if v[0] == "S" and e.types[v[2]]["k"] == "adt" and e.types[v[2]]["path"].endswith("::Instant"): return ("a", ("at", v[1]), 0, ARCH)
    raise Undecided("a time of unknown form")


def is_time(e, st, v):
    try:
        while v[0] == "R": v = e.rd(st, v)
    except Undecided: return False
    return v[0] == "X" and v[1] in ("duration", "instant") or v[0] == "S" and e.types[v[2]]["k"] == "adt" and e.types[v[2]]["path"].split("::")[-1] in ("Duration", "Instant")


def dur(t): return ("X", "duration", ("ns", t))


def now(e, st):
    n = e.fresh(st, "instant")
    t = ("a", ("instant", n), 0, ARCH)
    for i in range(n): st.assume(LE(("a", ("instant", i), 0, ARCH), t))
    st.events += (("now", t),)
    return t


def ret(st, v): return engine.Out("return", st, v)


def deep(e, st, v, depth=0):
    """A value with everything it points to in place of its pointers."""
    if depth > 12 or not isinstance(v, tuple): return v
    if len(v) == 3 and v[0] == "R" and isinstance(v[2], tuple):
        try: return ("&", deep(e, st, e.rd(st, v), depth + 1))
        except Undecided: return ("&", v)
    return tuple(deep(e, st, x, depth) for x in v)


def reach(v, pred): return pred(v) or isinstance(v, tuple) and any(reach(x, pred) for x in v)


class Tasks:
    """An engine that knows about tasks, timers, clocks and log events."""

    def __init__(self, m):
        self.m = m
        e = self.e = m.engine()
        e.bodies = list(e.bodies)
        e.keep_events = lambda s: ()
        e.repeat_first = True
        self.inst = {}
        o = e.overrides
        for k, f in (("tokio::task::spawn::spawn", self.spawn), ("tokio::time::instant::Instant::now", self.v_now),
                     ("tokio_stream::stream_ext::StreamExt::next", self.next), ("tracing_core::event::Event::<'a>::dispatch", self.report)):
            o[k] = f
        true = lambda e, st, c, a, s: [ret(st, ("B", True))]
        false = lambda e, st, c, a, s: [ret(st, ("B", False))]
        sym = lambda e, st, c, a, s: [ret(st, ("X", "log", c["path"]))]
        o["<tracing_core::metadata::Level as core::cmp::PartialOrd<tracing_core::metadata::LevelFilter>>::le"] = true
        o["tracing::__macro_support::MacroCallsite::is_enabled"] = true
        o["tracing_core::subscriber::Interest::is_never"] = false
        for k in ("tracing_core::metadata::LevelFilter::current", "tracing::__macro_support::MacroCallsite::interest", "tracing_core::metadata::Metadata::<'a>::fields",
                  "tracing_core::field::FieldSet::iter"):
            o[k] = sym
        o["<tracing::__macro_support::MacroCallsite as tracing_core::callsite::Callsite>::metadata"] = lambda e, st, c, a, s: [ret(st, ref(e, st, ("X", "log", "metadata")))]
        o["<tracing_core::field::Iter as core::iter::traits::iterator::Iterator>::next"] = lambda e, st, c, a, s: [ret(st, ("A", s["dty"], 1, (("X", "log", "field"),)))]
        o["tracing_core::field::FieldSet::value_set"] = lambda e, st, c, a, s: [ret(st, ("X", "values", a[1]))]
        for k in ("tracing_core::field::display", "tracing_core::field::debug"):
            o[k] = lambda e, st, c, a, s: [ret(st, ("X", "shown", a[0]))]
        for k in ("dashmap::DashMap::<K, V>::new", "dashmap::DashMap::<K, V>::default"): o[k] = lambda e, st, c, a, s: [ret(st, ("X", "store", ()))]
        for k in ("tokio::sync::rwlock::RwLock::<T>::new", "tokio::sync::mutex::Mutex::<T>::new", "std::sync::poison::mutex::Mutex::<T>::new"):
            o[k] = lambda e, st, c, a, s: [ret(st, ("X", "lock", a[0]))]
        for k in ("alloc::fmt::format", "alloc::fmt::format::format_inner", "<T as alloc::string::ToString>::to_string"): o[k] = self.text
        T = "tokio::time::instant::Instant"
        D = "core::time::Duration"
        o["<%s as core::clone::Clone>::clone" % T] = self.same
        o["<%s as core::clone::Clone>::clone" % D] = self.same
        for k in ("<%s as core::ops::arith::Sub>::sub" % T, T + "::duration_since", T + "::saturating_duration_since"): o[k] = self.since
        o[T + "::checked_duration_since"] = self.checked_since
        o[T + "::elapsed"] = self.elapsed
        for k in ("<%s as core::ops::arith::Add<%s>>::add" % (T, D), "<%s as core::ops::arith::Add>::add" % D): o[k] = self.plus
        o["%s::checked_add" % T] = self.checked_plus
        for k in ("%s::saturating_sub" % D,): o[k] = self.dur_sat_sub
        o["<%s as core::ops::arith::Mul<u32>>::mul" % D] = self.times
        o["<%s as core::ops::arith::Div<u32>>::div" % D] = self.part
        o["%s::is_zero" % D] = lambda e, st, c, a, s: [ret(st, ("B", EQ(ns(e, st, a[0]), C(0), st)))]
        for op, f in (("gt", lambda x, y: LT(y, x)), ("ge", lambda x, y: LE(y, x)), ("lt", LT), ("le", LE)):
            for k in ["core::cmp::PartialOrd::" + op] + ["<%s as core::cmp::PartialOrd>::%s" % (t, op) for t in (T, D)]: o[k] = self.compare(f)
        for k in ["<%s as core::cmp::%s>::%s" % (t, tr, n) for t in (T, D) for tr, n in (("PartialOrd", "partial_cmp"), ("Ord", "cmp"))]: o[k] = self.ordering
        for k in ["<%s as core::cmp::PartialEq>::eq" % t for t in (T, D)]:
            o[k] = lambda e, st, c, a, s: [ret(st, ("B", EQ(ns(e, st, a[0]), ns(e, st, a[1]), st)))]
        for k in ("core::cmp::Ord::min", "core::cmp::Ord::max", "core::cmp::min", "core::cmp::max"): o[k] = self.least(k.endswith("min"))
        old = e.apply_callee
        e.apply_callee = lambda ca, args, st, site: self.callee(old, ca, args, st, site)

    # -- models
    def same(self, e, st, c, a, s):
        v = a[0]
        while v[0] == "R": v = e.rd(st, v)
        return [ret(st, v)]

    def text(self, e, st, c, a, s): return [ret(st, qatom(("formatted", deep(e, st, a[0]))))]

    def v_now(self, e, st, c, a, s): return [ret(st, ("X", "instant", now(e, st)))]

    def since(self, e, st, c, a, s):
        x, y = ns(e, st, a[0]), ns(e, st, a[1])
        res = []
        for v, s2 in e.fork(st, LE(y, x)): res.append(ret(s2, dur(s2.nz(sub(x, y)) if v else C(0))))
        return res

    def checked_since(self, e, st, c, a, s):
        x, y = ns(e, st, a[0]), ns(e, st, a[1])
        return [ret(s2, ("A", s["dty"], 1, (dur(s2.nz(sub(x, y))),)) if v else ("A", s["dty"], 0, ())) for v, s2 in e.fork(st, LE(y, x))]

    def elapsed(self, e, st, c, a, s):
        y = ns(e, st, a[0])
        t = now(e, st)
        return self.since(e, st, c, [("X", "instant", t), ("X", "instant", y)], s)

    def plus(self, e, st, c, a, s):
        kind = a[0]
        while kind[0] == "R": kind = e.rd(st, kind)
        t = st.nz(add(ns(e, st, a[0]), ns(e, st, a[1])))
        isd = kind[0] == "X" and kind[1] == "duration" or kind[0] == "S" and e.types[kind[2]]["path"].endswith("Duration")
        return [ret(st, dur(t) if isd else ("X", "instant", t))]

    def checked_plus(self, e, st, c, a, s):
        v = self.plus(e, st, c, a, s)[0].val
        return [ret(st, ("A", s["dty"], 1, (v,)))]

    def dur_sat_sub(self, e, st, c, a, s): return self.since(e, st, c, a, s)

    def times(self, e, st, c, a, s):
        k = st.nz(e.as_int(a[1], st))
        if not is_c(k): raise Undecided("a duration times an unknown number")
        return [ret(st, dur(st.nz(scale(ns(e, st, a[0]), k[1]))))]

    def part(self, e, st, c, a, s):
        k = st.nz(e.as_int(a[1], st))
        if not is_c(k) or k[1] <= 0: raise Undecided("a duration divided by an unknown number")
        x = ns(e, st, a[0])
        t = st.nz(e.divrem(st, "Div", x, k, 128))
        st.assume(LE(scale(t, k[1]), x))
        return [ret(st, dur(t))]

    def compare(self, f):
        def g(e, st, c, a, s):
            if not (is_time(e, st, a[0]) and is_time(e, st, a[1])): return None
            return [ret(st, ("B", f(ns(e, st, a[0]), ns(e, st, a[1]))))]
        return g

    def least(self, mn):
        def g(e, st, c, a, s):
            if not (is_time(e, st, a[0]) and is_time(e, st, a[1])): return None
            return [ret(s2, a[0] if v == mn else a[1]) for v, s2 in e.fork(st, LE(ns(e, st, a[0]), ns(e, st, a[1])))]
        return g

    def ordering(self, e, st, c, a, s):
        x, y = ns(e, st, a[0]), ns(e, st, a[1])
        res = []
        t = e.types[s["dty"]]
        opt = t["path"] == "core::option::Option"
        o = t["args"][0] if opt else s["dty"]
        for v, s2 in e.fork(st, LT(x, y)):
            for w, s3 in ([(None, s2)] if v else e.fork(s2, EQ(x, y, s2))):
                r = ("A", o, 0 if v else 1 if w else 2, ())
                res.append(ret(s3, ("A", s["dty"], 1, (r,)) if opt else r))
        return res

    def spawn(self, e, st, c, a, s):
        st.events += (("spawn", a[0]),)
        return [ret(st, ("X", "handle", ()))]

    def next(self, e, st, c, a, s): return [ret(st, ("X", "next", a[0]))]

    def report(self, e, st, c, a, s):
        st.events += (("report", deep(e, st, a[1])),)
        return [ret(st, ("A", s["dty"], 0, ()))]

    def callee(self, old, ca, args, st, site):
        e, c = self.e, ca.j
        name = c.get("rpath") or c["path"]
        if name in UNITS and is_time(e, st, args[0]):
            return [ret(st, ("I", st.nz(e.divrem(st, "Div", ns(e, st, args[0]), C(UNITS[name]), 128))))]
        if name in SUBS and is_time(e, st, args[0]):
            rest = e.divrem(st, "Rem", ns(e, st, args[0]), C(10**9), 128)
            return [ret(st, ("I", st.nz(e.divrem(st, "Div", rest, C(SUBS[name]), 128))))]
        if name.startswith("core::time::Duration::as_") or name.startswith("core::time::Duration::subsec_"): raise Undecided("a time turned into a number")
        if name.startswith("tokio::time::"):
            last = name.split("::")[-1]
            if last in ("sleep", "sleep_until", "interval", "interval_at") and ">" not in name:
                return [ret(st, ("X", "timer", (last, args[-1])))]
            if name == "tokio::time::interval::Interval::tick": return [ret(st, ("X", "tick", e.rd(st, args[0])[2]))]
            if last in ("set_missed_tick_behavior",): return [ret(st, ("A", site["dty"], 0, ()))]
        if name == "tokio::task::yield_now::yield_now": return [ret(st, ("X", "yield"))]
        if "tokio::sync::" in name:
            r = self.lock_call(name, args, st, site)
            if r is not None: return r
        if name.endswith("::poll") and len(args) == 2 and (c.get("trait") or "").endswith("future::Future") or c["path"] == "core::future::future::Future::poll":
            return self.poll(args, st, site)
        return old(ca, args, st, site)

    def lock_call(self, name, args, st, site):
        """A lock gives access to what lies behind it: at once, after an await, or perhaps."""
        e, last = self.e, name.split("::")[-1]
        if "Guard" in name and last in ("deref", "deref_mut"):
            g = e.rd(st, args[0])
            return [ret(st, g[2])] if g[0] == "X" and g[1] == "guard" else None
        if "RwLock::<T>::" not in name and "Mutex::<T>::" not in name: return None
        lock = args[0]
        for _ in range(4):
            if lock[0] != "R": return None
            w = e.rd(st, lock)
            if w[0] != "R": break
            lock = w
        w = e.rd(st, lock)
        if w[0] != "X" or w[1] != "lock" or w[2][0] != "R": return None
        if last in ("write", "read", "lock"): return [ret(st, ("X", "acquire", w[2]))]
        if last in ("blocking_write", "blocking_read", "blocking_lock"): return [ret(st, ("X", "guard", w[2]))]
        if last in ("try_write", "try_read", "try_lock"):
            st2 = st.copy()
            t = e.types[site["dty"]]
            return [ret(st, ("A", site["dty"], 0, (("X", "guard", w[2]),))), ret(st2, ("A", site["dty"], 1, (e.mksym(("in", "lock is taken"), t["args"][1]),)))]
        return None

    def target(self, st, v):
        """The future behind pins, boxes and references."""
        e = self.e
        at = v
        for _ in range(8):
            if v[0] == "A" and v[1] is not None and e.types[v[1]].get("path", "").endswith("pin::Pin"): v = v[3][0]
            elif v[0] == "R" and v[1][0] != "cval": at, v = v, e.rd(st, v)
            else: break
        return at, v

    def poll(self, args, st, site):
        e = self.e
        at, v = self.target(st, args[0])
        t = e.types[site["dty"]]
        if t.get("path", "").split("::")[-1] != "Poll": raise Undecided("what a poll returns")
        if v[0] == "X" and v[1] == "coroutine":
            return self.resume(v, st, site["dty"])
        if v == ("X", "yield"): return [ret(st, ("A", site["dty"], 0, (("A", t["args"][0], 0, ()),)))]
        n = e.fresh(st, "polled")
        st.events += (("poll", n, deep(e, st, v)),)
        if v[0] == "X" and v[1] in ("timer", "tick"):
            return [ret(st, ("A", site["dty"], 0, (e.mksym(("polled", n), t["args"][0]),)))]
        if v[0] == "X" and v[1] == "acquire":
            return [ret(st, ("A", site["dty"], 0, (("X", "guard", v[2]),)))]
        if v[0] == "X" and v[1] == "next":
            return [ret(st, ("A", site["dty"], 0, (e.mksym(("polled", n), t["args"][0]),)))]
        raise Undecided("awaits something unknown")

    # -- running a task
    def body(self, ty):
        e = self.e
        if ty in self.inst: return self.inst[ty]
        path = e.types[ty].get("path")
        bs = [b for b in e.d.coroutines if b["path"] == path]
        if not bs: raise Undecided("no body of task %s" % path)
        if len(bs) > 1: raise Undecided("which body of task %s" % path)
        b = plain_body(bs[0])
        b["id"] = len(e.bodies)
        e.bodies.append(b)
        self.inst[ty] = b["id"]
        return b["id"]

    def resume(self, v, st, pty=None):
        """Outcomes of a task run to its end; values are Poll::Ready."""
        e = self.e
        ty, ups = v[2]
        i = self.body(ty)
        b = e.bodies[i]
        cell = e.newcell(st, ("A", ty, 0, tuple(ups)))
        pin = ("A", b["locals"][1], 0, (("R", cell, ()),))
        outs = e.call_inst(i, [pin, e.mksym(("in", "context"), b["locals"][2])], st)
        # a pending await goes on later at the same place
        return [o for o in outs if not (o.kind == "return" and o.val[0] == "A" and o.val[2] == 1)]


def started(T, m):
    """(state, tasks spawned, session) for every way through RSocketMachine::new."""
    e = T.e
    f = m.method("RSocketMachine", "new")
    b = e.bodies[f["inst"]]
    names = {}
    for i, t in enumerate(b["locals"][1:b["argc"] + 1]): names[i] = t
    args = [e.mksym(("in", "argument %d" % (i + 1)), t) for i, t in names.items()]
    st = State()
    at = [a for i, a in enumerate(args) if e.types[names[i]].get("path") == "core::time::Duration"]
    if len(at) != 1: raise Undecided("which argument is the keepalive timeout")
    limit = ns(e, st, at[0])
    res = []
    for o in call(e, f, args, st):
        if o.kind == "return" and o.val[0] == "X" and o.val[1] == "coroutine":
            for o2 in T.resume(o.val, o.st): res.append(o2)
        else: res.append(o)
    return limit, res


def describe(st):
    n = {"report": "reports", "now": "reads the clock", "poll": "awaits", "spawn": "starts a task"}
    return ", ".join(short(ev[1]) + "()" if ev[0] == "call" else n.get(ev[0], ev[0]) for ev in st.events)[:300] or "does nothing"


def calls(evs, name): return [ev for ev in evs if ev[0] == "call" and ev[1] == CONN + name]


def reports(evs): return [ev for ev in evs if ev[0] == "report"]


def run_task(T, v, st):
    """Every iteration and end of a task: (entries, backs, ends)."""
    e = T.e
    e.loops.clear()
    st = st.copy()
    st.events = ()
    outs = T.resume(v, st)
    return list(e.loops), outs


class Watch:
    """The tasks RSocketMachine::new starts, followed from every state they are started in."""

    def __init__(self, ctx, m):
        self.T = Tasks(m)
        self.e = self.T.e
        self.limit, self.news = started(self.T, m)

    def tasks(self, o): return [ev[1] for ev in o.st.events if ev[0] == "spawn"]


@check("C27", "Path analysis of the tasks the session starts (their state machines, every iteration of their loops from every state at its head): each iteration that awaits "
       "the connection's status makes exactly one report for Closed and Error and none otherwise, from the one subscription of the task, which ends only with the stream; each round of "
       "the keepalive task waits at most the timeout and goes on only when the time since the last arrival is at most the timeout; otherwise it reports, closes and ends.")
def c27(ctx):
    for m in ctx.each():
        con = "RSocketMachine::new"
        with ctx.ob(m, con, "starts the watchers"):
            W = Watch(ctx, m)
            for o in W.news:
                ctx.parts += 1
                if o.kind != "return":
                    ctx.violate(m, con, "starts the watchers", "panics: %s" % panic_at(o), facts(o.st))
                    continue
                kinds, other = [], 0
                for v in W.tasks(o):
                    loops, outs = run_task(W.T, v, o.st)
                    evs = [ev for l in loops for b in l["backs"] + [l["entry"]] for ev in b.events] + [ev for x in outs for ev in x.st.events]
                    name = "task " + W.e.types[v[2][0]]["path"].split("::", 3)[-1] if v[0] == "X" else "task"
                    if calls(evs, "connection_status") or any(ev[0] == "poll" and ev[2][:2] == ("X", "next") for ev in evs):
                        kinds.append("status")
                        status_task(ctx, m, W, con, o, loops, outs)
                    elif any(ev[0] == "now" or ev[0] == "poll" for ev in evs):
                        kinds.append("keepalive")
                        keepalive_task(ctx, m, W, con, o, loops, outs)
                    else: other += 1
                for k, what in (("status", "the connection's status"), ("keepalive", "the keepalive timeout")):
                    ctx.count("starts the watchers")
                    if kinds.count(k) == 1: continue
                    if kinds.count(k) == 0 and other: raise Undecided("what a task does")
                    ctx.violate(m, con, "starts the watchers", "starts %d tasks that watch %s" % (kinds.count(k), what), facts(o.st))


def status_task(ctx, m, W, con, new, loops, outs):
    e = W.e
    entry = [ev for l in loops for ev in l["entry"].events]
    paths = [("goes on", b) for l in loops for b in l["backs"]]
    for o in outs:
        if o.kind == "diverge": raise Undecided("recursion")
        if o.kind == "panic":
            ctx.violate(m, con, "the status watcher does not panic", "panics: %s" % panic_at(o), facts(o.st))
            continue
        paths.append(("ends", o.st))
    subs = {len(calls(l["entry"].events, "connection_status")) for l in loops}
    rule = "one subscription"
    ctx.count(rule)
    for how, st in paths:
        again = calls(st.events, "connection_status")
        if not loops: subs.add(len(again))
        elif again: ctx.violate(m, con, rule, "the status watcher subscribes again while it watches", facts(st))
    if subs != {1}: ctx.violate(m, con, rule, "the status watcher subscribes %s times" % "/".join(map(str, sorted(subs))), facts(new.st))
    for l in loops:
        rule = "no report without a status"
        ctx.count(rule)
        if reports(l["entry"].events): ctx.violate(m, con, rule, "reports before any status arrived", facts(l["entry"]))
    for how, st in paths:
        ctx.parts += 1
        items = [i for i, ev in enumerate(st.events) if ev[0] == "poll"]
        if not items:
            if how == "goes on": raise Undecided("a round of the status watcher that awaits nothing")
            ctx.violate(m, con, "watches until the statuses end", "the status watcher ends without having awaited a status: %s" % describe(st), facts(st))
            continue
        if reports(st.events[:items[0]]): ctx.violate(m, con, "no report without a status", "reports before a status arrived", facts(st))
        for j, i in enumerate(items):
            ev = st.events[i]
            if ev[2][:2] != ("X", "next") or not reach(ev[2], lambda x: isinstance(x, tuple) and x[:2] == ("ret", CONN + "connection_status")):
                raise Undecided("the status watcher awaits something else")
            part = st.events[i:items[j + 1]] if j + 1 < len(items) else st.events[i:]
            n = len(reports(part))
            one_status(ctx, m, W, con, how, st, ev[1], part, n, last=j + 1 == len(items))


def one_status(ctx, m, W, con, how, st, n, part, count, last):
    e = W.e
    opt = ("polled", n)
    some = variants_of(st, opt, 2)
    rule = "watches until the statuses end"
    ctx.count(rule)
    if how == "ends" and last and 1 in some: ctx.violate(m, con, rule, "the status watcher ends although the stream of statuses has not", facts(st))
    if 0 in some:
        if count: ctx.violate(m, con, "no report without a status", "reports at the end of the stream of statuses", facts(st))
        if how == "goes on" and last and some == [0]: ctx.violate(m, con, rule, "the status watcher goes on after the stream has ended", facts(st))
    if 1 not in some: return
    tid = m.tid("ConnectionStatus")
    names = [v["name"] for v in e.types[tid]["variants"]]
    for k in variants_of(st, (opt, 1, 0), len(names)):
        rule = "one report per failure"
        ctx.count(rule)
        want = 1 if names[k] in ("Closed", "Error") else 0
        if count != want:
            ctx.violate(m, con, rule, "a %s status is reported %d times" % (names[k], count), facts(st))
        elif names[k] == "Error":
            ctx.count("the report names the error")
            r = reports(part)[0]
            if not reach(r[1], lambda x: x == opt): ctx.violate(m, con, "the report names the error", "the report of a failed transport does not mention its error", facts(st))


def variants_of(st, name, n):
    vs = st.vars.get(name)
    return sorted(vs) if vs is not None else list(range(n))


def texts(v):
    out = []

    def p(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "Q":
            out.append(x)
        return False
    reach(v, p)
    return out


def keepalive_task(ctx, m, W, con, new, loops, outs):
    e, limit = W.e, W.limit
    if not loops and not outs: raise Undecided("a keepalive watcher that does nothing")
    last = [ev[1] for ev in new.st.events if ev[0] == "now"]
    if len(last) != 1: raise Undecided("which instant is the last arrival")
    last = last[0]

    def elapsed(st):
        ts = [ev[1] for ev in st.events if ev[0] == "now"]
        return st.nz(sub(ts[-1], last)) if ts else None
    closes = [b for l in loops for b in l["backs"] if calls(b.events, "close")] + [o for o in outs if calls(o.st.events, "close")]
    for l in loops:
        for st in [l["entry"]]:
            if calls(st.events, "close") or reports(st.events): raise Undecided("a keepalive watcher that acts before its loop")
        for st in l["backs"]:
            ctx.parts += 1
            rule = "stops when it has closed"
            ctx.count(rule)
            for x, what in ((calls(st.events, "close"), "closed the connection"), (reports(st.events), "reported the timeout")):
                if x: ctx.violate(m, con, rule, "the keepalive watcher goes on after it has %s" % what, facts(st))
            if calls(st.events, "close") or reports(st.events): continue
            d = elapsed(st)
            if d is None:
                if not closes: ctx.violate(m, con, "goes on only within the timeout", "the keepalive watcher never closes the connection: %s" % describe(st), facts(st))
                else: raise Undecided("a round of the keepalive watcher that does not read the clock")
                continue
            ctx.expect_true(m, st, con, "goes on only within the timeout", LE(d, limit), "another round is waited only when at most the keepalive timeout has passed")
            waits(ctx, m, W, con, st, last, True)
    for o in outs:
        ctx.parts += 1
        if o.kind == "diverge": raise Undecided("recursion")
        if o.kind == "panic":
            ctx.violate(m, con, "the keepalive watcher does not panic", "panics: %s" % panic_at(o), facts(o.st))
            continue
        st = o.st
        waits(ctx, m, W, con, st, last)
        d = elapsed(st)
        if d is None: raise Undecided("the keepalive watcher ends without reading the clock")
        rule = "closes after the timeout"
        n, r = len(calls(st.events, "close")), len(reports(st.events))
        ctx.count(rule)
        if n != 1: ctx.violate(m, con, rule, "the keepalive watcher ends having closed the connection %d times" % n, facts(st))
        ctx.count("reports the timeout")
        if r != 1: ctx.violate(m, con, "reports the timeout", "the keepalive watcher ends with %d reports" % r, facts(st))
        elif not names_timeout(m, W, reports(st.events)[0][1]):
            raise Undecided("what the keepalive watcher reports")
        ctx.expect_true(m, st, con, rule, LT(limit, d), "the watcher ends only when more than the keepalive timeout has passed")


def names_timeout(m, W, v):
    e = W.e
    if reach(v, lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == "A" and x[1] is not None and isinstance(x[1], int) and "Timeout" in (e.types[x[1]].get("path") or "")): return True
    return any(b"time" in (e.qconst(q) or b"").lower() for q in texts(v))


def waits(ctx, m, W, con, st, last, back=False):
    rule = "looks again within the timeout"
    e = W.e
    for ev in st.events:
        if ev[0] != "poll": continue
        ctx.count(rule)
        x = ev[2]
        if x[:2] == ("X", "timer") and x[2][0] == "sleep": ctx.expect_true(m, st, con, rule, LE(ns(e, st, x[2][1]), W.limit), "the keepalive watcher sleeps at most the keepalive timeout")
        elif x[:2] == ("X", "tick"): ctx.expect_true(m, st, con, rule, LE(ns(e, st, x[2][1]), W.limit), "the keepalive watcher waits at most the keepalive timeout")
        elif x[:2] == ("X", "timer") and x[2][0] == "sleep_until":
            t = ns(e, st, x[2][1])
            base = [last] + [v[1] for v in st.events if v[0] == "now"]
            if any(st.decide(LE(t, add(b, W.limit))) is True for b in base): continue
            ctx.expect_true(m, st, con, rule, LE(t, add(last, W.limit)), "the keepalive watcher waits at most until the keepalive timeout has passed")
        else: raise Undecided("what the keepalive watcher awaits")
    if back and not any(ev[0] == "poll" for ev in st.events): raise Undecided("a round of the keepalive watcher that waits for nothing")


CHECKS["C27"] = _c.pop("C27")
