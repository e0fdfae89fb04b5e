"""What the library calls the analysed code makes mean.

Each model returns a list of outcomes, or None to fall back on the callee's MIR.
"""
import re
from terms import *
from engine import Out, Undecided, UnknownCut, U, be_const, qatom, len_atom, Callee

EXACT = {}
PAT = []


def m(*names):
    def deco(f):
        for n in names: EXACT[n] = f
        return f
    return deco


def mp(*pats):
    def deco(f):
        for p in pats: PAT.append((re.compile(p + r"\Z"), f))
        return f
    return deco


_cache = {}


def lookup(name):
    if name in _cache: return _cache[name]
    f = EXACT.get(name)
    if f is None:
        for p, g in PAT:
            if p.match(name):
                f = g
                break
    _cache[name] = f
    return f


class Site:
    """One call: engine, state, callee, arguments."""

    def __init__(self, eng, st, c, args, site):
        self.e, self.st, self.c, self.a, self.site = eng, st, c, args, site
        self.name = c.get("name")
        self.dty = site["dty"]

    def ret(self, v, st=None):
        return Out("return", st or self.st, v)

    def panic(self, st, msg):
        return Out("panic", st, None, msg, self.site["at"])

    def int(self, i, st=None):
        st = st or self.st
        return st.nz(self.e.as_int(self.a[i], st))

    def q(self, i):
        return self.e.as_q(self.a[i], self.st)

    def unit(self, st=None):
        return self.ret(("A", self.dty, 0, ()), st)

    def opt(self, v, st=None, ty=None):
        """Option of the call's result type."""
        ty = self.dty if ty is None else ty
        return self.ret(("A", ty, 0, ()) if v is None else ("A", ty, 1, (v,)), st)

    def newref(self, v, st=None):
        return ("R", self.e.newcell(st or self.st, v), ())


def call(eng, st, c, args, site):
    for name in (c.get("rpath"), c["path"]):
        if not name: continue
        f = lookup(name)
        if f is not None:
            if name.rsplit("::", 1)[-1] in CUTTING: return splitting(f, eng, st, c, args, site)
            return f(Site(eng, st, c, args, site))
    tr = c.get("trait")
    if tr == "bytes::buf::buf_impl::Buf" and not is_local_impl(eng, c):
        return splitting(buf_method, eng, st, c, args, site)
    if tr == "bytes::buf::buf_mut::BufMut" and not is_local_impl(eng, c):
        return bufmut_method(Site(eng, st, c, args, site))
    return None


CUTTING = {"index", "index_mut", "get_mut", "split_at_mut", "split_to", "split_off", "split_at", "slice", "truncate", "get", "split_at_checked"}


def splitting(f, eng, st, c, args, site, depth=0):
    """f's outcomes; where it cuts a sequence at a place that depends on a condition, those of both cases."""
    was = st.copy()
    try:
        return f(Site(eng, st, c, args, site))
    except UnknownCut as x:
        if depth > 16: raise
        outs = []
        for _, st2 in eng.fork(was, x.cond): outs += splitting(f, eng, st2, c, args, site, depth + 1)
        return outs


def is_local_impl(eng, c):
    return "inst" in c and eng.bodies[c["inst"]] is not None and eng.bodies[c["inst"]]["local"]


def havoc_x(eng, old, name):
    return None


# ------------------------------------------------------------------ panics
@mp(r"core::panicking::.*", r"std::panicking::begin_panic.*", r"core::option::expect_failed", r"core::option::unwrap_failed",
    r"core::result::unwrap_failed", r"core::slice::index::slice_.*fail.*", r"core::str::slice_error_fail.*", r"alloc::alloc::handle_alloc_error",
    r"alloc::raw_vec::capacity_overflow", r"core::cell::panic_.*", r"core::slice::.*len_mismatch_fail.*")
def panics(s):
    if s.e.ty(s.dty)["k"] != "never" and s.name not in ("panic_fmt",):
        if s.name in ("unimplemented_default_msg",): return [s.ret(s.e.mksym(("const", "msg"), s.dty))]
        return None
    msg = ""
    for a in s.a:
        try:
            k = s.e.qconst(s.e.as_q(a, s.st))
            if k: msg = k.decode(errors="replace")
        except Undecided: pass
    return [s.panic(s.st, msg or s.name)]


# ------------------------------------------------------------------ memory
@m("core::mem::replace")
def mem_replace(s):
    old = s.e.rd(s.st, s.a[0])
    s.e.wr(s.st, s.a[0], s.a[1])
    return [s.ret(old)]


@m("core::mem::swap")
def mem_swap(s):
    x, y = s.e.rd(s.st, s.a[0]), s.e.rd(s.st, s.a[1])
    s.e.wr(s.st, s.a[0], y)
    s.e.wr(s.st, s.a[1], x)
    return [s.unit()]


@m("core::ptr::read", "core::intrinsics::read_via_copy", "core::ptr::read_unaligned", "core::ptr::const_ptr::<impl *const T>::read",
   "core::ptr::mut_ptr::<impl *mut T>::read")
def ptr_read(s):
    return [s.ret(s.e.rd(s.st, s.a[0]))]


@m("core::ptr::write", "core::intrinsics::write_via_move", "core::ptr::mut_ptr::<impl *mut T>::write")
def ptr_write(s):
    s.e.wr(s.st, s.a[0], s.a[1])
    return [s.unit()]


@m("core::mem::forget", "core::mem::drop", "core::hint::assert_unchecked", "core::intrinsics::cold_path", "core::ptr::drop_in_place",
   "core::mem::manually_drop::ManuallyDrop::<T>::drop")
def nothing(s):
    return [s.unit()]


@m("core::intrinsics::black_box", "core::hint::black_box", "core::intrinsics::likely", "core::intrinsics::unlikely", "core::convert::identity",
   "core::hint::must_use")
def ident(s):
    return [s.ret(s.a[0])]


@m("alloc::boxed::Box::<T>::new", "alloc::rcs::arc::Arc::<T>::new", "alloc::sync::Arc::<T>::new", "alloc::boxed::Box::<T>::pin")
def box_new(s):
    return [s.ret(s.newref(s.a[0]))]


@mp(r"<alloc::(rcs::arc|sync)::Arc<T> as core::default::Default>::default", r"<alloc::boxed::Box<T> as core::default::Default>::default")
def shared_default(s):
    t = (s.e.types[s.dty].get("args") or [None])[0]
    ty = s.e.types[t] if t is not None else {}
    if ty.get("k") == "int": return [s.ret(s.newref(("I", C(0))))]
    if ty.get("path") != "dashmap::DashMap": return None
    new = "dashmap::DashMap::<K, V>::new"
    f = s.e.overrides.get(new)
    outs = f(s.e, s.st, dict(s.c, path=new), [], s.site) if f else map_new(s)
    return [s.ret(s.newref(o.val, o.st), o.st) if o.kind == "return" else o for o in outs]


@mp(r"alloc::(rcs::arc|sync)::Arc::<T(, A)?>::(strong|weak)_count")
def arc_count(s):
    # other handles may come and go; the one it is asked of is always there
    return [s.ret(("I", ("a", ("refcount", s.e.fresh(s.st, "refcount")), int(s.name == "strong_count"), 1 << 32)))]


@mp(r"<alloc::(rcs::arc|sync)::Arc<T, A> as core::ops::deref::Deref>::deref", r"<alloc::boxed::Box<T, A> as core::(ops::deref::Deref(Mut)?|convert::AsRef<T>|borrow::Borrow<T>)>::\w+")
def arc_deref(s):
    v = s.e.rd(s.st, s.a[0])
    if v[0] == "S":  # Arc with unknown contents
        t = s.e.ty(v[2])
        to = s.e.ty(s.dty)["to"]
        return [s.ret(("R", ("sym", (v[1], "*"), to), ()))]
    return [s.ret(v)]


@mp(r"<alloc::(rcs::arc|sync)::Arc<T, A> as core::clone::Clone>::clone", r"<bytes::bytes::Bytes as core::clone::Clone>::clone",
    r"<alloc::string::String as core::clone::Clone>::clone", r"<alloc::vec::Vec<T, A> as core::clone::Clone>::clone",
    r"<tokio::time::instant::Instant as core::clone::Clone>::clone")
def clone_shallow(s):
    return [s.ret(s.e.rd(s.st, s.a[0]))]


# ------------------------------------------------------------------ integers
def int_width(s, i=0):
    t = s.e.ty(s.site["aty"][i])
    return t["w"], t["signed"]


@m("core::intrinsics::saturating_add", "core::intrinsics::saturating_sub")
def saturating(s):
    w, sg = int_width(s)
    lo, hi = limits(w, sg)
    x, y = s.int(0), s.int(1)
    e = s.st.nz(add(x, y) if s.name.endswith("add") else sub(x, y))
    res = []
    for over, st in s.e.fork(s.st, LT(C(hi), e)):
        if over:
            res.append(s.ret(("I", C(hi)), st))
            continue
        for under, st2 in s.e.fork(st, LT(e, C(lo))):
            res.append(s.ret(("I", C(lo) if under else st2.nz(e)), st2))
    return res


@mp(r"core::intrinsics::(wrapping_add|wrapping_sub|wrapping_mul|unchecked_add|unchecked_sub|unchecked_mul|exact_div|unchecked_div|unchecked_rem|unchecked_shl|unchecked_shr|three_way_compare)")
def intr_arith(s):
    w, sg = int_width(s)
    o = {"wrapping_add": "Add", "wrapping_sub": "Sub", "wrapping_mul": "Mul", "unchecked_add": "AddUnchecked", "unchecked_sub": "SubUnchecked",
         "unchecked_mul": "MulUnchecked", "exact_div": "Div", "unchecked_div": "Div", "unchecked_rem": "Rem", "unchecked_shl": "Shl",
         "unchecked_shr": "Shr"}.get(s.name)
    if o is None: return None
    return [s.ret(s.e.arith(s.st, o, s.int(0), s.int(1), w, sg))]


@mp(r"core::intrinsics::(add|sub|mul)_with_overflow")
def intr_overflow(s):
    w, sg = int_width(s)
    o = {"a": "Add", "s": "Sub", "m": "Mul"}[s.name[0]] + "WithOverflow"
    return [s.ret(s.e.arith(s.st, o, s.int(0), s.int(1), w, sg))]


@mp(r"core::cmp::(max|min)", r"core::cmp::Ord::(max|min)", r"core::cmp::impls::<impl core::cmp::Ord for \w+>::(max|min)",
    r"core::intrinsics::integer_(max|min)")
def maxmin(s):
    if s.a[0][0] != "I" or s.a[1][0] != "I": return None
    x, y = s.int(0), s.int(1)
    res = []
    big = "max" in s.name
    for le, st in s.e.fork(s.st, LE(x, y)):
        res.append(s.ret(("I", (y if le else x) if big else (x if le else y)), st))
    return res


@mp(r"core::intrinsics::rotate_(left|right)", r"core::num::<impl \w+>::rotate_(left|right)")
def rotate(s):
    w, sg = int_width(s)
    n = s.int(1)
    lo, hi = rng(n, s.st)
    if sg or hi - lo > 8 or lo < 0: return None
    res, st = [], s.st
    for k in range(lo, hi + 1):
        rest = None
        for t, st2 in s.e.fork(st, EQ(n, C(k), st)):
            if not t: rest = st2
            else:
                b, m = bits_of(s.int(0), w), (k if s.name.endswith("left") else w - k) % w
                res.append(s.ret(("I", from_bits(b[w - m:] + b[:w - m], st2)), st2))
        if rest is None: break
        st = rest
    return res


@mp(r"core::num::<impl \w+>::swap_bytes", r"core::intrinsics::bswap", r"core::num::<impl \w+>::(to|from)_be")
def bswap(s):
    w, sg = int_width(s)
    if sg: return None
    q = ("Q", (s.e.int_q(s.int(0), w // 8, s.st),))
    return [s.ret(("I", s.e.qint(q, s.st, little=True)))]


@mp(r"core::num::<impl \w+>::to_(be|le|ne)_bytes")
def to_bytes(s):
    w, sg = int_width(s)
    b = s.e.qbits(("Q", (s.e.int_q(s.int(0), w // 8, s.st, little="_be_" not in s.name),)), s.st)
    return [s.ret(("A", s.dty, 0, tuple(("I", from_bits(tuple(reversed(b[i:i + 8])), s.st)) for i in range(0, len(b), 8))))]


@mp(r"core::num::<impl \w+>::from_(be|le|ne)_bytes")
def from_bytes(s):
    t = s.e.ty(s.dty)
    v = s.e.qint(s.e.as_q(s.a[0], s.st), s.st, little="_be_" not in s.name)
    return [s.ret(("I", wrap(v, t["w"], t["signed"], s.st)))]


@mp(r"core::num::<impl \w+>::(leading_zeros|trailing_zeros|count_ones|leading_ones|trailing_ones|count_zeros)", r"core::intrinsics::(ctpop|ctlz|cttz)")
def counts(s):
    x = s.int(0)
    if is_c(x) and s.name in ("count_ones", "ctpop"): return [s.ret(("I", C(bin(x[1]).count("1"))))]
    t = s.e.types[s.c["args"][0]] if s.c.get("args") else None
    m = re.search(r"<impl ([iu])(\w+)>", s.c["path"])
    w = t["w"] if t and t["k"] == "int" else None if not m else 64 if m.group(2) == "size" else int(m.group(2))
    name = {"leading_zeros": "ctlz", "trailing_zeros": "cttz", "count_ones": "ctpop"}.get(s.name, s.name)
    return [s.ret(("I", op(name, (x, C(w)) if w else (x,), 0, w or 128)))]


@m("dashmap::DashMap::<K, V>::new", "dashmap::DashMap::<K, V>::with_capacity", "<dashmap::DashMap<K, V, S> as core::default::Default>::default")
def map_new(s):
    return [s.ret(("X", "newstore", (s.e.fresh(s.st, "newstore"),)))]


@m("core::intrinsics::size_of", "core::mem::size_of", "core::intrinsics::align_of")
def size_of(s):
    t = s.e.ty(s.c["args"][0])
    if t["k"] == "int": return [s.ret(("I", C(t["w"] // 8)))]
    return [s.ret(("I", op("size_of", (t["s"],), 0, 1 << 40)))]


@m("core::intrinsics::is_val_statically_known")
def known(s):
    return [s.ret(("B", False))]


@mp(r"core::num::<impl \w+>::div_ceil")
def div_ceil(s):
    w, sg = int_width(s)
    x, y = s.int(0), s.int(1)
    if sg: return None
    res = []
    for z, st in s.e.fork(s.st, EQ(y, C(0), s.st)):
        if z:
            res.append(s.panic(st, "division by zero"))
            continue
        x2, y2 = st.nz(x), st.nz(y)
        r = st.nz(s.e.divrem(st, "Rem", x2, y2))
        d = s.e.divrem(st, "Div", x2, y2)
        for nz, st2 in s.e.fork(st, LT(C(0), r)):
            res.append(s.ret(("I", st2.nz(add(d, C(1)) if nz else d)), st2))
    return res


# ------------------------------------------------------------------ byte containers
@m("bytes::bytes::Bytes::len", "alloc::string::String::len", "bytes::bytes_mut::BytesMut::len", "core::str::<impl str>::len")
def b_len(s):
    return [s.ret(("I", s.e.qlen(s.q(0), s.st)))]


@m("core::slice::<impl [T]>::len", "alloc::vec::Vec::<T, A>::len")
def slice_len(s):
    if s.e.rd(s.st, s.a[0])[0] == "D": return dq_len(s)
    return [s.ret(("I", s.st.nz(s.e.seqlen(s.e.rd(s.st, s.a[0]), s.st))))]


@m("bytes::bytes::Bytes::is_empty", "alloc::string::String::is_empty", "bytes::bytes_mut::BytesMut::is_empty", "core::str::<impl str>::is_empty")
def b_empty(s):
    return [s.ret(("B", s.st.nzb(EQ0(s.e.qlen(s.q(0), s.st)))))]


def reserved(s, i=0):
    """Notes how much memory is asked for, where a check wants to know."""
    if getattr(s.e, "track_alloc", False) and (i or "with_capacity" in s.name or s.name in ("zeroed", "from_elem")): s.st.events += (("alloc", s.int(i), s.site["at"]),)


@mp(r"alloc::vec::from_elem")
def from_elem(s):
    if not s.e.is_bytes_ty(s.dty): return None
    x = s.int(0)
    if not is_c(x): return None
    reserved(s, 1)
    return [s.ret(s.e.qnorm(("Q", (("sub", ("fill", x[1] & 255), C(0), s.int(1)),)), s.st))]


@m("bytes::bytes::Bytes::new", "bytes::bytes_mut::BytesMut::new", "alloc::string::String::new", "bytes::bytes_mut::BytesMut::with_capacity",
   "<bytes::bytes::Bytes as core::default::Default>::default", "<bytes::bytes_mut::BytesMut as core::default::Default>::default",
   "<alloc::string::String as core::default::Default>::default", "alloc::string::String::with_capacity", "bytes::bytes::Bytes::from_static_empty")
def b_new(s):
    reserved(s)
    return [s.ret(("Q", ()))]


@mp(r"alloc::vec::Vec::<T, A>::(is_empty|pop|remove|insert|swap|clear|truncate)")
def vec_list(s):
    """A list of anything but bytes."""
    if s.e.rd(s.st, s.a[0])[0] != "D": return None
    if s.name == "is_empty": return dq_len(s)
    if s.name == "pop": s.name = "pop_back"
    if s.name == "remove":
        n = len(dq_list(s)[1])
        i = s.int(1)
        if is_c(i) and i[1] >= n: return [s.panic(s.st, "removal index out of bounds")]
        r = dq_known_ops(s)
        return [s.ret(r[0].val[3][0], r[0].st)]
    return dq_known_ops(s)


@mp(r"alloc::vec::Vec::<T>::(new|with_capacity)", r"alloc::vec::Vec::<T, A>::(new_in|with_capacity_in)")
def vec_new(s):
    reserved(s)
    if s.e.is_bytes_ty(s.dty): return [s.ret(("Q", ()))]
    return [s.ret(("D", (), None, ()))]


@mp(r"<bytes::bytes::Bytes as core::convert::From<.*>>::from", r"bytes::bytes::Bytes::(from_static|copy_from_slice)", r"bytes::bytes_mut::BytesMut::freeze",
    r"<bytes::bytes_mut::BytesMut as core::convert::From<.*>>::from", r"<alloc::string::String as core::convert::From<.*>>::from",
    r"<alloc::vec::Vec<.*> as core::convert::From<.*>>::from", r"alloc::slice::<impl \[T\]>::to_vec", r"alloc::slice::.*to_owned",
    r"alloc::str::<impl .* for str>::to_owned", r"alloc::string::String::into_bytes", r"bytes::bytes(_mut)?::<impl core::convert::From<.*> for .*>::from",
    r"alloc::str::<impl str>::(to_owned|into_string|to_string)", r"<str as alloc::string::SpecToString>::spec_to_string",
    r"<alloc::string::String as alloc::string::ToString>::to_string")
def b_from(s):
    if not s.e.is_bytes_ty(s.dty): return None
    return [s.ret(s.q(0))]


@mp(r"<bytes::bytes(_mut)?::Bytes(Mut)? as core::ops::deref::Deref>::deref", r"<bytes::bytes(_mut)?::Bytes(Mut)? as core::convert::AsRef<\[u8\]>>::as_ref",
    r"<alloc::string::String as core::ops::deref::Deref>::deref", r"alloc::string::String::(as_str|as_bytes)", r"core::str::<impl str>::as_bytes",
    r"<alloc::string::String as core::convert::AsRef<.*>>::as_ref", r"<str as core::convert::AsRef<.*>>::as_ref",
    r"<bytes::bytes(_mut)?::Bytes(Mut)? as core::borrow::Borrow<\[u8\]>>::borrow", r"<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref",
    r"<alloc::vec::Vec<T, A> as core::convert::AsRef<.*>>::as_ref", r"alloc::vec::Vec::<T, A>::as_slice", r"<alloc::string::String as core::borrow::Borrow<str>>::borrow",
    r"bytes::bytes(_mut)?::Bytes(Mut)?::as_slice", r"core::str::converts::from_utf8_unchecked")
def b_deref(s):
    if s.a[0][0] == "R" and s.e.rd(s.st, s.a[0])[0] == "D": return [s.ret(s.a[0])]
    return [s.ret(s.newref(s.q(0)))]


@mp(r"<(bytes::bytes_mut::BytesMut|alloc::vec::Vec<.*>) as core::(ops::deref::DerefMut|convert::AsMut<\[.*\]>|borrow::BorrowMut<\[.*\]>)>::\w+",
    r"bytes::bytes_mut::BytesMut::as_slice_mut", r"alloc::vec::Vec::<T, A>::as_mut_slice")
def b_deref_mut(s):
    if s.a[0][0] != "R" or s.e.rd(s.st, s.a[0])[0] not in ("Q", "D"): return None
    return [s.ret(s.a[0])]


def bytes_behind(s, i=0):
    """The bytes a mutable slice refers to, or None."""
    if s.a[i][0] != "R": return None
    v = s.e.rd(s.st, s.a[i])
    if v[0] == "Q" or v[0] == "A" and s.e.is_bytes_ty(v[1]): return s.e.as_q(v, s.st)
    return None


@mp(r"core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)")
def copy_from_slice(s):
    d = bytes_behind(s)
    if d is None: return None
    q = s.q(1)
    res = []
    for same, st in s.e.fork(s.st, EQ(s.e.qlen(d, s.st), s.e.qlen(q, s.st))):
        if not same:
            res.append(s.panic(st, "copy_from_slice: source slice length does not match destination slice length"))
            continue
        s.e.wr(st, s.a[0], q)
        res.append(s.unit(st))
    return res


@mp(r"core::slice::.*<impl \[T\]>::(fill|fill_with)")
def slice_fill(s):
    d = bytes_behind(s)
    if d is None or s.name != "fill": return None
    x = s.int(1)
    n = s.e.qlen(d, s.st)
    if is_c(n) and n[1] <= 64: q = ("Q", tuple(s.e.int_q(x, 1, s.st) for _ in range(n[1])))
    elif is_c(x): q = ("Q", (("sub", ("fill", x[1] & 255), C(0), n),))
    else: return None
    s.e.wr(s.st, s.a[0], s.e.qnorm(q, s.st))
    return [s.unit()]


@mp(r"core::slice::<impl \[T\]>::(split_at_mut|split_first_chunk_mut|split_at)")
def split_at_mut(s):
    d = bytes_behind(s)
    if d is None or s.name == "split_first_chunk_mut": return None
    k = s.int(1)
    n = s.e.qlen(d, s.st)
    res = []
    for ok, st in s.e.fork(s.st, LE(k, n)):
        if not ok:
            res.append(s.panic(st, "mid > len"))
            continue
        c, p = s.a[0][1], s.a[0][2]
        res.append(s.ret(("A", s.dty, 0, (("R", c, p + (("q", C(0), k),)), ("R", c, p + (("q", k, n),)))), st))
    return res


@mp(r"bytes::bytes_mut::BytesMut::(resize|zeroed)", r"alloc::vec::Vec::<T, A>::resize")
def resize(s):
    if s.name == "zeroed":
        reserved(s)
        return [s.ret(s.e.qnorm(("Q", (("sub", ("fill", 0), C(0), s.int(0)),)), s.st))]
    q = bytes_behind(s)
    if q is None: return None
    x = s.int(2)
    if not is_c(x): return None
    n = s.int(1)
    reserved(s, 1)
    res = []
    for grow, st in s.e.fork(s.st, LE(s.e.qlen(q, s.st), n)):
        if grow: q2 = ("Q", q[1] + (("sub", ("fill", x[1] & 255), C(0), sub(n, s.e.qlen(q, st))),))
        else: q2, _ = s.e.qcut(q, n, st)
        s.e.wr(st, s.a[0], s.e.qnorm(q2, st))
        res.append(s.unit(st))
    return res


def cut_to(s, ref, n, keep_front, msg):
    """Splits the container behind ref at n."""
    q = s.e.as_q(s.e.rd(s.st, ref), s.st)
    ln = s.e.qlen(q, s.st)
    res = []
    for ok, st in s.e.fork(s.st, LE(n, ln)):
        if not ok:
            res.append(s.panic(st, msg))
            continue
        a, b = s.e.qcut(q, n, st)
        a, b = s.e.qnorm(a, st), s.e.qnorm(b, st)
        if keep_front:
            s.e.wr(st, ref, a)
            res.append(s.ret(b, st))
        else:
            s.e.wr(st, ref, b)
            res.append(s.ret(a, st))
    return res


@mp(r"core::num::nonzero::NonZero::<T>::new")
def nonzero(s):
    x = s.int(0)
    res = []
    for zero, st in s.e.fork(s.st, EQ(x, C(0))):
        res.append(s.opt(None if zero else ("A", s.e.types[s.dty]["variants"][1]["fields"][0]["ty"], 0, (("I", x),)), st))
    return res


@mp(r"core::array::<impl \[T; N\]>::map", r"core::array::from_fn")
def array_map(s):
    """A function of each item, in order."""
    ty = s.e.types[s.dty]
    if ty.get("k") != "array" or ty.get("len") is None or ty["len"] > 64: return None
    if s.name == "map":
        arr = s.e.norm(s.a[0], s.st)
        if arr[0] != "A" or len(arr[3]) != ty["len"]: return None
        items, f = list(arr[3]), s.a[1]
    else:
        items, f = [("I", C(i)) for i in range(ty["len"])], s.a[0]
    cell = s.newref(f)
    out, work = [], [((), s.st)]
    for x in items:
        new = []
        for acc, st in work:
            for o in s.e.call_fnmut(cell, [x], st, dict(s.site, dty=ty["elem"])):
                if o.kind == "return": new.append((acc + (o.val,), o.st))
                else: out.append(o)
        work = new
    return out + [s.ret(("A", s.dty, 0, acc), st) for acc, st in work]


@mp(r"bytes::bytes(_mut)?::Bytes(Mut)?::split_to")
def split_to(s):
    return cut_to(s, s.a[0], s.int(1), False, "split_to out of bounds")


@mp(r"bytes::bytes(_mut)?::Bytes(Mut)?::split_off", r"alloc::vec::Vec::<T, A>::split_off", r"alloc::string::String::split_off")
def split_off(s):
    return cut_to(s, s.a[0], s.int(1), True, "split_off out of bounds")


@mp(r"bytes::bytes(_mut)?::Bytes(Mut)?::truncate")
def truncate(s):
    q = s.q(0)
    n = s.int(1)
    res = []
    for short, st in s.e.fork(s.st, LT(n, s.e.qlen(q, s.st))):
        if short:
            a, _ = s.e.qcut(q, n, st)
            s.e.wr(st, s.a[0], a)
        res.append(s.unit(st))
    return res


@mp(r"bytes::bytes(_mut)?::Bytes(Mut)?::clear", r"alloc::string::String::clear")
def b_clear(s):
    s.e.wr(s.st, s.a[0], ("Q", ()))
    return [s.unit()]


@m("bytes::bytes_mut::BytesMut::split")
def bm_split(s):
    q = s.q(0)
    s.e.wr(s.st, s.a[0], ("Q", ()))
    return [s.ret(q)]


@mp(r"bytes::bytes_mut::BytesMut::reserve", r"alloc::string::String::reserve.*", r"alloc::vec::Vec::<T, A>::reserve.*")
def reserve(s):
    reserved(s, 1)
    # no allocation can be larger than isize::MAX bytes
    if s.st.decide(LT(C((1 << 63) - 1), s.int(1))) is True: return [s.panic(s.st, "capacity overflow")]
    return [s.unit()]


@m("bytes::bytes::Bytes::slice")
def b_slice(s):
    q = s.q(0)
    r = s.a[1]
    n = s.e.qlen(q, s.st)
    if r[0] != "A": return None
    t = s.e.ty(r[1])["path"].split("::")[-1]
    f = [s.st.nz(s.e.as_int(x, s.st)) for x in r[3] if x[0] == "I"]
    lo, hi = {"Range": lambda: (f[0], f[1]), "RangeFrom": lambda: (f[0], n), "RangeTo": lambda: (C(0), f[0]),
              "RangeFull": lambda: (C(0), n), "RangeInclusive": lambda: (f[0], add(f[1], C(1))), "RangeToInclusive": lambda: (C(0), add(f[0], C(1)))}[t]()
    res = []
    for ok, st in s.e.fork(s.st, AND([LE(lo, hi), LE(hi, n)])):
        if not ok: res.append(s.panic(st, "slice out of bounds"))
        else: res.append(s.ret(s.e.qslice(q, lo, hi, st), st))
    return res


@mp(r"core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \[T\]>::index(_mut)?", r"core::str::traits::<impl core::ops::index::Index<I> for str>::index")
def slice_index(s):
    v = s.e.rd(s.st, s.a[0])
    r = s.a[1]
    if v[0] == "D" and v[2] is None and not v[3] and r[0] == "A" and s.a[0][0] == "R":
        n = len(v[1])
        f = [s.st.nz(s.e.as_int(x, s.st)) for x in r[3] if x[0] == "I"]
        k = s.e.ty(r[1]).get("path", "").split("::")[-1]
        if not all(is_c(x) for x in f) or k not in ("Range", "RangeFrom", "RangeTo", "RangeFull"): return None
        f = [x[1] for x in f]
        lo, hi = f[0] if k in ("Range", "RangeFrom") else 0, f[-1] if k in ("Range", "RangeTo") else n
        if not lo <= hi <= n: return [s.panic(s.st, "slice index out of bounds")]
        return [s.ret(("R", s.a[0][1], s.a[0][2] + (("q", C(lo), C(hi)),)))]
    if v[0] not in ("Q", "A", "S") or r[0] != "A": return None
    if v[0] == "A" and s.e.ty(v[1])["k"] != "array": return None
    if v[0] in ("A", "S") and not s.e.is_bytes_ty(s.e.ty(s.site["aty"][0]).get("to", 0)): return None
    q = s.e.as_q(v, s.st)
    n = s.e.qlen(q, s.st)
    mut = s.e.ty(s.site["aty"][0]).get("mut") and s.a[0][0] == "R"
    t = s.e.ty(r[1])
    t = t.get("path", "").split("::")[-1]
    f = [s.st.nz(s.e.as_int(x, s.st)) for x in r[3] if x[0] == "I"]
    try:
        lo, hi = {"Range": lambda: (f[0], f[1]), "RangeFrom": lambda: (f[0], n), "RangeTo": lambda: (C(0), f[0]), "RangeFull": lambda: (C(0), n)}[t]()
    except KeyError: return None
    res = []
    for ok, st in s.e.fork(s.st, AND([LE(lo, hi), LE(hi, n)])):
        if not ok: res.append(s.panic(st, "slice index out of bounds"))
        elif mut: res.append(s.ret(("R", s.a[0][1], s.a[0][2] + (("q", lo, hi),)), st))
        else: res.append(s.ret(s.newref(s.e.qslice(q, lo, hi, st), st), st))
    return res


@mp(r"<str as core::cmp::PartialEq>::eq", r"core::str::traits::<impl core::cmp::PartialEq for str>::eq", r"<bytes::bytes(_mut)?::Bytes(Mut)? as core::cmp::PartialEq(<.*>)?>::eq",
    r"<alloc::string::String as core::cmp::PartialEq(<.*>)?>::eq", r"core::slice::cmp::<impl core::cmp::PartialEq<\[U\]> for \[T\]>::eq",
    r"alloc::string::.*PartialEq.*::eq", r"bytes::.*PartialEq.*::eq", r"core::array::equality::.*::eq", r"alloc::vec::partial_eq::.*::eq",
    r"<str as core::cmp::PartialEq(<.*>)?>::ne", r"<bytes::bytes(_mut)?::Bytes(Mut)? as core::cmp::PartialEq(<.*>)?>::ne")
def seq_eq(s):
    v = [s.e.rd(s.st, a) for a in s.a[:2]]
    if all(x[0] == "A" and x[1] is not None and s.e.types[x[1]]["k"] == "array" and not s.e.byte_elems(s.e.types[x[1]]) for x in v):
        if any(y[0] != "I" for x in v for y in x[3]): return None
        if len(v[0][3]) != len(v[1][3]): return [s.ret(("B", s.name == "ne"))]
        r = AND([EQ(s.st.nz(x[1]), s.st.nz(y[1]), s.st) for x, y in zip(v[0][3], v[1][3])])
        return [s.ret(("B", s.st.nzb(NOT(r) if s.name == "ne" else r)))]
    x, y = s.e.qnorm(s.q(0), s.st), s.e.qnorm(s.q(1), s.st)
    r = s.e_eq(x, y) if False else qeq(s.e, s.st, x, y)
    if s.name == "ne": r = NOT(r)
    return [s.ret(("B", s.st.nzb(r)))]


def qeq(e, st, x, y):
    if x == y: return True
    a, b = e.qconst(x), e.qconst(y)
    if a is not None and b is not None: return a == b
    ln = EQ(e.qlen(x, st), e.qlen(y, st), st)
    if st.decide(ln) is False: return False
    if is_c(e.qlen(x, st)) and e.qlen(x, st) == C(0): return ln
    if is_c(e.qlen(y, st)) and e.qlen(y, st) == C(0): return ln
    n = st.nz(e.qlen(x, st))
    if is_c(n) and 0 < n[1] <= 32 and n == st.nz(e.qlen(y, st)) and any(g[0] == "be" and any(b not in (0, 1) for b in g[1]) for g in x[1] + y[1]):
        # short, and partly spelled out: byte by byte
        return AND([EQ(st.nz(e.qbyte(x, C(i), st)), st.nz(e.qbyte(y, C(i), st)), st) for i in range(n[1])])
    p, q = sorted((whole(x, st), whole(y, st)), key=repr)
    return True if p == q else AND([ln, ("seq", p, q)])


def whole(q, st):
    """The sequence with inputs that are there in full named as such, whatever is known of their length."""
    res = []
    for g in q[1]:
        if g[0] == "sub" and g[2] == C(0) and g[1][0] == "in":
            n = len_atom(g[1])
            if g[3] != n and st.decide(EQ(g[3], n, st)) is True: g = g[:3] + (n,)
        res.append(g)
    return ("Q", tuple(res))


@mp(r"core::str::converts::from_utf8", r"core::str::<impl str>::from_utf8", r"alloc::string::String::from_utf8")
def from_utf8(s):
    q = s.e.qnorm(s.q(0), s.st)
    k = s.e.qconst(q)
    cond = ("utf8", q)
    if k is not None:
        try:
            k.decode()
            cond = True
        except UnicodeDecodeError: cond = False
    elif s.st.bools.get(("at", ("ascii", q))) is True or s.st.decide(EQ0(s.e.qlen(q, s.st))) is True: cond = True
    res = []
    for ok, st in s.e.fork(s.st, cond):
        if ok:
            v = s.newref(q, st) if s.name == "from_utf8" and "String" not in s.c["path"] else q
            res.append(s.ret(("A", s.dty, 0, (v,)), st))
        else:
            ety = s.e.fields_of(s.dty, 1)[0]
            res.append(s.ret(("A", s.dty, 1, (s.e.mksym(("utf8error", q), ety),)), st))
    return res


@mp(r"core::str::<impl str>::is_ascii", r"core::slice::ascii::<impl \[u8\]>::is_ascii")
def is_ascii(s):
    q = s.e.qnorm(s.q(0), s.st)
    k = s.e.qconst(q)
    if k is not None: return [s.ret(("B", all(b < 128 for b in k)))]
    if s.st.decide(("utf8", q)) is False: return [s.ret(("B", False))]
    if s.st.decide(EQ0(s.e.qlen(q, s.st))) is True: return [s.ret(("B", True))]
    return [s.ret(("B", ("at", ("ascii", q))))]


@mp(r"core::str::<impl str>::chars")
def chars(s):
    return [s.ret(("X", "chars", s.e.qnorm(s.q(0), s.st)))]


@mp(r"<core::str::iter::Chars<.*> as core::iter::traits::iterator::Iterator>::count")
def chars_count(s):
    """Some number of characters of one to four bytes each."""
    v = s.a[0]
    if v[0] != "X" or v[1] != "chars": return None
    n = s.e.qlen(v[2], s.st)
    if is_c(s.st.nz(n)): return None
    t = ("a", ("nchars", v[2]), 0, LENMAX)
    s.st.assume(LE(t, n))
    s.st.assume(LE(n, scale(t, 4)))
    return [s.ret(("I", t))]


@mp(r"<alloc::string::String as core::iter::traits::collect::FromIterator<char>>::from_iter")
def from_chars(s):
    """A text put together from characters; just the same one when they are all there."""
    v = s.a[0]
    if v[0] == "X" and v[1] == "chars": return [s.ret(v[2])]
    return [s.ret(qatom(("derived", "from_iter", repr(s.e.snapshot(s.st, v)))))]


# ------------------------------------------------------------------ BytesMut / BufMut
WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16}


def append(s, segs, st=None):
    st = st or s.st
    ref = s.a[0]
    v = s.e.rd(st, ref)
    while v[0] == "R":
        ref = v
        v = s.e.rd(st, ref)
    q = s.e.as_q(v, st)
    s.e.wr(st, ref, s.e.qnorm(("Q", q[1] + segs), st))
    return s.unit(st)


def bufmut_method(s):
    n = s.name
    if n == "put_slice" or n == "extend_from_slice":
        return [append(s, s.q(1)[1])]
    if n == "put_bytes":
        cnt, b = s.int(2), s.int(1)
        if is_c(cnt) and cnt[1] <= 64: return [append(s, (s.e.int_q(b, 1, s.st),) * cnt[1])]
        return None
    if n == "put":
        return bm_put(s)
    mt = re.match(r"put_([ui]\d+)(_le|_ne)?\Z", n)
    if mt:
        return [append(s, (s.e.int_q(s.int(1), WIDTH[mt.group(1)], s.st, little=bool(mt.group(2))),))]
    mt = re.match(r"put_(u?)int(_le|_ne)?\Z", n)
    if mt:
        w = s.int(2)
        if is_c(w) and 1 <= w[1] <= 8: return [append(s, (s.e.int_q(s.int(1), w[1], s.st, little=bool(mt.group(2))),))]
        if is_c(w): return [s.panic(s.st, "put_uint width")]
        return None
    if n == "remaining_mut":
        return [s.ret(("I", op("remaining_mut", (), 0, (1 << 64) - 1)))]
    return None


def bm_put(s):
    """put(src): appends everything src has."""
    src = s.a[1]
    res = []
    for q, st in drain(s, src, s.st, res): res.append(append(s, q[1], st))
    return res


def chase(e, st, ref):
    """The place and value behind a chain of references."""
    v = e.rd(st, ref)
    while v[0] == "R":
        ref = v
        v = e.rd(st, v)
    return ref, v


def local_buf(e, v, name):
    """This crate's implementation of a Buf method for a value, if it is of a type of this crate."""
    if v[0] not in ("A", "S"): return None
    ty = v[1] if v[0] == "A" else v[2]
    if ty is None or not e.ty(ty).get("local"): return None
    return e.d.trait_fn(e.ty(ty)["path"], "bytes::buf::buf_impl::Buf", name)


def pull(s, ref, limit, st, bad):
    """Takes up to limit bytes out of a buffer type of this crate, as bytes does it: chunk by chunk. [(sequence, state)]"""
    e = s.e

    def callm(name, args, st2):
        f = local_buf(e, chase(e, st2, ref)[1], name)
        if f is None: raise Undecided("no %s for a local buffer" % name)
        res = []
        for o in e.call_inst(f["inst"], [ref] + args, st2, s.site["at"]):
            if o.kind == "return": res.append((o.val, o.st))
            else: bad.append(o)
        return res
    out, work = [], [((), limit, st)]
    for _ in range(300):
        new = []
        for acc, lim, st1 in work:
            for rem, st2 in callm("remaining", [], st1):
                left = rem[1] if lim is None else op_min(e, rem[1], lim, st2)
                for l, st3 in (left if isinstance(left, list) else [(left, st2)]):
                    for more, st4 in e.fork(st3, LT(C(0), st3.nz(l))):
                        if not more:
                            out.append((e.qnorm(("Q", acc), st4), st4))
                            continue
                        for c, st5 in callm("chunk", [], st4):
                            q = e.as_q(c, st5)
                            n = e.qlen(q, st5)
                            for k, st6 in ([(n, st5)] if lim is None else op_min(e, n, lim, st5)):
                                some = st6.decide(LT(C(0), k))
                                if some is False:
                                    bad.append(Out("panic", st6, None, "chunk() is empty although remaining() is not 0, so that a reader gets no further"))
                                    continue
                                if some is None: raise Undecided("a chunk may be empty")
                                head, _ = e.qcut(q, k, st6)
                                for _, st7 in callm("advance", [("I", k)], st6):
                                    new.append((acc + head[1], None if lim is None else st7.nz(sub(lim, k)), st7))
        work = new
        if not work: return out
        if len(work) > 64: break
    raise Undecided("draining a local buffer")


def op_min(e, a, b, st):
    return [(st2.nz(a if le else b), st2) for le, st2 in e.fork(st, LE(a, b))]


def drain(s, src, st, bad):
    """All bytes of a by-value source: [(sequence, state)]; other outcomes go to bad."""
    e = s.e
    if src[0] == "X" and src[1] == "take":
        inner, limit = src[2]
        if inner[0] == "R":
            ref, v = chase(e, st, inner)
            if v[0] in ("A", "S") and local_buf(e, v, "remaining"): return pull(s, ref, limit, st, bad)
        else:
            ref, v = None, inner
            if local_buf(e, v, "remaining"): return pull(s, ("R", e.newcell(st, v), ()), limit, st, bad)
        q = e.as_q(v, st)
        n = e.qlen(q, st)
        out = []
        for le, st2 in e.fork(st, LE(limit, n)):
            k = st2.nz(limit if le else n)
            a, b = e.qcut(q, k, st2)
            if ref is not None: e.wr(st2, ref, b)
            out.append((a, st2))
        return out
    if src[0] == "R":
        ref, v = chase(e, st, src)
        if v[0] in ("A", "S") and local_buf(e, v, "remaining"): return pull(s, ref, None, st, bad)
        q = e.as_q(v, st)
        t = e.ty(s.site["aty"][1]) if len(s.site["aty"]) > 1 else {"k": "?"}
        if t["k"] == "ref" and not t["mut"]: return [(q, st)]
        if t["k"] == "ref" and e.is_bytes_ty(t["to"]) and e.ty(t["to"])["k"] in ("slice", "str"): return [(q, st)]
        e.wr(st, ref, ("Q", ()))
        return [(q, st)]
    if src[0] in ("A", "S") and local_buf(e, src, "remaining"): return pull(s, ("R", e.newcell(st, src), ()), None, st, bad)
    return [(e.as_q(src, st), st)]


@m("bytes::bytes_mut::BytesMut::extend_from_slice", "<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::put_slice", "alloc::vec::Vec::<T, A>::extend_from_slice",
   "alloc::string::String::push_str")
def bm_extend(s):
    v = s.e.rd(s.st, s.a[0])
    if v[0] == "D": return None
    return [append(s, s.q(1)[1])]


@m("<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::put")
def bm_put_m(s):
    return bm_put(s)


@m("bytes::bytes_mut::BytesMut::unsplit")
def bm_unsplit(s):
    return [append(s, s.q(1)[1])]


@mp(r"<alloc::vec::Vec<.*> as core::iter::traits::collect::Extend<.*>>::extend", r"<bytes::bytes_mut::BytesMut as core::iter::traits::collect::Extend<.*>>::extend")
def bm_extend_iter(s):
    q = all_bytes(s, s.a[1])
    if q is not None and s.e.rd(s.st, s.a[0])[0] == "Q": return [append(s, q[1])]
    if s.a[1][0] in ("Q", "R") and "vec::Vec" not in (s.c.get("rpath") or s.c["path"]): return [append(s, s.q(1)[1])]
    if s.e.rd(s.st, s.a[0])[0] != "Q" or s.c.get("next") is None: return None
    got, res = collected(s, s.a[1])
    for items, st in got:
        items = tuple(s.e.rd(st, i) if i[0] == "R" else i for i in items)
        res.append(append(s, byte_segs(s, items, st), st))
    return res


@mp(r"bytes::bytes_mut::BytesMut::(capacity)", r"alloc::vec::Vec::<T, A>::capacity")
def capacity(s):
    return [s.ret(("I", ("a", ("cap", s.e.fresh(s.st, "cap")), 0, LENMAX)))]


# ------------------------------------------------------------------ Buf
def buf_method(s):
    e, st, n = s.e, s.st, s.name
    if n == "take":
        return [s.ret(("X", "take", (s.a[0], s.int(1))))]
    if n == "by_ref": return [s.ret(s.a[0])]
    if n == "reader" or n == "chain": return None
    ref = s.a[0]
    v = e.rd(st, ref)
    while v[0] == "R":
        ref = v
        v = e.rd(st, ref)
    if v[0] == "X" and v[1] == "take": return take_method(s, ref, v)
    f = local_buf(e, v, n)
    if f is not None:
        # &mut T forwarding to a local implementation
        return e.call_inst(f["inst"], [ref] + list(s.a[1:]), st, s.site["at"])
    q = e.as_q(v, st)
    ln = e.qlen(q, st)
    if n == "remaining": return [s.ret(("I", ln))]
    if n == "has_remaining": return [s.ret(("B", st.nzb(LT(C(0), ln))))]
    if n == "chunk": return [s.ret(s.newref(chunk_of(e, st, q, ref)))]
    if n == "chunks_vectored":
        # fills every slot, or as many as it needs to hand out everything
        slots = e.rd(st, s.a[1])
        if slots[0] != "D" or slots[2] is not None: return None
        k = len(slots[1])
        if not k: return [s.ret(("I", C(0)))]
        res = []
        for some, st2 in e.fork(st, LT(C(0), ln)):
            if not some:
                res.append(s.ret(("I", C(0)), st2))
                continue
            ways = [[q]]
            if not getattr(e, "contiguous", False):
                a = chunk_of(e, st2, q, ref)
                b = e.qcut(q, e.qlen(a, st2), st2)[1]
                ways = [[a]] if k == 1 else [[q], [a, b]] if k > 2 else [[q], [a, chunk_of(e, st2, b)]]
            for w in ways:
                st3 = st2.copy()
                e.wr(st3, s.a[1], ("D", tuple(w) + slots[1][len(w):], None, ()))
                res.append(s.ret(("I", C(len(w))), st3))
        return res

    def need(k, f, msg):
        res = []
        for ok, st2 in e.fork(st, LE(k, ln)):
            if not ok: res.append(s.panic(st2, msg))
            else:
                a, b = e.qcut(q, k, st2)
                e.wr(st2, ref, e.qnorm(b, st2))
                res.append(f(a, st2))
        return res
    if n == "advance":
        return need(s.int(1), lambda a, st2: s.unit(st2), "advance past the end")
    if n == "copy_to_bytes":
        return need(s.int(1), lambda a, st2: s.ret(e.qnorm(a, st2), st2), "copy_to_bytes past the end")
    if n == "copy_to_slice":
        dst = s.a[1]
        k = e.seqlen(e.rd(st, dst), st)

        def f(a, st2):
            old = e.rd(st2, dst)
            if old[0] == "A":
                b = e.qbits(a, st2)
                new = ("A", old[1], 0, tuple(("I", from_bits(tuple(reversed(b[i:i + 8])), st2)) for i in range(0, len(b), 8)))
                e.wr(st2, dst, new)
            else: e.wr(st2, dst, a)
            return s.unit(st2)
        return need(k, f, "copy_to_slice past the end")
    mt = re.match(r"get_([ui]\d+)(_le|_ne)?\Z", n)
    if mt:
        w = WIDTH[mt.group(1)]
        sg = mt.group(1)[0] == "i"
        return need(C(w), lambda a, st2: s.ret(("I", wrap(e.qint(a, st2, little=bool(mt.group(2))), 8 * w, sg, st2)), st2), "read past the end")
    mt = re.match(r"get_uint(_le)?\Z", n)
    if mt:
        w = s.int(1)
        if not is_c(w): return None
        return need(w, lambda a, st2: s.ret(("I", e.qint(a, st2, little=bool(mt.group(1)))), st2), "read past the end")
    return None


def chunk_of(e, st, q, ref=None):
    """Some non-empty prefix of q (empty only when q is); all of it where a check says that buffers are contiguous."""
    if getattr(e, "contiguous", False): return q
    n = e.qlen(q, st)
    # the chunk stays the same as long as nothing is read
    q = e.qnorm(q, st)
    key = (ref and ref[1:3], q[1][0][:3] if q[1] and q[1][0][0] == "sub" else q)
    k = e.chunks.get(key)
    if k is None: k = e.chunks[key] = len(e.chunks)
    t = ("a", ("chunklen", k), 0, LENMAX)
    st.assume(LE(t, n))
    if st.nz(n) == C(0): return ("Q", ())
    st.assume(LT(C(0), t) if st.decide(LT(C(0), n)) is True else OR([EQ(n, C(0), st), LT(C(0), t)]))
    try:
        return e.qcut(q, t, st)[0]
    except Undecided:
        # the contents do not matter to a check for panics
        if not getattr(e, "any_chunk", False): raise
        return ("Q", (("sub", ("chunk", k), C(0), t),))


@mp(r"std::io::IoSlice::<.*>::new", r"std::io::IoSlice::new")
def ioslice(s):
    return [s.ret(s.q(0))]


def take_method(s, ref, v):
    e, st = s.e, s.st
    inner, limit = v[2]
    if s.name == "remaining":
        fake = Site(e, st, s.c, [inner if inner[0] == "R" else s.newref(inner)], s.site)
        res = []
        for o in buf_method(fake):
            for le, st2 in e.fork(o.st, LE(limit, o.val[1])):
                res.append(s.ret(("I", st2.nz(limit if le else o.val[1])), st2))
        return res
    return None


# ------------------------------------------------------------------ conversions left open by a type parameter
@m("core::convert::Into::into", "core::convert::From::from")
def into(s):
    if s.c.get("kind") != "unresolved": return None
    v = s.a[0]
    if v[0] == "Q" and ("Bytes" in s.e.ty(s.dty)["s"] or "String" in s.e.ty(s.dty)["s"] or s.e.ty(s.dty)["k"] == "ref"): return [s.ret(v)]
    tag = v[1] if v[0] in ("S",) else (v[1][0][1] if v[0] == "Q" and len(v[1]) == 1 and v[1][0][0] == "sub" else repr(v))
    return [s.ret(s.e.mksym(("into", tag), s.dty))]


# ------------------------------------------------------------------ atomics
def atomic_ref(s):
    return s.a[0]


@mp(r"core::sync::atomic::Atomic::<\w+>::new", r"core::sync::atomic::Atomic\w+::new")
def at_new(s):
    return [s.ret(("X", "atomic", s.a[0]))]


def at_cell(s):
    v = s.e.rd(s.st, s.a[0])
    if v[0] == "X" and v[1] == "atomic": return v[2]
    if v[0] == "S":
        t = s.e.ty(v[2])
        inner = t["args"][0] if t.get("args") else None
        if inner is None: raise Undecided("atomic of " + t["s"])
        return s.e.mksym((v[1], "cell"), inner)
    raise Undecided("atomic cell")


def at_order(s, i):
    v = s.a[i]
    return v[2] if v[0] == "A" else None


def at_event(s, kind, st, **kw):
    st.events += (("atomic", kind, tuple(sorted((k, v) for k, v in kw.items()))),)


@mp(r"core::sync::atomic::Atomic::<\w+>::load")
def at_load(s):
    """Another thread may have changed the cell: every load is a new value."""
    t = s.e.ty(s.dty)
    n = s.e.fresh(s.st, "atomic")
    lo, hi = limits(t["w"], t["signed"])
    x = ("a", ("atomic", n), lo, hi)
    hook = getattr(s.e, "atomic_hook", None)
    if hook: hook(s.st, x)
    at_event(s, "load", s.st, value=x, cell=s.a[0])
    return [s.ret(("I", x))]


@mp(r"core::sync::atomic::Atomic::<\w+>::store")
def at_store(s):
    at_event(s, "store", s.st, value=s.int(1), cell=s.a[0])
    return [s.unit()]


@mp(r"core::sync::atomic::Atomic::<\w+>::(fetch_add|fetch_sub|fetch_and|fetch_or|fetch_xor|fetch_max|fetch_min|swap)")
def at_rmw(s):
    t = s.e.ty(s.dty)
    n = s.e.fresh(s.st, "atomic")
    lo, hi = limits(t["w"], t["signed"])
    x = ("a", ("atomic", n), lo, hi)
    hook = getattr(s.e, "atomic_hook", None)
    if hook: hook(s.st, x)
    a = s.int(1)
    res = []

    def done(new, st):
        at_event(s, "rmw", st, old=x, new=st.nz(new), cell=s.a[0])
        res.append(s.ret(("I", x), st))
    if s.name == "swap": done(a, s.st)
    elif s.name in ("fetch_max", "fetch_min"):
        for le, st in s.e.fork(s.st, LE(x, a)):
            done((a if le else x) if s.name == "fetch_max" else (x if le else a), st)
    else:
        o = {"fetch_add": "Add", "fetch_sub": "Sub", "fetch_and": "BitAnd", "fetch_or": "BitOr", "fetch_xor": "BitXor"}[s.name]
        done(s.e.arith(s.st, o, x, a, t["w"], t["signed"])[1], s.st)
    return res


@mp(r"core::sync::atomic::Atomic::<\w+>::(compare_exchange|compare_exchange_weak|compare_and_swap)")
def at_cas(s):
    cur, new = s.int(1), s.int(2)
    t = s.e.ty(s.site["aty"][1])
    lo, hi = limits(t["w"], t["signed"])
    res = []
    st = s.st.copy()
    st.forks += 1
    if s.name == "compare_and_swap": raise Undecided("compare_and_swap")
    n = s.e.fresh(st, "atomic")
    x = ("a", ("atomic", n), lo, hi)
    hook = getattr(s.e, "atomic_hook", None)
    if hook: hook(st, x)
    if st.assume(EQ(x, cur, st)) is not False:
        at_event(s, "rmw", st, old=cur, new=new, cell=s.a[0])
        res.append(s.ret(("A", s.dty, 0, (("I", cur),)), st))
    st = s.st.copy()
    st.forks += 1
    n = s.e.fresh(st, "atomic")
    x = ("a", ("atomic", n), lo, hi)
    hook = getattr(s.e, "atomic_hook", None)
    if hook: hook(st, x)
    at_event(s, "load", st, value=x, cell=s.a[0])
    res.append(s.ret(("A", s.dty, 1, (("I", x),)), st))
    return res


@mp(r"core::sync::atomic::Atomic::<\w+>::(fetch_update|update|try_update)")
def at_update(s):
    """One indivisible step: new = f(old), or nothing when f declines."""
    t = None
    for a in s.c["args"]: pass
    clos = s.a[3]
    cellty = None
    v = s.e.rd(s.st, s.a[0])
    mt = re.search(r"Atomic::<(\w+)>", s.c.get("rpath") or s.c["path"])
    tid = s.e.tid(mt.group(1))
    t = s.e.ty(tid)
    n = s.e.fresh(s.st, "atomic")
    lo, hi = limits(t["w"], t["signed"])
    x = ("a", ("atomic", n), lo, hi)
    hook = getattr(s.e, "atomic_hook", None)
    if hook: hook(s.st, x)
    res = []
    for o in s.e.apply(clos, [("I", x)], s.st, s.site):
        if o.kind != "return":
            res.append(o)
            continue
        if s.name == "update":
            at_event(s, "rmw", o.st, old=x, new=o.st.nz(o.val[1]), cell=s.a[0])
            res.append(s.ret(("I", x), o.st))
        else:
            for var, st, w in s.e.fork_variant(o.st, o.val):
                if var == 1:
                    at_event(s, "rmw", st, old=x, new=st.nz(w[3][0][1]), cell=s.a[0])
                    res.append(s.ret(("A", s.dty, 0, (("I", x),)), st))
                else:
                    at_event(s, "load", st, value=x, cell=s.a[0])
                    res.append(s.ret(("A", s.dty, 1, (("I", x),)), st))
    return res


@mp(r"core::sync::atomic::Atomic::<\w+>::(get_mut|into_inner)")
def at_excl(s):
    raise Undecided("exclusive access to an atomic")


# ------------------------------------------------------------------ maps
@m("dashmap::DashMap::<K, V, S>::is_empty", "dashmap::DashMap::<K, V>::is_empty")
def dm_is_empty(s):
    n = s.e.fresh(s.st, "isempty")
    b = ("at", ("isempty", n))
    s.st.events += (("isempty", b, s.a[0]),)
    return [s.ret(("B", b))]


@m("dashmap::DashMap::<K, V, S>::len", "dashmap::DashMap::<K, V>::len", "dashmap::DashMap::<K, V, S>::capacity", "dashmap::DashMap::<K, V>::capacity")
def dm_len(s):
    # others come and go meanwhile: any number
    return [s.ret(("I", ("a", ("number of streams", s.e.fresh(s.st, "number of streams")), 0, 1 << 40)))]


@m("dashmap::DashMap::<K, V, S>::contains_key", "dashmap::DashMap::<K, V>::contains_key")
def dm_contains(s):
    k = s.e.rd(s.st, s.a[1])
    n = s.e.fresh(s.st, "contains")
    b = ("at", ("contains", n))
    s.st.events += (("contains", s.snapshot_key(k) if False else s.e.norm(k, s.st), b, s.a[0]),)
    return [s.ret(("B", b))]


@m("dashmap::DashMap::<K, V, S>::get", "dashmap::DashMap::<K, V>::get")
def dm_get(s):
    k = s.e.rd(s.st, s.a[1])
    n = s.e.fresh(s.st, "contains")
    b = ("at", ("contains", n))
    s.st.events += (("contains", s.e.norm(k, s.st), b, s.a[0]),)
    res = []
    for have, st in s.e.fork(s.st, b):
        if have:
            ty = s.e.fields_of(s.dty, 1)[0]
            res.append(s.opt(("S", ("dashref", n), ty), st))
        else: res.append(s.opt(None, st))
    return res


# ------------------------------------------------------------------ queues
def dq(s, i=0):
    v = s.e.rd(s.st, s.a[i])
    if v[0] != "D": raise Undecided("queue is %s" % v[0])
    return s.e.dnorm(v, s.st)


def dq_force(s, ref, st, back=False):
    """[(queue with a known first item or empty, state)]"""
    e = s.e
    v = e.dnorm(e.rd(st, ref), st)
    if v[1] or v[2] is None:
        e.wr(st, ref, v)
        return [(v, st)]
    out = []
    for empty, st2 in e.fork(st, ("at", ("empty", v[2]))):
        w = e.dnorm(v, st2)
        if not empty:
            # the sum of a queue splits into its head and its tail
            tail = v[2]
            tot, hd, tl = len_atom(("cat", tail)), len_atom((tail[0], "head")), len_atom(("cat", ((tail[0], "tl"), tail[1])))
            st2.assume(EQ0(sub(sub(tot, hd), tl)))
            ln, lt = ("a", ("qn", tail), 0, LENMAX), ("a", ("qn", ((tail[0], "tl"), tail[1])), 0, LENMAX)
            st2.assume(EQ0(sub(sub(ln, lt), C(1))))
        else:
            tail = v[2]
            st2.assume(EQ0(len_atom(("cat", tail))))
            st2.assume(EQ0(("a", ("qn", tail), 0, LENMAX)))
        e.wr(st2, ref, w)
        out.append((w, st2))
    return out


@m("alloc::collections::vec_deque::VecDeque::<T>::new", "alloc::collections::vec_deque::VecDeque::<T>::with_capacity",
   "<alloc::collections::vec_deque::VecDeque<T> as core::default::Default>::default")
def dq_new(s):
    reserved(s)
    return [s.ret(("D", (), None, ()))]


@mp(r"alloc::collections::vec_deque::VecDeque::<T, A>::len", r"alloc::collections::vec_deque::VecDeque::<T, A>::is_empty")
def dq_len(s):
    v = dq(s)
    n = C(len(v[1]) + len(v[3]))
    if v[2] is not None: n = add(n, ("a", ("qn", v[2]), 0, LENMAX))
    if s.name == "is_empty":
        if v[1] or v[3]: return [s.ret(("B", False))]
        if v[2] is None: return [s.ret(("B", True))]
        return [s.ret(("B", ("at", ("empty", v[2]))))]
    return [s.ret(("I", s.st.nz(n)))]


@mp(r"alloc::collections::vec_deque::VecDeque::<T, A>::(front|front_mut|get|get_mut)", r"<alloc::collections::vec_deque::VecDeque<T, A> as core::ops::index::Index(Mut)?<usize>>::index(_mut)?")
def dq_front(s):
    if s.name in ("get", "get_mut", "index", "index_mut"):
        i = s.int(1)
        if not is_c(i): raise Undecided("queue index")
        if i[1] > 0:
            v = dq_list(s)
            if i[1] >= len(v[1]): return [s.panic(s.st, "queue index out of bounds") if s.name.startswith("index") else s.opt(None)]
            c, p = s.e.deref(s.st, s.a[0])
            r = ("R", c, p + (("dq", i[1]),))
            return [s.ret(r) if s.name.startswith("index") else s.opt(r)]
    res = []
    for v, st in dq_force(s, s.a[0], s.st):
        if not v[1]:
            if s.name.startswith("index"): res.append(s.panic(st, "queue index out of bounds"))
            else: res.append(s.opt(None, st))
        else:
            c, p = s.e.deref(st, s.a[0])
            r = ("R", c, p + (("dq", 0),))
            res.append(s.ret(r, st) if s.name.startswith("index") else s.opt(r, st))
    return res


def dq_list(s):
    """A queue of known length, written back with all its items in front."""
    v = dq(s)
    if v[2] is not None: raise Undecided("%s of a queue of unknown length" % s.name)
    v = ("D", v[1] + v[3], None, ())
    s.e.wr(s.st, s.a[0], v)
    return v


@mp(r"alloc::collections::vec_deque::VecDeque::<T, A>::(back|back_mut|pop_back|swap|insert|remove|clear|truncate)")
def dq_known_ops(s):
    v, n = dq_list(s), s.name
    k = len(v[1])

    def put(items): s.e.wr(s.st, s.a[0], ("D", tuple(items), None, ()))
    if n in ("back", "back_mut"):
        if not k: return [s.opt(None)]
        c, p = s.e.deref(s.st, s.a[0])
        return [s.opt(("R", c, p + (("dq", k - 1),)))]
    if n == "pop_back":
        if not k: return [s.opt(None)]
        put(v[1][:-1])
        return [s.opt(v[1][-1])]
    if n == "clear":
        put(())
        return [s.unit()]
    i = s.int(1)
    if not is_c(i): raise Undecided("queue index")
    i = i[1]
    if n == "truncate":
        put(v[1][:i])
        return [s.unit()]
    if n == "remove":
        if i >= k: return [s.opt(None)]
        put(v[1][:i] + v[1][i + 1:])
        return [s.opt(v[1][i])]
    if n == "insert":
        if i > k: return [s.panic(s.st, "queue index out of bounds")]
        put(v[1][:i] + (s.a[2],) + v[1][i:])
        return [s.unit()]
    j = s.int(2)
    if not is_c(j): raise Undecided("queue index")
    j = j[1]
    if max(i, j) >= k: return [s.panic(s.st, "queue index out of bounds")]
    w = list(v[1])
    w[i], w[j] = w[j], w[i]
    put(w)
    return [s.unit()]


@mp(r"alloc::collections::vec_deque::VecDeque::<T, A>::pop_front")
def dq_pop(s):
    res = []
    for v, st in dq_force(s, s.a[0], s.st):
        if not v[1]: res.append(s.opt(None, st))
        else:
            s.e.wr(st, s.a[0], ("D", v[1][1:], v[2], v[3]))
            res.append(s.opt(v[1][0], st))
    return res


@mp(r"alloc::collections::vec_deque::VecDeque::<T, A>::(push_back|push_front)", r"alloc::vec::Vec::<T, A>::push")
def dq_push(s):
    v0 = s.e.rd(s.st, s.a[0])
    if v0[0] == "Q":
        return [append(s, (s.e.int_q(s.int(1), 1, s.st),))]
    v = dq(s)
    if s.name == "push_front": s.e.wr(s.st, s.a[0], ("D", (s.a[1],) + v[1], v[2], v[3]))
    else:
        s.e.wr(s.st, s.a[0], s.e.dnorm(("D", v[1], v[2], v[3] + (s.a[1],)), s.st))
    return [s.unit()]


@mp(r"alloc::collections::vec_deque::VecDeque::<T, A>::iter", r"<&'a alloc::collections::vec_deque::VecDeque<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
    r"<&'a mut alloc::collections::vec_deque::VecDeque<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
    r"alloc::collections::vec_deque::VecDeque::<T, A>::iter_mut")
def dq_iter(s):
    v = dq(s)
    mut = s.name == "iter_mut" or "&'a mut" in (s.c.get("rpath") or s.c["path"])
    if mut and v[2] is not None: raise Undecided("mutable iteration over a queue of unknown length")
    if mut: s.e.wr(s.st, s.a[0], v)
    return [s.ret(("X", "dqiter", (v, "mut" if mut else "ref", s.a[0])))]


@mp(r"<alloc::(?:collections::vec_deque::VecDeque|vec::Vec)<.*> as core::iter::traits::collect::FromIterator<.*>>::from_iter",
    r"<bytes::bytes(?:_mut)?::Bytes(?:Mut)? as core::iter::traits::collect::FromIterator<.*>>::from_iter")
def dq_collect(s):
    """Collects what an iterator yields."""
    nx = s.c.get("next")
    t = s.e.ty(s.dty)
    byte = s.e.is_bytes_ty(s.dty)
    q = all_bytes(s, s.a[0])
    if byte and q is not None: return [s.ret(q)]
    if nx is None or t["k"] != "adt": return None
    got, res = collected(s, s.a[0])
    for items, st in got:
        res.append(s.ret(s.e.qnorm(("Q", byte_segs(s, items, st)), st) if byte else ("D", items, None, ()), st))
    return res


def byte_segs(s, items, st):
    if any(i[0] != "I" for i in items): raise Undecided("the bytes collected")
    return tuple(s.e.int_q(i[1], 1, st) for i in items)


def collected(s, it):
    """What an iterator yields until it ends: the (items, state), and outcomes that do not return."""
    nx = s.c["next"]
    r = ("R", s.e.newcell(s.st, it), ())
    work, got, res = [((), s.st)], [], []
    item_ty = optty(s.e, nx, s)
    for _ in range(300):
        new = []
        for items, st in work:
            for o in s.e.apply_callee(Callee(nx), [r], st, dict(s.site, dty=item_ty)):
                if o.kind != "return":
                    res.append(o)
                    continue
                for some, x, st2 in opt_cases(s.e, o.val, o.st):
                    if some: new.append((items + (x,), st2))
                    else: got.append((items, st2))
        work = new
        if not work: return got, res
        if len(work) > 64: break
    raise Undecided("collecting an iterator of unknown length")


def optty(e, nx, s):
    """Some type of next's result, for models that ask (the Option of the collected item)."""
    b = e.bodies[nx["inst"]] if nx.get("inst") is not None else None
    if b is not None: return b["locals"][0]
    raise Undecided("collecting from " + (nx.get("rpath") or nx["path"]))


def opt_cases(e, v, st):
    """[(is it Some, contents, state)] of an Option."""
    w = e.resolve_enum(v, st)
    if w[0] == "A": return [(w[2] == 1, w[3][0] if w[3] else None, st)]
    if w[0] != "S": raise Undecided("presence of an item")
    out = []
    for k in (0, 1):
        p = st.vars.get(w[1])
        if p is not None and k not in p: continue
        st2 = st.copy()
        st2.vars[w[1]] = frozenset([k])
        x = e.resolve_enum(w, st2)
        out.append((k == 1, x[3][0] if x[3] else None, st2))
    return out


@mp(r"<alloc::(?:collections::vec_deque::(?:iter::Iter|iter_mut::IterMut|into_iter::IntoIter)|vec::into_iter::IntoIter)<.*> as core::iter::traits::(?:iterator::Iterator>::size_hint|exact_size::ExactSizeIterator>::len)")
def dq_hint(s):
    it = s.e.rd(s.st, s.a[0])
    n = ("I", C(len(dq_known(s, it, False)[1])))
    if s.name == "len": return [s.ret(n)]
    ot = s.e.fields_of(s.dty)
    return [s.ret(("A", s.dty, 0, (n, ("A", ot[1] if ot else None, 1, (n,)))))]


@mp(r"<alloc::(?:collections::vec_deque::VecDeque|vec::Vec)<T, A> as core::iter::traits::collect::IntoIterator>::into_iter")
def dq_into_iter(s):
    v = s.a[0]
    if v[0] != "D": return None
    return [s.ret(("X", "dqiter", (v, "val", None)))]


def dq_item(s, it, x, st, i=0):
    """The i-th of the items left, as the iterator gives it out."""
    if it[1] == "val": return x
    if it[1] == "mut":
        src = s.e.rd(st, it[2])
        c, p = s.e.deref(st, it[2])
        return ("R", c, p + (("dq", len(src[1]) - len(it[0][1]) + i),))
    return ("R", s.e.newcell(st, x), ())


@mp(r"<alloc::(?:collections::vec_deque::(?:iter::Iter|iter_mut::IterMut|into_iter::IntoIter)|vec::into_iter::IntoIter)<.*> as core::iter::traits::iterator::Iterator>::next")
def dq_next(s):
    it = s.e.rd(s.st, s.a[0])
    if it[0] != "X" or it[1] != "dqiter": raise Undecided("queue iterator")
    cell = s.e.newcell(s.st, it[2][0])
    res = []
    for v, st in dq_force(s, ("R", cell, ()), s.st):
        if not v[1]:
            s.e.wr(st, s.a[0], ("X", "dqiter", (v,) + it[2][1:]))
            res.append(s.opt(None, st))
        else:
            s.e.wr(st, s.a[0], ("X", "dqiter", (("D", v[1][1:], v[2], v[3]),) + it[2][1:]))
            res.append(s.opt(dq_item(s, it[2], v[1][0], st), st))
    return res


@mp(r"<alloc::(?:collections::vec_deque::(?:iter::Iter|iter_mut::IterMut|into_iter::IntoIter)|vec::into_iter::IntoIter)<.*> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back")
def dq_next_back(s):
    it = s.e.rd(s.st, s.a[0])
    v = dq_known(s, it)
    if not v[1]: return [s.opt(None)]
    s.e.wr(s.st, s.a[0], ("X", "dqiter", (("D", v[1][:-1], None, v[3]),) + it[2][1:]))
    return [s.opt(dq_item(s, it[2], v[1][-1], s.st))]


def dq_known(s, it, back=True):
    """The items of a queue iterator over a list of known length."""
    if it[0] != "X" or it[1] != "dqiter": raise Undecided("queue iterator")
    v = s.e.dnorm(it[2][0], s.st)
    if v[2] is not None: raise Undecided("iteration over a queue of unknown length")
    if back and it[2][1] == "mut": raise Undecided("mutable iteration from the back")
    return v


@mp(r"<alloc::(?:collections::vec_deque::(?:iter::Iter|iter_mut::IterMut|into_iter::IntoIter)|vec::into_iter::IntoIter)<.*> as core::iter::traits::double_ended::DoubleEndedIterator>::rfold")
def dq_rfold(s):
    v = dq_known(s, s.a[0])
    states, res = [(s.a[1], s.st)], []
    for x in reversed(v[1]):
        new = []
        for acc, st in states:
            for o in s.e.apply(s.a[2], [acc, dq_item(s, s.a[0][2], x, st)], st, s.site):
                if o.kind == "return": new.append((o.val, o.st))
                else: res.append(o)
        states = new
    return res + [s.ret(a, st) for a, st in states]


@mp(r"<alloc::(?:collections::vec_deque::(?:iter::Iter|iter_mut::IterMut|into_iter::IntoIter)|vec::into_iter::IntoIter)<.*> as core::iter::traits::(iterator::Iterator>::try_fold|double_ended::DoubleEndedIterator>::try_rfold)")
def dq_try_fold(s):
    """try_fold over a list of known length."""
    it = s.e.rd(s.st, s.a[0])
    back = s.name == "try_rfold"
    v = dq_known(s, it, back)
    items = v[1][::-1] if back else v[1]
    t = s.e.ty(s.dty)
    if t["k"] != "adt" or t["path"].split("::")[-1] not in ("Result", "Option", "ControlFlow"): raise Undecided("try_fold to " + t["s"])
    good = 1 if t["path"].endswith("Option") else 0
    fs = s.e.fields_of(s.dty, good)
    states, res = [(s.a[1], s.st)], []
    for i, x in enumerate(items):
        new = []
        for acc, st in states:
            s.e.wr(st, s.a[0], ("X", "dqiter", (("D", items[:i:-1] if back else items[i + 1:], None, v[3]),) + it[2][1:]))
            for o in s.e.apply(s.a[2], [acc, dq_item(s, it[2], x, st, i)], st, s.site):
                if o.kind != "return":
                    res.append(o)
                    continue
                r = s.e.resolve_enum(o.val, o.st)
                if r[0] != "A": raise Undecided("try_fold step")
                if r[2] == good: new.append((r[3][0], o.st))
                else: res.append(s.ret(("A", s.dty, r[2], r[3]), o.st))
        states = new
    return res + [s.ret(("A", s.dty, good, (a,)), st) for a, st in states]


@mp(r"<alloc::(?:collections::vec_deque::(?:iter::Iter|iter_mut::IterMut|into_iter::IntoIter)|vec::into_iter::IntoIter)<.*> as core::iter::traits::iterator::Iterator>::fold")
def dq_fold(s):
    """fold with a function that adds an amount per item."""
    it = s.a[0]
    if it[0] != "X" or it[1] != "dqiter": raise Undecided("queue fold")
    v, init, f = it[2][0], s.a[1], s.a[2]
    v = s.e.dnorm(v, s.st)
    states = [(init, s.st)]
    res = []

    def step(x, states, i=0):
        out = []
        for acc, st in states:
            for o in s.e.apply(f, [acc, dq_item(s, it[2], x, st, i)], st, s.site):
                if o.kind == "return": out.append((o.val, o.st))
                else: res.append(o)
        return out
    for i, x in enumerate(v[1]): states = step(x, states, i)
    if v[2] is not None:
        out = []
        for acc, st in states:
            if acc[0] != "I": raise Undecided("queue fold of %s" % acc[0])
            # an arbitrary item: what does it add?
            probe = ("a", ("foldacc", s.e.fresh(st, "foldacc")), 0, LENMAX)
            item = s.e.mksym((v[2][0], "any"), v[2][1])
            ends = s.e.apply(f, [("I", probe), dq_item(s, it[2], item, st)], st.copy(), s.site)
            rets = [o for o in ends if o.kind == "return"]
            res += [o for o in ends if o.kind != "return" and o.kind != "panic"]
            for o in ends:
                if o.kind == "panic" and "overflow" not in o.msg: res.append(o)
            if len(rets) != 1: raise Undecided("queue fold")
            d = rets[0].st.nz(sub(rets[0].val[1], probe))
            if d == len_atom((v[2][0], "any")):
                total = len_atom(("cat", v[2]))
            else:
                total = op("sum", (v[2], repr(d)), 0, (1 << 64) - 1)
            out.append((("I", st.nz(add(acc[1], total))), st))
        states = out
    for x in v[3]: states = step(x, states)
    return res + [s.ret(a, st) for a, st in states]


# ------------------------------------------------------------------ formatting
def decode_template(b):
    """Pieces of a format_args! template: ('s', bytes) or ('a', index, plain)."""
    out, i, arg = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0: break
        if n < 0x80:
            out.append(("s", b[i:i + n]))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            out.append(("s", b[i + 2:i + 2 + ln]))
            i += 2 + ln
        elif n == 0xC0:
            out.append(("a", arg, True))
            arg += 1
        else:
            opts = ()
            if n & 1: opts += (("flags", bytes(b[i:i + 4])),); i += 4
            if n & 2: opts += (("width", bytes(b[i:i + 2])),); i += 2
            if n & 4: opts += (("prec", bytes(b[i:i + 2])),); i += 2
            if n & 8:
                arg = b[i] | b[i + 1] << 8
                i += 2
            out.append(("a", arg, opts))
            arg += 1
    return out


@mp(r"core::fmt::Arguments::<'a>::new(_const|_v1)?")
def fmt_new(s):
    tpl = s.e.qconst(s.e.as_q(s.a[0], s.st))
    arr = s.e.rd(s.st, s.a[1])
    if tpl is None: raise Undecided("format template")
    return [s.ret(("X", "fmtargs", (tuple(decode_template(tpl)), arr[3] if arr[0] == "A" else ())))]


@mp(r"core::fmt::Arguments::<'a>::from_str(_nonconst)?")
def fmt_str(s):
    k = s.q(0)
    return [s.ret(("X", "fmtargs", ((("q", k),), ())))]


@mp(r"core::fmt::rt::Argument::<'_>::new_\w+")
def fmt_arg(s):
    return [s.ret(("X", "fmtarg", (s.name, s.a[0], s.site["aty"][0])))]


def fmt_event(s, st, ev):
    st.events += (("fmt", ev),)


def fmt_result(s, st):
    n = s.e.fresh(st, "fmtres")
    return s.e.mksym(("fmtres", n), s.dty)


@mp(r"core::fmt::Formatter::<'a>::(write_str|pad)", r"<core::fmt::Formatter<'_> as core::fmt::Write>::write_str")
def fmt_write_str(s):
    fmt_event(s, s.st, ("str", s.e.norm(s.q(1), s.st)))
    return [s.ret(fmt_result(s, s.st))]


@mp(r"core::fmt::Formatter::<'a>::write_fmt", r"core::fmt::write", r"<core::fmt::Formatter<'_> as core::fmt::Write>::write_fmt")
def fmt_write_fmt(s):
    a = s.a[1]
    if a[0] != "X" or a[1] != "fmtargs": raise Undecided("format arguments")
    for p in a[2][0]:
        if p[0] == "s": fmt_event(s, s.st, ("str", ("Q", (be_const(p[1]),))))
        elif p[0] == "q": fmt_event(s, s.st, ("str", s.e.norm(p[1], s.st)))
        else:
            arg = a[2][1][p[1]]
            fmt_event(s, s.st, ("arg", arg[2][0], s.e.snapshot(s.st, arg[2][1]), p[2], arg[2][2]))
    return [s.ret(fmt_result(s, s.st))]


@mp(r"<(&T|alloc::boxed::Box<T, A>|str|alloc::string::String|[iu](8|16|32|64|128|size)) as core::fmt::Display>::fmt", r"core::fmt::Display::fmt",
    r"core::fmt::num::imp::<impl core::fmt::Display for \w+>::fmt")
def fmt_direct(s):
    """Display::fmt called on a value that is not the library's own."""
    if s.c.get("inst") is not None or s.c.get("trait", "").startswith("binate"): return None
    fmt_event(s, s.st, ("arg", "new_display", s.e.snapshot(s.st, s.a[0]), True, s.site["aty"][0]))
    return [s.ret(fmt_result(s, s.st))]


def text_of(s, v):
    """The text a value displays as."""
    v = s.e.snapshot(s.st, v)
    while v[0] == "&" or v[0] == "X" and v[1] == "boxerr": v = v[1] if v[0] == "&" else v[2]
    if v[0] == "Q": return v[1]
    n = s.e.fresh(s.st, "to_string")
    s.st.events += (("to_string", v, n),)
    return qatom(("to_string", repr(v)))[1]


@mp(r"<T as alloc::string::ToString>::to_string", r"alloc::fmt::format(::.*)?")
def to_string(s):
    a = s.a[0]
    if a[0] == "X" and a[1] == "fmtargs":
        segs = ()
        for p in a[2][0]:
            if p[0] == "s": segs += (be_const(p[1]),)
            elif p[0] == "q": segs += s.e.as_q(p[1], s.st)[1]
            else:
                arg = a[2][1][p[1]]
                if arg[2][0] == "new_display" and p[2] is True: segs += text_of(s, arg[2][1])
                else: segs += qatom(("formatted", repr((arg[2][0], p[2], s.e.snapshot(s.st, arg[2][1])))))[1]
        return [s.ret(s.e.qnorm(("Q", segs), s.st))]
    return [s.ret(("Q", text_of(s, a)))]


@mp(r"core::fmt::Formatter::<'a>::(alternate|sign_plus|sign_minus|sign_aware_zero_pad|width|precision)")
def fmt_flags(s):
    """Texts are judged as {} shows them."""
    return [s.ret(("B", False)) if s.e.ty(s.dty)["k"] == "bool" else s.opt(None)]


@mp(r"core::fmt::Formatter::<'a>::debug_\w+", r"core::fmt::builders::.*", r"core::fmt::Formatter::<'a>::\w+")
def fmt_dbg(s):
    s.st.events += (("fmtdbg", s.name, tuple(s.e.snapshot(s.st, a) for a in s.a[1:])),)
    if s.e.ty(s.dty)["k"] == "ref": return [s.ret(s.a[0])]
    n = s.e.fresh(s.st, "dbg")
    return [s.ret(s.e.mksym(("dbg", n), s.dty))]


@mp(r"<.* as core::fmt::(Display|Debug|LowerHex|UpperHex|Octal|Binary)>::fmt", r"core::fmt::num::.*::fmt")
def fmt_prim(s):
    rp = s.c.get("rpath") or s.c["path"]
    if is_local_impl(s.e, s.c): return None
    tr = re.search(r"core::fmt::(Display|Debug|LowerHex|UpperHex|Octal|Binary)", rp).group(1)
    tr = {"Display": "display", "Debug": "debug", "LowerHex": "lower_hex", "UpperHex": "upper_hex", "Octal": "octal", "Binary": "binary"}[tr]
    v = s.e.snapshot(s.st, s.a[0])
    if tr == "display":
        try:
            fmt_event(s, s.st, ("str", s.e.norm(s.q(0), s.st)))
            return [s.ret(fmt_result(s, s.st))]
        except Undecided: pass
    fmt_event(s, s.st, ("arg", "new_" + tr, v, True, s.site["aty"][0]))
    return [s.ret(fmt_result(s, s.st))]


# ------------------------------------------------------------------ errors in boxes
@mp(r"alloc::boxed::convert::<impl core::convert::From<.*> for alloc::boxed::Box<\(?dyn core::error::Error.*>>::from")
def box_error(s):
    return [s.ret(s.newref(("X", "boxerr", s.e.snapshot(s.st, s.a[0]))))]


def boxed(s, v):
    """The error in a box: (its value, its type's name; None if a message made into an error), or None if nothing is known of it."""
    while v[0] == "R": v = s.e.rd(s.st, v)
    if v[0] != "X" or v[1] != "boxerr": return None
    v = v[2]
    while v[0] == "&": v = v[1]
    if v[0] in ("A", "S"): return v, s.e.types[v[1] if v[0] == "A" else v[2]]["s"]
    try:
        s.e.as_q(v, s.st)
        return v, None
    except Undecided: return None


@mp(r"<\(?dyn core::error::Error.*>::(downcast_ref|downcast_mut|is)", r"core::error::<impl \(?dyn core::error::Error.*>::(downcast_ref|downcast_mut|is)")
def downcast(s):
    """Is the error of this type?  Anything is possible of one nothing is known about."""
    t = s.c["args"][0] if s.c.get("args") else None
    if t is None: return None
    want = s.e.types[t]["s"]
    b = boxed(s, s.a[0])
    if b is None: return [s.ret(s.e.mksym(("downcast", want, repr(s.e.snapshot(s.st, s.a[0]))), s.dty))]
    if s.name == "is": return [s.ret(("B", b[1] == want))]
    return [s.opt(s.newref(b[0]) if b[1] == want else None)]


# ------------------------------------------------------------------ time
@mp(r"core::time::Duration::from_millis")
def dur_ms(s):
    return [s.ret(("X", "duration", ("ms", s.int(0))))]


@mp(r"core::time::Duration::from_secs")
def dur_s(s):
    return [s.ret(("X", "duration", ("ms", s.st.nz(scale(s.int(0), 1000)))))]


@mp(r"core::time::Duration::as_millis")
def dur_as_ms(s):
    v = s.e.rd(s.st, s.a[0])
    if v[0] == "X" and v[1] == "duration": return [s.ret(("I", v[2][1]))]
    return None


@mp(r"<core::time::Duration as core::cmp::PartialEq>::(eq|ne)", r"<core::time::Duration as core::cmp::PartialOrd>::(lt|le|gt|ge|partial_cmp)", r"<core::time::Duration as core::cmp::Ord>::cmp")
def dur_cmp(s):
    l, r = s.e.rd(s.st, s.a[0]), s.e.rd(s.st, s.a[1])
    if not (l[0] == r[0] == "X" and l[1] == r[1] == "duration" and l[2][0] == r[2][0]): return None
    x, y = s.st.nz(l[2][1]), s.st.nz(r[2][1])
    if s.name == "cmp": return [s.ret(("X", "cmp", (x, y)))]
    if s.name == "partial_cmp": return [s.opt(("X", "cmp", (x, y)))]
    c = EQ(x, y, s.st) if s.name in ("eq", "ne") else {"lt": LT(x, y), "le": LE(x, y), "gt": LT(y, x), "ge": LE(y, x)}[s.name]
    return [s.ret(("B", s.st.nzb(NOT(c) if s.name == "ne" else c)))]


@mp(r"<core::time::Duration as core::ops::arith::Mul<u32>>::mul", r"<u32 as core::ops::arith::Mul<core::time::Duration>>::mul")
def dur_mul(s):
    d, n = s.a if s.a[0][0] == "X" else (s.a[1], s.a[0])
    if d[0] == "X" and d[1] == "duration" and is_c(d[2][1]): return [s.ret(("X", "duration", ("ms", s.st.nz(scale(n[1], d[2][1][1])))))]
    return None


def local_eq(e, ty):
    """How this crate compares two values of one of its types."""
    t = e.types[ty] if ty is not None else {}
    if t.get("k") != "adt": return None
    for f in e.d.fns:
        if f.get("name") == "eq" and f.get("trait", "").split("<")[0].endswith("PartialEq") and "self" in f and f.get("inst") is not None and e.types[f["self"]].get("path") == t["path"]: return f["inst"]
    return None


@mp(r"core::slice::<impl \[T\]>::contains")
def sl_contains(s):
    """Is one of the integers of a list the given one? (The library looks at several at a time.)"""
    v, x = s.e.rd(s.st, s.a[0]), s.e.rd(s.st, s.a[1])
    if x[0] != "I":
        f = local_eq(s.e, s.c["args"][0] if s.c.get("args") else None)
        if f is None or v[0] != "A" or len(v[3]) > 64: return None
        c, p = s.e.deref(s.st, s.a[0])
        res, go = [], [s.st]
        for i in range(len(v[3])):
            outs = [o for st in go for o in s.e.call_inst(f, [("R", c, p + (("i", C(i)),)), s.a[1]], st, s.site["at"])]
            go = []
            for o in outs:
                if o.kind != "return":
                    res.append(o)
                    continue
                for t, st in s.e.fork(o.st, o.val[1]):
                    if t: res.append(s.ret(("B", True), st))
                    else: go.append(st)
        return res + [s.ret(("B", False), st) for st in go]
    if v[0] == "A": items = v[3]
    elif v[0] == "Q":
        k = s.e.qconst(s.e.qnorm(v, s.st))
        if k is None: return None
        items = [("I", C(b)) for b in k]
    else: return None
    if len(items) > 64 or any(i[0] != "I" for i in items): return None
    res, st = [], s.st
    for i in items:
        rest = None
        for t, st2 in s.e.fork(st, EQ(st.nz(i[1]), st.nz(x[1]), st)):
            if t: res.append(s.ret(("B", True), st2))
            else: rest = st2
        if rest is None: return res
        st = rest
    return res + [s.ret(("B", False), st)]


# ------------------------------------------------------------------ iterators over arrays of known length
@mp(r"core::slice::<impl \[T\]>::iter(_mut)?", r"core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a (mut )?\[T\]>::into_iter",
    r"core::array::<impl core::iter::traits::collect::IntoIterator for &'a (mut )?\[T; N\]>::into_iter",
    r"core::array::iter::<impl core::iter::traits::collect::IntoIterator for \[T; N\]>::into_iter")
def sl_iter(s):
    if s.a[0][0] == "A": return [s.ret(("X", "sliter", (None, s.a[0][3])))]
    c, p = s.e.deref(s.st, s.a[0])
    v = s.e.read(s.st, c, p)
    if v[0] == "Q" and s.e.types[s.dty].get("path", "").endswith("slice::iter::Iter"): return [s.ret(("X", "qiter", s.e.qnorm(v, s.st)))]
    if v[0] != "A": return None
    return [s.ret(("X", "sliter", (None, tuple(("R", c, p + (("i", C(i)),)) for i in range(len(v[3]))))))]


def short_bytes(s, st, v):
    """The iterator over a byte sequence of known length as one over its bytes."""
    if v[0] == "X" and v[1] == "qiter":
        n = st.nz(s.e.qlen(v[2], st))
        if is_c(n) and n[1] <= 64: return ("X", "sliter", (None, tuple(s.newref(("I", s.e.qbyte(v[2], C(i), st)), st) for i in range(n[1]))))
    return v


def all_bytes(s, v):
    """The byte sequence an untouched iterator over bytes goes through."""
    while v[0] == "A" and len(v[3]) == 1 and s.e.types[v[1]].get("path", "").split("::")[-1] in ("Copied", "Cloned"): v = v[3][0]
    return v[2] if v[0] == "X" and v[1] in ("qiter", "qvals") else None


@m("<bytes::bytes::Bytes as core::iter::traits::collect::IntoIterator>::into_iter", "<bytes::bytes_mut::BytesMut as core::iter::traits::collect::IntoIterator>::into_iter",
   "core::str::<impl str>::bytes")
def bytes_into_iter(s):
    return [s.ret(("X", "qvals", s.e.qnorm(s.q(0), s.st)))]


@mp(r"<(?:bytes::buf::iter::IntoIter|core::str::iter::Bytes)<.*> as core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator)>::(next|next_back)")
def qvals_next(s):
    v = s.e.rd(s.st, s.a[0])
    if v[0] != "X" or v[1] != "qvals": return None
    n = s.st.nz(s.e.qlen(v[2], s.st))
    if not is_c(n): return None
    if n[1] == 0: return [s.opt(None)]
    at = n[1] - 1 if s.name == "next_back" else 0
    b = s.e.qbyte(v[2], C(at), s.st)
    s.e.wr(s.st, s.a[0], ("X", "qvals", s.e.qslice(v[2], C(0 if at else 1), C(n[1] - 1 if at else n[1]), s.st)))
    return [s.opt(("I", b))]


@mp(r"<core::slice::iter::Iter<.*> as core::iter::traits::iterator::Iterator>::(nth|advance_by)")
def sl_nth(s):
    v = short_bytes(s, s.st, s.e.rd(s.st, s.a[0]))
    k = s.st.nz(s.a[1][1])
    if s.name != "nth" or v[0] != "X" or v[1] != "sliter" or not is_c(k): return None
    xs = v[2][1]
    s.e.wr(s.st, s.a[0], ("X", "sliter", (None, xs[k[1] + 1:])))
    return [s.opt(xs[k[1]] if k[1] < len(xs) else None)]


def sl_take(s, st, ref, back):
    v = short_bytes(s, st, s.e.rd(st, ref))
    if v[0] != "X" or v[1] != "sliter": return None
    xs = v[2][1]
    if not xs: return [s.opt(None, st)]
    s.e.wr(st, ref, ("X", "sliter", (None, xs[:-1] if back else xs[1:])))
    return [s.opt(xs[-1] if back else xs[0], st)]


@mp(r"<core::(slice::iter::Iter|slice::iter::IterMut|array::iter::IntoIter)<.*> as core::iter::traits::iterator::Iterator>::next")
def sl_next(s): return sl_take(s, s.st, s.a[0], False)


@mp(r"<core::(slice::iter::Iter|slice::iter::IterMut|array::iter::IntoIter)<.*> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back")
def sl_next_back(s): return sl_take(s, s.st, s.a[0], True)


@mp(r"<core::(str::iter::Bytes<.*>|iter::adapters::(copied::Copied|cloned::Cloned)<.*>|slice::iter::Iter<.*>) as core::iter::traits::iterator::Iterator>::(all|any)",
    r"core::iter::traits::iterator::Iterator::(all|any)")
def every_byte(s):
    """Do all bytes of a sequence of any length satisfy a predicate? Decided by the set of bytes that do."""
    it = s.e.rd(s.st, s.a[0])
    vals = it[0] == "A"
    while it[0] == "A" and len(it[3]) == 1: it = it[3][0]
    vals = vals or it[:2] == ("X", "qvals")
    if it[0] != "X" or it[1] not in ("qiter", "qvals"): return sl_fold(s) if it[0] == "X" and it[1] == "sliter" and not vals else None
    q = s.e.qnorm(it[2], s.st)
    n = s.st.nz(s.e.qlen(q, s.st))
    if is_c(n) and n[1] <= 64 and not vals: return sl_fold(s)
    holds = []
    for b in range(256):
        st = s.st.copy()
        x = ("I", C(b))
        o = s.e.call_fnmut(("R", s.e.newcell(st, s.a[1]), ()), [x if vals else s.newref(x, st)], st, s.site)
        if len(o) != 1 or o[0].kind != "return" or o[0].val not in (("B", True), ("B", False)) or o[0].st.events != s.st.events: raise Undecided("a test of every byte")
        if any(o[0].st.mem.get(k) != v for k, v in s.st.mem.items()): raise Undecided("a test of every byte that changes something")
        if o[0].val[1] == (s.name == "all"): holds.append(b)
    empty, ascii_, k = EQ0(s.e.qlen(q, s.st)), ("at", ("ascii", q)), s.e.qconst(q)
    if k is not None: r = all(b in holds for b in k)
    elif len(holds) == 256: r = True
    elif not holds: r = empty
    elif s.st.decide(empty) is True: r = True
    elif holds == list(range(128)): r = ascii_
    else:
        # related to being ASCII where the sets are
        m = ("at", ("every", tuple(holds), q))
        r = AND([ascii_, m]) if max(holds) < 128 else NOT(AND([NOT(ascii_), NOT(m)])) if set(range(128)) <= set(holds) else m
        r = OR([empty, r])
    if s.name == "any": r = NOT(r)
    s.e.wr(s.st, s.a[0], ("X", "used", ()))
    return [s.ret(("B", s.st.nzb(r)))]


@mp(r"<core::(slice::iter::Iter|slice::iter::IterMut|array::iter::IntoIter)<.*> as core::iter::traits::iterator::Iterator>::(fold|for_each|find|any|all|position|find_map|rposition)")
def sl_fold(s):
    """Applies the function item by item."""
    byref = s.e.ty(s.site["aty"][0])["k"] == "ref"
    it = short_bytes(s, s.st, s.e.rd(s.st, s.a[0]) if byref else s.a[0])
    if it[0] != "X" or it[1] != "sliter": return None
    if s.name == "rposition": raise Undecided("rposition")
    cell = s.e.newcell(s.st, s.a[-1])
    acc0 = s.a[1] if s.name == "fold" else None
    states, res = [(acc0, s.st)], []
    xs = it[2][1]
    for i, x in enumerate(xs):
        nxt = []
        for acc, st in states:
            args = [acc, x] if s.name == "fold" else [s.newref(x, st)] if s.name == "find" else [x]
            for o in s.e.call_fnmut(("R", cell, ()), args, st, s.site):
                if o.kind != "return":
                    res.append(o)
                    continue
                if s.name == "fold": nxt.append((o.val, o.st))
                elif s.name == "for_each": nxt.append((None, o.st))
                elif s.name == "find_map":
                    for v, st2, agg in s.e.fork_variant(o.st, o.val):
                        if v == 1: res.append(done(s, st2, byref, xs[i + 1:], agg))
                        else: nxt.append((None, st2))
                else:
                    for t, st2 in s.e.fork(o.st, o.val[1]):
                        if s.name == "all": t = not t
                        if not t: nxt.append((None, st2))
                        else: res.append(done(s, st2, byref, xs[i + 1:], {"find": ("A", s.dty, 1, (x,)), "any": ("B", True), "all": ("B", False),
                                                                         "position": ("A", s.dty, 1, (("I", C(i)),))}[s.name]))
        states = nxt
    for acc, st in states:
        if s.name == "for_each": res.append(s.unit(st))
        else: res.append(done(s, st, byref, (), acc if s.name == "fold" else {"any": ("B", False), "all": ("B", True)}.get(s.name) or ("A", s.dty, 0, ())))
    return res


@mp(r"<core::(slice::iter::Iter|slice::iter::IterMut|array::iter::IntoIter)<.*> as core::iter::traits::(iterator::Iterator|exact_size::ExactSizeIterator)>::(len|size_hint|count)")
def sl_len(s):
    it = s.a[0] if s.name == "count" else s.e.rd(s.st, s.a[0])
    if it[0] != "X" or it[1] not in ("sliter", "qiter", "qvals"): return None
    n = ("I", C(len(it[2][1])) if it[1] == "sliter" else s.e.qlen(it[2], s.st))
    if s.name != "size_hint": return [s.ret(n)]
    t = s.e.fields_of(s.dty)
    return [s.ret(("A", s.dty, 0, (n, ("A", t[1], 1, (n,)))))]


def done(s, st, byref, rest, v):
    if byref: s.e.wr(st, s.a[0], ("X", "sliter", (None, tuple(rest))))
    return s.ret(v, st)


# ------------------------------------------------------------------ text functions on known text
STR_FNS = {
    "to_ascii_lowercase": bytes.lower, "to_ascii_uppercase": bytes.upper, "to_lowercase": lambda b: b.decode().lower().encode(), "to_uppercase": lambda b: b.decode().upper().encode(),
    "trim": lambda b: b.decode().strip().encode(), "trim_start": lambda b: b.decode().lstrip().encode(), "trim_end": lambda b: b.decode().rstrip().encode(), "trim_ascii": bytes.strip,
}
STR_PREDS = {"eq_ignore_ascii_case": lambda a, b: a.lower() == b.lower(), "starts_with": lambda a, b: a.startswith(b), "ends_with": lambda a, b: a.endswith(b), "contains": lambda a, b: b in a}


@mp(r"(core::str|alloc::str|core::slice::ascii|alloc::slice|core::slice)::<impl (str|\[u8\])>::(to_ascii_lowercase|to_ascii_uppercase|to_lowercase|to_uppercase|trim|trim_start|trim_end|trim_ascii)")
def str_fn(s):
    q = s.e.qnorm(s.q(0), s.st)
    k = s.e.qconst(q)
    if k is None:
        r, n = qatom(("derived", s.name, whole(q, s.st))), s.e.qlen(q, s.st)
        if "trim" in s.name: s.st.assume(LE(s.e.qlen(r, s.st), n))
        elif "ascii" in s.name: s.st.assume(EQ(s.e.qlen(r, s.st), n, s.st))
        return [s.ret(s.newref(r) if s.e.ty(s.dty)["k"] == "ref" else r)]
    try: r = STR_FNS[s.name](k)
    except UnicodeDecodeError: return None
    q = ("Q", (be_const(r),)) if r else ("Q", ())
    return [s.ret(s.newref(q) if s.e.ty(s.dty)["k"] == "ref" else q)]


@mp(r"core::str::<impl str>::lines")
def str_lines(s):
    return [s.ret(("X", "lines", (s.e.qnorm(s.q(0), s.st),)))]


@mp(r"<core::str::iter::Lines<'a> as core::iter::traits::iterator::Iterator>::next")
def lines_next(s):
    v = s.e.rd(s.st, s.a[0])
    if v[0] != "X" or v[1] != "lines" or v[2] is None: return None
    q = v[2][0]
    s.e.wr(s.st, s.a[0], ("X", "lines", None))
    n = s.e.qlen(q, s.st)
    res = []
    for none, st in s.e.fork(s.st, EQ0(n)):
        if none:
            res.append(s.opt(None, st))
            continue
        r = qatom(("derived", "line", whole(q, st)))
        st.assume(LE(s.e.qlen(r, st), n))
        res.append(s.opt(s.newref(r, st), st))
    return res


def pattern(s, i=1):
    """The text of a constant pattern: a character or a string."""
    v = s.a[i]
    t = s.e.ty(s.site["aty"][i])
    if v[0] == "I":
        v = s.st.nz(v[1])
        return chr(v[1]).encode() if is_c(v) and t["k"] == "char" else None
    while t["k"] == "ref": t = s.e.types[t["to"]]
    octets = t["k"] in ("array", "slice") and s.e.types[t["elem"]].get("w") == 8
    if t["k"] != "str" and t.get("path") != "alloc::string::String" and not octets: return None
    try: return s.e.qconst(s.e.qnorm(s.q(i), s.st))
    except Undecided: return None


def affix(s, st, q, pat, end):
    """[(does q begin (end) with the text, what is left, state)]"""
    n = s.e.qlen(q, st)
    out = []
    for ok, st2 in s.e.fork(st, LE(C(len(pat)), n)):
        if not ok:
            out.append((False, q, st2))
            continue
        at = sub(n, C(len(pat))) if end else C(len(pat))
        a, b = s.e.qcut(q, st2.nz(at), st2)
        part, rest = (b, a) if end else (a, b)
        k = ("Q", (be_const(pat),)) if pat else ("Q", ())
        for same, st3 in s.e.fork(st2, qeq(s.e, st2, s.e.qnorm(part, st2), k)):
            out.append((same, rest if same else q, st3))
    return out


def found(s, st, q, pat, last=False):
    """[(place of the first (last) occurrence or None, state)]"""
    k = s.e.qconst(q)
    if k is not None:
        i = k.rfind(pat) if last else k.find(pat)
        return [(None if i < 0 else C(i), st)]
    out = []
    for has, st2 in s.e.fork(st, ("at", ("has", q, pat))):
        if not has:
            out.append((None, st2))
            continue
        t = ("a", ("found", q, pat, last), 0, LENMAX)
        if st2.assume(LE(add(t, C(len(pat))), s.e.qlen(q, st2))) is False: continue
        out.append((t, st2))
    return out


@mp(r"core::(str|slice)::<impl (str|\[T\])>::(strip_prefix|strip_suffix)")
def str_strip(s):
    pat = pattern(s)
    if pat is None: return None
    q = s.e.qnorm(s.q(0), s.st)
    return [s.ret(("A", s.dty, 1, (s.newref(rest, st),)) if ok else ("A", s.dty, 0, ()), st) for ok, rest, st in affix(s, s.st, q, pat, s.name == "strip_suffix")]


@mp(r"core::str::<impl str>::(trim_end_matches|trim_start_matches|trim_matches)")
def str_trim(s):
    pat = pattern(s)
    if not pat: return None
    q = s.e.qnorm(s.q(0), s.st)
    k = s.e.qconst(q)
    if k is not None:
        while s.name != "trim_start_matches" and k.endswith(pat): k = k[:-len(pat)]
        while s.name != "trim_end_matches" and k.startswith(pat): k = k[len(pat):]
        return [s.ret(s.newref(("Q", (be_const(k),)) if k else ("Q", ())))]
    if s.name == "trim_matches": return None
    end = s.name == "trim_end_matches"
    res = []
    for ok, rest, st in affix(s, s.st, q, pat, end):
        if ok:
            # one occurrence or more
            n = s.e.qlen(q, st)
            t = ("a", ("trimmed", q, pat, end), 0, LENMAX)
            if st.assume(LE(add(t, C(len(pat))), n)) is False: continue
            a, b = s.e.qcut(q, t if end else st.nz(sub(n, t)), st)
            rest = a if end else b
        res.append(s.ret(s.newref(s.e.qnorm(rest, st), st), st))
    return res


@mp(r"core::str::<impl str>::(find|rfind)")
def str_find(s):
    pat = pattern(s)
    if not pat: return None
    q = s.e.qnorm(s.q(0), s.st)
    return [s.ret(("A", s.dty, 0, ()) if t is None else ("A", s.dty, 1, (("I", t),)), st) for t, st in found(s, s.st, q, pat, s.name == "rfind")]


@mp(r"core::str::<impl str>::(split_once|rsplit_once)")
def str_split_once(s):
    pat = pattern(s)
    if not pat: return None
    q = s.e.qnorm(s.q(0), s.st)
    res = []
    for t, st in found(s, s.st, q, pat, s.name == "rsplit_once"):
        if t is None: res.append(s.ret(("A", s.dty, 0, ()), st))
        else:
            a, r = s.e.qcut(q, t, st)
            _, b = s.e.qcut(r, C(len(pat)), st)
            res.append(s.ret(("A", s.dty, 1, (("A", None, 0, (s.newref(a, st), s.newref(b, st))),)), st))
    return res


@mp(r"core::str::<impl str>::split")
def str_split(s):
    pat = pattern(s)
    if not pat: return None
    return [s.ret(("X", "strsplit", (s.e.qnorm(s.q(0), s.st), pat)))]


@mp(r"<core::str::iter::Split<.*> as core::iter::traits::iterator::Iterator>::next")
def str_split_next(s):
    v = s.e.rd(s.st, s.a[0])
    if v[0] != "X" or v[1] != "strsplit": return None
    q, pat = v[2]
    if q is None: return [s.ret(("A", s.dty, 0, ()))]
    res = []
    for t, st in found(s, s.st, s.e.qnorm(q, s.st), pat):
        a, rest = q, None
        if t is not None:
            a, r = s.e.qcut(q, t, st)
            _, rest = s.e.qcut(r, C(len(pat)), st)
        s.e.wr(st, s.a[0], ("X", "strsplit", (rest, pat)))
        res.append(s.ret(("A", s.dty, 1, (s.newref(a, st),)), st))
    return res


@m("alloc::string::String::truncate")
def str_truncate(s):
    q = s.e.qnorm(s.e.as_q(s.e.rd(s.st, s.a[0]), s.st), s.st)
    n = s.int(1)
    res = []
    for long, st in s.e.fork(s.st, LT(n, s.e.qlen(q, s.st))):
        if long: s.e.wr(st, s.a[0], s.e.qcut(q, n, st)[0])
        res.append(s.unit(st))
    return res


@mp(r"core::(str|slice::ascii|slice)::<impl (str|\[u8\]|\[T\])>::(eq_ignore_ascii_case|starts_with|ends_with|contains)")
def str_pred(s):
    try: a = s.e.qnorm(s.q(0), s.st)
    except Undecided: return None
    pat = pattern(s) if s.name != "eq_ignore_ascii_case" and ("impl str" in s.c["path"] or s.name != "contains") else None
    if pat is None:
        try: a, b = s.e.qconst(a), s.e.qconst(s.e.qnorm(s.q(1), s.st))
        except Undecided: return None
        if (a is None or b is None) and s.name == "eq_ignore_ascii_case":
            k = a if a is not None else b
            x, y = (s.e.qnorm(s.q(i), s.st) for i in (0, 1))
            same = qeq(s.e, s.st, x, y)
            if k is not None and k.lower() == k.upper() or same is True or same is False: return [s.ret(("B", s.st.nzb(same)))]
            p, q = sorted((whole(x, s.st), whole(y, s.st)), key=repr)
            return [s.ret(("B", s.st.nzb(OR([same, AND([EQ(s.e.qlen(x, s.st), s.e.qlen(y, s.st), s.st), ("at", ("same but for case", p, q))])]))))]
        if (a is None or b is None) and s.name in ("starts_with", "ends_with"):
            res = []
            for fits, st in s.e.fork(s.st, LE(s.e.qlen(s.e.qnorm(s.q(1), s.st)), s.e.qlen(s.e.qnorm(s.q(0), s.st)))):
                x, y = (s.e.qnorm(s.q(i), st) for i in (0, 1))
                if fits:
                    n, k = s.e.qlen(x, st), s.e.qlen(y, st)
                    part = s.e.qcut(x, k, st)[0] if s.name == "starts_with" else s.e.qcut(x, st.nz(sub(n, k)), st)[1]
                    for same, st2 in s.e.fork(st, st.nzb(qeq(s.e, st, s.e.qnorm(part, st), y))): res.append(s.ret(("B", same), st2))
                else: res.append(s.ret(("B", False), st))
            return res
        if a is None or b is None: return None
        return [s.ret(("B", STR_PREDS[s.name](a, b)))]
    k = s.e.qconst(a)
    if k is not None: return [s.ret(("B", STR_PREDS[s.name](k, pat)))]
    if s.name == "contains": return [s.ret(("B", ("at", ("has", a, pat))))]
    return [s.ret(("B", ok), st) for ok, _, st in affix(s, s.st, a, pat, s.name == "ends_with")]


@mp(r"(std|core)::f(32|64)::(math::)?(<impl f(32|64)>::)?(ceil|floor|round|trunc|sqrt)")
def float_fn(s):
    v = s.a[0]
    if v[0] != "X" or v[1] != "float": return None
    return [s.ret(("X", "float", (v[2][0], op(s.name + v[2][0], (v[2][1],), -(1 << 200), 1 << 200))))]


@mp(r"core::intrinsics::(maximum|minimum)_number_nsz_f(32|64)", r"(std|core)::f(32|64)::(math::)?(<impl f(32|64)>::)?(max|min)")
def float_max(s):
    a, b = s.a[:2]
    if any(v[0] != "X" or v[1] != "float" for v in (a, b)): return None
    return [s.ret(("X", "float", (a[2][0], op(s.name[:3] + a[2][0], (a[2][1], b[2][1]), -(1 << 200), 1 << 200))))]


# ------------------------------------------------------------------ errors
@mp(r"core::error::Error::source", r"<alloc::boxed::Box<T, A> as core::error::Error>::source")
def inner_source(s):
    """What lies behind an error that is not the library's own."""
    if s.c.get("inst") is not None: return None
    b = boxed(s, s.a[0])
    if b and b[1] is None: return [s.opt(None)]
    return [s.ret(s.e.mksym(("innersource", repr(s.e.snapshot(s.st, s.a[0]))), s.dty))]


@mp(r"(core|std|alloc)::io::error::Error::kind", r"(core|std|alloc)::io::.*<impl (core|std|alloc)::io::error::Error>::kind")
def io_kind(s):
    return [s.ret(s.e.mksym(("iokind", repr(s.e.snapshot(s.st, s.a[0]))), s.dty))]


@mp(r"(core|std|alloc)::io::error::Error::raw_os_error")
def io_code(s):
    return [s.ret(s.e.mksym(("iocode", repr(s.e.snapshot(s.st, s.a[0]))), s.dty))]


@mp(r"(.*::)?(<impl )?(core|std|alloc)::io::error::Error>?::(into_inner|get_ref|get_mut)")
def io_inner(s):
    """The error inside an I/O error, if one is: the same answer to each of the questions."""
    return [s.ret(s.e.mksym(("ioinner", repr(s.e.snapshot(s.st, s.a[0]))), s.dty))]


@mp(r"<(core|std|alloc)::io::error::Error as core::convert::From<.*ErrorKind>>::from", r"(core|std|alloc)::io::error::Error::(new|other|from_raw_os_error)(::<.*>)?",
    r"(core|std|alloc)::io::.*<impl (core|std|alloc)::io::error::Error>::(new|other)")
def io_error(s):
    """An I/O error made from a kind or a message: the same for the same arguments."""
    return [s.ret(("S", ("ioerror", s.name, repr(tuple(s.e.snapshot(s.st, a) for a in s.a))), s.dty))]
