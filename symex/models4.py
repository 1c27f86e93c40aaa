"""Models: further parts of std that rewritten code may use."""
import struct
from vals import *
from core import *
import core
from strs import *
from models import *
from models import M, CM, m, mf, cm, intr, disp, Formatter, EXH
import models
import models2
import models3
from models2 import ListIt, SliceIt, MapObj, is_ws, SL, ASL, STR, ST, BM, V, iterate, do_sort, fixl


def ints(inf):
    return [x for x in inf["args"] if isinstance(x, int)]


# ---------------------------------------------------------------- ordering by type
def cmp_fn(ex, t):
    """python function (value, value) -> -1/0/1 of the Ord (or PartialOrd) of the type"""
    k = ("cmp_fn", t)
    f = ex.consts.get(k)
    if f is None:
        ex.consts[k] = lambda a, b: ex.consts[k](a, b)
        f = ex.consts[k] = mk_cmp(ex, t)
    return f


def mk_cmp(ex, t):
    i = ex.ty(t)
    h = ex.head(t)
    if i["k"] in ("int", "uint", "char"):
        w, s = ex.intinfo(t)
        return lambda a, b: cmp3(deref_all(a), deref_all(b), w, s)
    if i["k"] == "ref":
        g = cmp_fn(ex, i["to"])
        return lambda a, b: g(deref_all(a), deref_all(b))
    if i["k"] == "adt" and h == "core::cmp::Reverse":
        g = cmp_fn(ex, i["args"][0])
        return lambda a, b: g(deref_all(b)[0], deref_all(a)[0])
    if i["k"] == "adt" and i.get("crate") in LOCAL:
        if ex.srv.method("core::cmp::Ord", "cmp", [t]) is not None:
            g = ex.method("core::cmp::Ord", "cmp", [t])
            return lambda a, b: g(Ref([deref_all(a)], 0), Ref([deref_all(b)], 0))[0] - 1
        return cmp_val
    if i["k"] == "tuple":
        gs = [cmp_fn(ex, x) for x in i["elems"]]

        def f(a, b):
            for g, x, y in zip(gs, deref_all(a), deref_all(b)):
                c = g(x, y)
                if c:
                    return c
            return 0
        return f
    if h == "core::option::Option":
        g = cmp_fn(ex, i["args"][0])

        def f(a, b):
            a, b = deref_all(a), deref_all(b)
            if a[0] != b[0] or a[0] == 0:
                return (a[0] > b[0]) - (a[0] < b[0])
            return g(a[1], b[1])
        return f
    if (h == "alloc::vec::Vec" or i["k"] in ("slice", "array")) and ex.head(i["args"][0] if h == "alloc::vec::Vec" else i["to"]) != "u8":
        g = cmp_fn(ex, i["args"][0] if h == "alloc::vec::Vec" else i["to"])

        def f(a, b):
            x, y = seq(deref_all(a)), seq(deref_all(b))
            for p, q in zip(x, y):
                c = g(p, q)
                if c:
                    return c
            return (len(x) > len(y)) - (len(x) < len(y))
        return f
    return cmp_val


models.cmp_fn = cmp_fn


def _ordm(ex, t, x, y):
    return cmp_fn(ex, t)(x, y)


models.ordm = _ordm
models2.ordm = _ordm


@cm("core::cmp::Ord::cmp")
def _(ex, inf, a):
    if a and ex.ty(a[0])["k"] == "adt" and ex.ty(a[0]).get("crate") in LOCAL:
        return None
    g = cmp_fn(ex, a[0]) if a else cmp_val
    return lambda x, y: [g(val_of(x), val_of(y)) + 1]


def floaty(ex, t, d=0):
    i = ex.ty(t)
    if i["k"] == "float":
        return True
    if d > 5:
        return False
    if i["k"] == "ref":
        return floaty(ex, i["to"], d + 1)
    if i["k"] == "tuple":
        return any(floaty(ex, x, d + 1) for x in i["elems"])
    if i["k"] == "adt":
        return any(floaty(ex, x, d + 1) for x in i["args"] if isinstance(x, int))
    return False


def _partial(n):
    old = CM["core::cmp::PartialOrd::" + n]

    def fac(ex, inf, a):
        if not a or ex.ty(a[0])["k"] in ("int", "uint", "char", "bool", "float", "str") or floaty(ex, a[0]) or ex.ty(a[0]).get("crate") in LOCAL and ex.ty(a[0])["k"] == "adt":
            return old(ex, inf, a)
        g = cmp_fn(ex, a[0])
        if n == "partial_cmp":
            return lambda x, y: some([g(val_of(x), val_of(y)) + 1])
        p = {"lt": lambda c: c < 0, "le": lambda c: c <= 0, "gt": lambda c: c > 0, "ge": lambda c: c >= 0}[n]
        return lambda x, y: p(g(val_of(x), val_of(y)))
    CM["core::cmp::PartialOrd::" + n] = fac


for _n in ("partial_cmp", "lt", "le", "gt", "ge"):
    _partial(_n)


@mf(SL + "is_sorted")
def _(ex, inf):
    g = cmp_fn(ex, inf["args"][0])
    return lambda s: all(g(s.c[s.o + i], s.c[s.o + i + 1]) <= 0 for i in range(s.n - 1))


@cm("core::iter::traits::iterator::Iterator::is_sorted")
def _(ex, inf, a):
    def f(it):
        l = list(iterate(ex, it, a[0]))
        return all(cmp_val(l[i], l[i + 1]) <= 0 for i in range(len(l) - 1))
    return f


# ---------------------------------------------------------------- Debug
def esc_debug(s, q):
    o = []
    for c in s:
        if type(c) is not int:
            o.append(c)
        elif c in (34, 92) and (c != 34 or q == 34):
            o += [92, c]
        elif c in (9, 10, 13, 0):
            o += [92, {9: 116, 10: 110, 13: 114, 0: 48}[c]]
        elif c < 32 or c == 127:
            o += list(b"\\u{%x}" % c)
        else:
            o.append(c)
    return mks(o)


def debug(ex, v, t, spec):
    """Debug of library types; None when the type is not known"""
    i = ex.ty(t)
    k = i["k"]
    if k in ("ref", "ptr"):
        to = ex.ty(i["to"])
        if to["k"] in ("str", "slice"):
            return debug(ex, v, i["to"], spec)
        return debug(ex, v.c[v.k] if isinstance(v, Ref) else v, i["to"], spec)
    if k in ("uint", "int"):
        return pad(dec(v, k == "int"), spec, True)
    if k == "bool":
        return pad(b"true" if EN.br(v) else b"false", spec)
    if k == "char":
        return cat(b"'", esc_debug(enc_char(v), 39), b"'")
    if k == "float":
        s = fmt_float(v, i["bits"])
        return s if any(c in b".einE" for c in s) else cat(s, b".0")
    if k == "str":
        return cat(b'"', esc_debug(S(v), 34), b'"')
    if k == "tuple":
        if not i["elems"]:
            return b"()"
        ps = [debug(ex, x, e, spec) for x, e in zip(v, i["elems"])]
        return None if None in ps else cat(b"(", joined(ps), b",)" if len(ps) == 1 else b")")
    if k in ("slice", "array"):
        ps = [debug(ex, x, i["to"], spec) for x in seq(v)]
        return None if None in ps else cat(b"[", joined(ps), b"]")
    if k != "adt":
        return None
    p = i["path"]
    if p == "alloc::string::String":
        return cat(b'"', esc_debug(S(v), 34), b'"')
    if p == "alloc::vec::Vec":
        ps = [debug(ex, x, i["args"][0], spec) for x in seq(v)]
        return None if None in ps else cat(b"[", joined(ps), b"]")
    if p == "alloc::borrow::Cow":
        return cat(b'"', esc_debug(S(v[1]), 34), b'"')
    if p == "alloc::boxed::Box":
        return debug(ex, get(v[0][0][0]), i["args"][0], spec)
    if p == "alloc::rcs::rc::Rc":
        return debug(ex, v.slot[0], i["args"][0], spec)
    if i.get("crate") in LOCAL:
        f = Formatter(spec)
        g = ex.method("core::fmt::Debug", "fmt", [t])
        if g(Ref([v], 0), Ref([f], 0))[0] != 0:
            raise RustPanic("a Debug implementation returned an error")
        return S(f.out)
    if p in ("core::option::Option", "core::result::Result", "core::cmp::Ordering"):
        va = i["variants"][v[0]]
        ps = [debug(ex, x, f[1], spec) for x, f in zip(v[1:], va["fields"])]
        if None in ps:
            return None
        return cat(va["name"].encode(), b"(", joined(ps), b")") if ps else va["name"].encode()
    return None


def joined(ps):
    o = []
    for n, p in enumerate(ps):
        if n:
            o.append(b", ")
        o.append(p)
    return cat(*o) if o else b""


models.debug = debug


def dbg_dyn(d, spec):
    ex = EXH[0]
    if not isinstance(d, DynRef):
        raise Unsupported("debug of %r" % type(d))
    i = ex.ty(d.ty)
    v = d.r if i["k"] in ("str", "slice") else get(d.r)
    r = debug(ex, v, d.ty, spec)
    if r is None:
        return b"<debug>"
    return r


def _finish(kind, n):
    def f(fr, name, *a):
        fo = get(fr)
        if fo.spec and fo.spec[0] >> 23 & 1:
            raise Unsupported("{:#?}")
        out = [S(name)]
        if kind == "struct" and (n is None or len(a) == n):
            # the name and the field names come joined by blanks
            ws = [S(x) for x in bytes(S(name)).split(b" ")]
            vals = list(seq(a[0])) if n is None else list(a)
            out = [ws[0], b" { ", joined([cat(x, b": ", dbg_dyn(y, fo.spec)) for x, y in zip(ws[1:], vals)]), b" }"]
        elif kind == "struct":
            if n is None:
                names, vals = [S(x) for x in seq(a[0])], list(seq(a[1]))
            else:
                names, vals = [S(x) for x in a[0::2]], list(a[1::2])
            ps = [cat(x, b": ", dbg_dyn(y, fo.spec)) for x, y in zip(names, vals)]
            out += [b" { ", joined(ps), b" }"]
        else:
            vals = list(seq(a[0])) if n is None else list(a)
            out += [b"(", joined([dbg_dyn(y, fo.spec) for y in vals]), b")"]
        vpush(fo.out, cat(*out))
        return ok(UNIT)
    return lambda ex, inf: f


for _n in (1, 2, 3, 4, 5):
    M["core::fmt::Formatter::debug_struct_field%d_finish" % _n] = _finish("struct", _n)
    M["core::fmt::Formatter::debug_tuple_field%d_finish" % _n] = _finish("tuple", _n)
M["core::fmt::Formatter::debug_struct_fields_finish"] = _finish("struct", None)
M["core::fmt::Formatter::debug_tuple_fields_finish"] = _finish("tuple", None)


# ---------------------------------------------------------------- text
@m(ST + "as_mut_str", "<alloc::string::String as core::ops::deref::DerefMut>::deref_mut")
def _(r):
    v = get(r)
    fixl(v)
    return Slice(v.l, 0, len(v.l))


def _make_ascii(up):
    g = (lambda v: v - 32 if 97 <= v <= 122 else v) if up else (lambda v: v + 32 if 65 <= v <= 90 else v)

    def f(s):
        if not isinstance(s, Slice) or type(s.c) not in (list, bytearray):
            raise Unsupported("make_ascii case")
        for i in range(s.o, s.o + s.n):
            s.c[i] = map_sv(s.c[i], g, 8)
        return UNIT
    return f


for _p in (STR, SL, "core::slice::ascii::<impl [u8]>::"):
    M[_p + "make_ascii_uppercase"] = lambda ex, inf: _make_ascii(True)
    M[_p + "make_ascii_lowercase"] = lambda ex, inf: _make_ascii(False)


@m(STR + "split_ascii_whitespace")
def _(s):
    return M[STR + "split_whitespace"](None, None)(s)


@m(ST + "split_off")
def _(r, n):
    v = get(r)
    n = EN.conc(n)
    s = S(v)
    if n > len(s) or (n < len(s) and type(s[n]) is int and 0x80 <= s[n] < 0xc0):
        raise RustPanic("assertion failed: self.is_char_boundary(at)")
    v.l = list(s[:n]) if type(s) is tuple else bytearray(s[:n])
    return newstr(s[n:])


for _t in ("alloc::rcs::rc::Rc", "alloc::boxed::Box"):
    pass


@m("<alloc::rcs::rc::Rc<str> as core::convert::From<&str>>::from", "<alloc::rcs::rc::Rc<str> as core::convert::From<alloc::string::String>>::from")
def _(s):
    return RcObj(S(s))


@m(STR + "encode_utf16")
def _(s):
    o = []
    for _, c in chars(S(s)):
        if type(c) is int and c > 0xffff:
            c -= 0x10000
            o += [0xd800 + (c >> 10), 0xdc00 + (c & 0x3ff)]
        else:
            o.append(scast(c, 32, False, 16, False))
    return ListIt(o)


models2.NATIVE_ITERS.add("core::str::iter::EncodeUtf16")


# ---------------------------------------------------------------- slices
@mf(SL + "split")
def _(ex, inf):
    ft = ints(inf)[-1]

    def f(s, g):
        o, st = [], s.o
        for i in range(s.o, s.o + s.n):
            if EN.br(ex.call_fn(ft, g, (Ref(s.c, i),))):
                o.append(Slice(s.c, st, i - st))
                st = i + 1
        o.append(Slice(s.c, st, s.o + s.n - st))
        return ListIt(o)
    return f


@m(SL + "chunks_exact")
def _(s, n):
    n = EN.conc(n)
    return ListIt([Slice(s.c, s.o + i, n) for i in range(0, s.n - n + 1, n)])


@m(SL + "rchunks")
def _(s, n):
    n = EN.conc(n)
    o, e = [], s.n
    while e > 0:
        b = max(0, e - n)
        o.append(Slice(s.c, s.o + b, e - b))
        e = b
    return ListIt(o)


models2.NATIVE_ITERS.add("core::slice::iter::RChunks")


@mf(SL + "chunk_by")
def _(ex, inf):
    ft = ints(inf)[-1]

    def f(s, g):
        o, st = [], 0
        for i in range(1, s.n):
            if not EN.br(ex.call_fn(ft, g, (Ref(s.c, s.o + i - 1), Ref(s.c, s.o + i)))):
                o.append(Slice(s.c, s.o + st, i - st))
                st = i
        if s.n:
            o.append(Slice(s.c, s.o + st, s.n - st))
        return ListIt(o)
    return f


models2.NATIVE_ITERS.add("core::slice::iter::ChunkBy")


@m("core::slice::iter::Iter::as_slice")
def _(r):
    it = get(r)
    return Slice(it.l, it.i, it.j - it.i)


def _rot(left):
    def f(s, n):
        n = EN.conc(n)
        if n > s.n:
            raise RustPanic("assertion failed: mid <= self.len()")
        x = list(s.c[s.o:s.o + s.n])
        if not left:
            n = s.n - n
        s.c[s.o:s.o + s.n] = x[n:] + x[:n]
        return UNIT
    return f


M[SL + "rotate_left"] = lambda ex, inf: _rot(True)
M[SL + "rotate_right"] = lambda ex, inf: _rot(False)


@mf(V + "splice")
def _(ex, inf):
    a = ints(inf)
    dr = None

    def f(r, g, it):
        v = get(r)
        fixl(v)
        h = ex.head(a[-2]).split("::")[-1] if len(a) >= 2 else ""
        n = len(v.l)
        lo = EN.conc(g[0]) if h in ("Range", "RangeFrom", "RangeInclusive") else 0
        if h == "Range":
            hi = EN.conc(g[1])
        elif h == "RangeInclusive":
            hi = EN.conc(g[1]) + 1
        elif h == "RangeTo":
            hi = EN.conc(g[0])
        elif h == "RangeToInclusive":
            hi = EN.conc(g[0]) + 1
        elif h in ("RangeFrom", "RangeFull"):
            hi = n
        else:
            raise Unsupported("splice of " + h)
        if lo > hi or hi > n:
            raise RustPanic("range end index out of range for slice")
        new = list(iterate(ex, it, a[-1]))
        old = v.l[lo:hi]
        v.l[lo:hi] = new
        return ListIt(old)
    return f


models2.NATIVE_ITERS.add("alloc::vec::splice::Splice")

_tf = CM["core::convert::TryFrom::try_from"]


@cm("core::convert::TryFrom::try_from")
def _(ex, inf, a):
    t, s = ex.ty(a[0]), ex.ty(a[1])
    n = None
    if t["k"] == "array":
        n = ex.arrlen(a[0]) if hasattr(ex, "arrlen") else t.get("len")
    if n is not None:
        if ex.head(a[1]) == "alloc::vec::Vec":
            def f(v):
                if len(v.l) != n:
                    return err(v)
                return ok(list(v.l))
            return f
        if s["k"] == "ref" and ex.ty(s["to"])["k"] == "slice":
            def f(v):
                x = seq(v)
                return ok([clone_val(q) for q in x]) if len(x) == n else err(Opaque("TryFromSliceError"))
            return f
    return _tf(ex, inf, a)


# ---------------------------------------------------------------- maps
def bounds(ex, g, t):
    """(lower, excluded?), (upper, excluded?) of a RangeBounds value"""
    h = ex.head(t).split("::")[-1]
    if h in ("Range", "RangeInclusive"):
        return (g[0], False), (g[1], h == "Range")
    if h == "RangeFrom":
        return (g[0], False), None
    if h in ("RangeTo", "RangeToInclusive"):
        return None, (g[0], h == "RangeTo")
    if h == "RangeFull":
        return None, None
    if ex.ty(t)["k"] == "tuple":
        r = [None if b[0] == 2 else (b[1], b[0] == 1) for b in g]
        return r[0], r[1]
    raise Unsupported("range of " + h)


def in_range(ex, mp, g, t):
    lo, hi = bounds(ex, g, t)
    o = []
    for e in mp.entries():
        if lo is not None:
            c = cmp_val(e[0], lo[0])
            if c < 0 or (c == 0 and lo[1]):
                continue
        if hi is not None:
            c = cmp_val(e[0], hi[0])
            if c > 0 or (c == 0 and hi[1]):
                continue
        o.append(e)
    return o


def _range(shape):
    def fac(ex, inf):
        t = ints(inf)[-1]
        return lambda r, g: ListIt([shape(e) for e in in_range(ex, get(r), g, t)])
    return fac


M[BM + "range"] = _range(lambda e: [Ref(e, 0), Ref(e, 1)])
M[BM + "range_mut"] = _range(lambda e: [Ref(e, 0), Ref(e, 1)])
BS = "alloc::collections::btree::set::BTreeSet::"
M[BS + "range"] = _range(lambda e: Ref(e, 0))
for _n in ("map::RangeMut", "set::Range"):
    models2.NATIVE_ITERS.add("alloc::collections::btree::" + _n)


def _split_off(ex, inf):
    def f(r, k):
        mp = get(r)
        n = MapObj(True)
        for e in mp.entries():
            if cmp_val(e[0], deref_all(k)) >= 0:
                mp.remove(e[0])
                n.add(e[0], e[1])
        return n
    return f


M[BM + "split_off"] = _split_off
M[BS + "split_off"] = _split_off


@m("<alloc::collections::vec_deque::VecDeque<T, A> as core::convert::From<alloc::vec::Vec<T, A>>>::from",
   "<alloc::vec::Vec<T, A> as core::convert::From<alloc::collections::vec_deque::VecDeque<T, A>>>::from",
   "<alloc::collections::vec_deque::VecDeque<T> as core::convert::From<[T; N]>>::from")
def _(v):
    return v if isinstance(v, VecObj) else VecObj(list(v))


# ---------------------------------------------------------------- Rc, OnceCell
@m("alloc::rcs::rc::Rc::make_mut")
def _(r):
    o = get(r)
    if o.strong > 1:
        o.strong -= 1
        o = RcObj(clone_val(o.slot[0]))
        put(r, o)
    return Ref(o.slot, 0)


OC = "core::cell::once::OnceCell::"


def once(r):
    """the cell behind a reference (a static one is decoded from memory and empty at first)"""
    c = get(r)
    if not isinstance(c, CellObj):
        c = CellObj(none())
        put(r, c)
    return c


def find_fn(v):
    if isinstance(v, FnVal):
        return v
    if type(v) in (list, tuple):
        for x in v:
            f = find_fn(x)
            if f is not None:
                return f
    return None


@mf("<std::sync::lazy_lock::LazyLock<T, F> as core::ops::deref::Deref>::deref", "std::sync::lazy_lock::LazyLock::force",
    "<core::cell::lazy::LazyCell<T, F> as core::ops::deref::Deref>::deref", "core::cell::lazy::LazyCell::force")
def _(ex, inf):
    ft = ints(inf)[1]

    def f(r):
        c = get(r)
        if not isinstance(c, CellObj):
            g = find_fn(c)
            if g is None and ex.ty(ft)["k"] == "fnptr":
                raise Unsupported("lazy value")
            c = CellObj([0, g])
            put(r, c)
        if c.slot[0][0] == 0:
            c.slot[0] = some(ex.call_fn(ft, c.slot[0][1], ()))
        return Ref(c.slot[0], 1)
    return f


for _l in ("std::sync::lazy_lock::LazyLock::new", "core::cell::lazy::LazyCell::new"):
    M[_l] = lambda ex, inf: (lambda g: CellObj([0, g]))
for _o in (OC, "std::sync::once_lock::OnceLock::"):
    M[_o + "new"] = lambda ex, inf: (lambda: CellObj(none()))

    def _mk(o):
        @m(o + "get")
        def _(r):
            c = once(r)
            v = c.slot[0]
            return some(Ref(v, 1)) if v[0] == 1 else none()

        @m(o + "set")
        def _(r, x):
            c = once(r)
            if c.slot[0][0] == 1:
                return err(x)
            c.slot[0] = some(x)
            return ok(UNIT)

        @mf(o + "get_or_init")
        def _(ex, inf):
            ft = ints(inf)[-1]

            def f(r, g):
                c = once(r)
                if c.slot[0][0] == 0:
                    c.slot[0] = some(ex.call_fn(ft, g, ()))
                return Ref(c.slot[0], 1)
            return f

        @m(o + "into_inner")
        def _(c):
            return c.slot[0]

        @m(o + "take")
        def _(r):
            c = get(r)
            v = c.slot[0]
            c.slot[0] = none()
            return v
    _mk(_o)


# ---------------------------------------------------------------- numbers
@intr("ctpop")
def _(ex, inf):
    return lambda v: bin(EN.conc(v) & ((1 << ex.intinfo(inf["args"][0])[0]) - 1)).count("1")


@intr("bswap")
def _(ex, inf):
    w, s = ex.intinfo(inf["args"][0])
    return lambda v: norm(int.from_bytes((EN.conc(v) & ((1 << w) - 1)).to_bytes(w // 8, "little"), "big"), w, s)


_old_transmute = models.TRANSMUTE


def TRANSMUTE(x, tf, tt):
    ex = EXH[0]
    f, t = ex.ty(tf), ex.ty(tt)
    if f["k"] == "float" and t["k"] in ("uint", "int") and isinstance(x, float):
        n = f["bits"] // 8
        w, s = ex.intinfo(tt)
        return norm(int.from_bytes(struct.pack("<d" if n == 8 else "<f", x), "little"), w, s)
    if t["k"] == "float" and f["k"] in ("uint", "int"):
        n = t["bits"] // 8
        return struct.unpack("<d" if n == 8 else "<f", (EN.conc(x) & ((1 << 8 * n) - 1)).to_bytes(n, "little"))[0]
    if f["k"] == "array" and t["k"] in ("uint", "int") and ex.head(f["to"]) == "u8":
        w, s = ex.intinfo(tt)
        return norm(int.from_bytes(bytes(EN.conc(q) for q in seq(x)), "little"), w, s)
    if f["k"] in ("uint", "int") and t["k"] == "array" and ex.head(t["to"]) == "u8":
        w, s = ex.intinfo(tf)
        return list((EN.conc(x) & ((1 << w) - 1)).to_bytes(w // 8, "little"))
    return _old_transmute(x, tf, tt)


models.TRANSMUTE = TRANSMUTE
core.TRANSMUTE = TRANSMUTE
M["intrinsic::transmute"] = lambda ex, inf: (lambda v, a=inf["args"]: TRANSMUTE(v, a[0], a[1]))


@m("core::iter::sources::repeat_n::repeat_n")
def _(x, n):
    n = EN.conc(n)
    return ListIt([clone_val(x) for _ in range(n)])


models2.NATIVE_ITERS.add("core::iter::sources::repeat_n::RepeatN")


# ---------------------------------------------------------------- paths
@m("std::ffi::os_str::OsStr::to_string_lossy")
def _(s):
    return [0, S(s)]


@m("std::ffi::os_str::OsStr::to_str")
def _(s):
    return some(S(s))


@m("<std::path::PathBuf as core::convert::From<&T>>::from", "<std::path::PathBuf as core::convert::From<alloc::string::String>>::from")
def _(s):
    return newstr(S(s))


@m("<std::path::PathBuf as core::ops::deref::Deref>::deref")
def _(r):
    return S(get(r) if isinstance(r, Ref) else r)


# ---------------------------------------------------------------- further parts
M["core::option::Option::Some"] = lambda ex, inf: (lambda v: some(v))
M["core::result::Result::Ok"] = lambda ex, inf: (lambda v: ok(v))
M["core::result::Result::Err"] = lambda ex, inf: (lambda v: err(v))
M["<alloc::boxed::Box<T, A> as core::ops::drop::Drop>::drop"] = lambda ex, inf: (lambda r: UNIT)


@mf("core::cell::RefCell::replace_with")
def _(ex, inf):
    fty = ints(inf)[-1]

    def f(c, g):
        if models._borrow(c, True) is None:
            raise RustPanic("already borrowed")
        try:
            n = ex.call_fn(fty, g, (Ref(get(c).slot, 0),))
        finally:
            get(c).b = 0
        o = get(c).slot[0]
        get(c).slot[0] = n
        return o
    return f


def _setop(name):
    def f(a, b):
        a, b = get(a), get(b)
        ea, eb = a.entries(), b.entries()
        if name == "intersection":
            r = [e for e in ea if b.find(e[0]) is not None]
        elif name == "difference":
            r = [e for e in ea if b.find(e[0]) is None]
        elif name == "union":
            r = list(ea) + [e for e in eb if a.find(e[0]) is None]
        else:
            r = [e for e in ea if b.find(e[0]) is None] + [e for e in eb if a.find(e[0]) is None]
        if a.sort and name in ("union", "symmetric_difference"):
            l = [e[0] for e in r]
            do_sort(Slice(r, 0, len(r)), lambda x, y: cmp_val(get(x)[0], get(y)[0]))
        return ListIt([Ref(e, 0) for e in r])
    return lambda ex, inf: f


for _p in (models2.HS, models2.BS):
    for _n in ("intersection", "difference", "union", "symmetric_difference"):
        M[_p + _n] = _setop(_n)
    M[_p + "is_subset"] = lambda ex, inf: (lambda a, b: all(get(b).find(e[0]) is not None for e in get(a).entries()))
    M[_p + "is_superset"] = lambda ex, inf: (lambda a, b: all(get(a).find(e[0]) is not None for e in get(b).entries()))
    M[_p + "is_disjoint"] = lambda ex, inf: (lambda a, b: all(get(b).find(e[0]) is None for e in get(a).entries()))

_SR = "quick_xml::reader::slice_reader::<impl quick_xml::reader::Reader<&'a [u8]>>::"
M[_SR + "read_event"] = lambda ex, inf: (lambda r: models3.next_event(get(r)))
M[_SR + "from_str"] = lambda ex, inf: (lambda s: models3.Reader(models3.src_text(s), False))


@m("std::fs::read_to_string")
def _(p):
    r = models3.f_open(p)
    if r[0] != 0 or r[1].holder is None:
        return models3.ioerr()
    s = r[1].holder[0]
    if not models4_utf8(s):
        return models3.ioerr()
    return ok(newstr(s))


def models4_utf8(s):
    return M["core::str::converts::from_utf8"](EXH[0], None)(Slice(s, 0, len(s)) if not isinstance(s, Slice) else s)[0] == 0


@m("chrono::datetime::DateTime::format")
def _(d, f):
    s = S(f)
    if type(s) is not bytes:
        raise Unsupported("symbolic date format")
    import datetime
    t = datetime.datetime(2020, 1, 2, 3, 4, 5)
    for k in (b"%3f", b"%.3f", b"%6f", b"%9f", b"%Z", b"%z", b"%:z", b"%+"):
        if k in s:
            raise Unsupported("date format")
    o = Opaque("dtfmt")
    o.d = t.strftime(s.decode()).encode()
    return o


def _flt(g):
    def f(*a):
        if any(isinstance(x, FloatOf) or type(x) is SV for x in a):
            raise Unsupported("float function of a symbolic value")
        return g(*a)
    return lambda ex, inf: f


import math
for _b in ("f64",):
    for _pre in ("std::%s::<impl %s>::" % (_b, _b), "core::num::<impl %s>::" % _b, "core::%s::<impl %s>::" % (_b, _b)):
        M[_pre + "sqrt"] = _flt(lambda v: math.sqrt(v) if v >= 0 else math.nan)
        M[_pre + "powi"] = _flt(lambda v, n: v ** n if v or n >= 0 else math.inf)
M["quick_xml::reader::buffered_reader::<impl quick_xml::reader::Reader<R>>::read_event_into"] = lambda ex, inf: (lambda r, b: models3.next_event(get(r)))


# ---------------------------------------------------------------- raw pointers and C strings
class CStr(Opaque):
    """a text that ends with a zero byte"""

    def __init__(self, text):
        self.tag = "cstr"
        self.d = None
        self.text = text
        self.mem = None

    def ptr(self):
        if self.mem is None:
            self.mem = [x - 256 if type(x) is int and x > 127 else x for x in self.text] + [0]
        return Ref(self.mem, 0)


def from_ptr(p):
    if isinstance(p, Slice):
        p = Ref(p.c, p.o)
    if not isinstance(p, Ref):
        raise Unsupported("text at %r" % (p,))
    i = p.k
    while True:
        if i >= len(p.c):
            raise Unsupported("text without end")
        x = p.c[i]
        if type(x) is int and x == 0:
            break
        i += 1
    return CStr(mks([x & 255 if type(x) is int else x for x in p.c[p.k:i]]))


@m("alloc::ffi::c_str::CString::new", "std::ffi::CString::new")
def _(t):
    s = S(t)
    for x in s:
        if EN.br(models3.isin(x, models3.F(b"\0"))):
            return err(Opaque("NulError"))
    return ok(CStr(s))


for _p in ("alloc::ffi::c_str::CString::", "core::ffi::c_str::CStr::"):
    for _n in ("as_ptr", "into_raw"):
        M[_p + _n] = lambda ex, inf: (lambda r: deref_all(r).ptr())
    M[_p + "as_c_str"] = lambda ex, inf: (lambda r: deref_all(r))
    for _n in ("as_bytes", "to_bytes", "into_bytes"):
        M[_p + _n] = lambda ex, inf: (lambda r: Slice(deref_all(r).text, 0, len(deref_all(r).text)))
M["alloc::ffi::c_str::CString::into_bytes"] = lambda ex, inf: (lambda r: newstr(deref_all(r).text))
M["<alloc::ffi::c_str::CString as core::ops::deref::Deref>::deref"] = lambda ex, inf: (lambda r: r)
M["core::ffi::c_str::CStr::from_ptr"] = lambda ex, inf: from_ptr
M["alloc::ffi::c_str::CString::from_raw"] = lambda ex, inf: from_ptr
for _p in ("alloc::ffi::c_str::", "core::ffi::c_str::"):
    M[_p + "CStr::to_str"] = lambda ex, inf: (lambda r: ok(deref_all(r).text))
    M[_p + "CStr::is_empty"] = lambda ex, inf: (lambda r: len(deref_all(r).text) == 0)
    M[_p + "CStr::count_bytes"] = lambda ex, inf: (lambda r: len(deref_all(r).text))
    M[_p + "<impl core::ffi::c_str::CStr>::to_string_lossy"] = lambda ex, inf: (lambda r: [0, deref_all(r).text])
for _k in ("const", "mut"):
    M["core::ptr::%s_ptr::<impl *%s T>::is_null" % (_k, _k)] = lambda ex, inf: (lambda p: type(p) is int and p == 0)




@m("anyhow::error::<impl anyhow::Error>::chain")
def _(r):
    return ListIt([deref_all(r)])


for _p in ("anyhow::chain::<impl core::iter::traits::iterator::Iterator for anyhow::Chain<'a>>::", "<anyhow::Chain as core::iter::traits::iterator::Iterator>::"):
    M[_p + "next"] = lambda ex, inf: (lambda it: get(it).nx())
M["alloc::vec::Vec::as_ptr"] = M["alloc::vec::Vec::as_mut_ptr"] = lambda ex, inf: (lambda v: (lambda s: Slice(s, 0, len(s)))(seq(deref_all(v))))
