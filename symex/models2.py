"""Models: Vec, String, str, slices, iterators, collections."""
import functools
from vals import *
from core import *
import core
from strs import *
from models import *
from models import M, CM, m, mf, cm


# ---------------------------------------------------------------- iterators
class ListIt:
    """a library iterator over already known items; fn maps an item when it is produced"""
    __slots__ = ("l", "i", "j", "peek", "aux")

    def __init__(self, l, aux=None):
        self.l = l
        self.i = 0
        self.j = len(l)
        self.aux = aux

    def nx(self):
        if self.i < self.j:
            v = self.l[self.i]
            self.i += 1
            return [1, v]
        return [0]

    def nb(self):
        if self.i < self.j:
            self.j -= 1
            return [1, self.l[self.j]]
        return [0]

    def rest(self):
        r = self.l[self.i:self.j]
        self.i = self.j
        return r

    def dup(self):
        r = ListIt(self.l, self.aux)
        r.i, r.j = self.i, self.j
        return r

    def drop_items(self, ex, t):
        a = [x for x in t["args"] if isinstance(x, int)]
        if t["path"] == "alloc::vec::into_iter::IntoIter" and a and ex.needs_drop(a[0]):
            for x in self.l[self.i:self.j]:
                ex.drop_val(x, a[0])
            self.i = self.j


class SliceIt(ListIt):
    """slice::Iter / IterMut"""
    __slots__ = ("off",)

    def __init__(self, c, off, n):
        self.l = c
        self.i = off
        self.j = off + n

    def nx(self):
        if self.i < self.j:
            self.i += 1
            return [1, Ref(self.l, self.i - 1)]
        return [0]

    def nb(self):
        if self.i < self.j:
            self.j -= 1
            return [1, Ref(self.l, self.j)]
        return [0]

    def rest(self):
        r = [Ref(self.l, k) for k in range(self.i, self.j)]
        self.i = self.j
        return r

    def dup(self):
        return SliceIt(self.l, self.i, self.j - self.i)

    def drop_items(self, ex, t):
        pass


import models
models.ListIt = ListIt

NATIVE_ITERS = {
    "core::slice::iter::Iter", "core::slice::iter::IterMut", "alloc::vec::into_iter::IntoIter", "alloc::vec::drain::Drain",
    "core::str::iter::Chars", "core::str::iter::CharIndices", "core::str::iter::Bytes", "core::str::iter::Split", "core::str::iter::RSplit",
    "core::str::iter::SplitN", "core::str::iter::RSplitN", "core::str::iter::Lines", "core::str::iter::SplitWhitespace", "core::str::iter::SplitTerminator",
    "core::str::iter::Matches", "core::str::iter::MatchIndices", "core::str::iter::SplitAsciiWhitespace", "core::str::iter::SplitInclusive",
    "core::str::iter::RMatchIndices",
    "core::slice::iter::Chunks", "core::slice::iter::ChunksExact", "core::slice::iter::Windows", "core::slice::iter::Split",
    "core::array::iter::IntoIter", "alloc::string::Drain", "alloc::string::IntoChars",
    "std::collections::hash::map::Iter", "std::collections::hash::map::IterMut", "std::collections::hash::map::IntoIter",
    "std::collections::hash::map::Keys", "std::collections::hash::map::Values", "std::collections::hash::map::ValuesMut",
    "std::collections::hash::map::IntoKeys", "std::collections::hash::map::IntoValues", "std::collections::hash::map::Drain",
    "std::collections::hash::set::Iter", "std::collections::hash::set::IntoIter", "std::collections::hash::set::Drain",
    "std::collections::hash::set::Union", "std::collections::hash::set::Intersection", "std::collections::hash::set::Difference",
    "alloc::collections::btree::map::Iter", "alloc::collections::btree::map::IterMut", "alloc::collections::btree::map::IntoIter",
    "alloc::collections::btree::map::Keys", "alloc::collections::btree::map::Values", "alloc::collections::btree::map::ValuesMut", "alloc::collections::btree::map::Range",
    "alloc::collections::btree::map::IntoKeys", "alloc::collections::btree::map::IntoValues",
    "alloc::collections::btree::set::Iter", "alloc::collections::btree::set::IntoIter",
    "alloc::collections::vec_deque::iter::Iter", "alloc::collections::vec_deque::into_iter::IntoIter", "alloc::collections::vec_deque::iter_mut::IterMut",
    "alloc::collections::vec_deque::drain::Drain",
    "core::char::ToUppercase", "core::char::ToLowercase", "quick_xml::events::attributes::Attributes",
    "core::iter::adapters::zip::Zip", "core::iter::adapters::step_by::StepBy",
}


class ZipIt:
    def __init__(self, a, b):
        self.a = a
        self.b = b

    def nx(self):
        x = self.a()
        if x[0] == 0:
            return [0]
        y = self.b()
        if y[0] == 0:
            return [0]
        return [1, [x[1], y[1]]]

    def rest(self):
        o = []
        while True:
            x = self.nx()
            if x[0] == 0:
                return o
            o.append(x[1])


def is_native_iter(ex, ty):
    return ex.head(ty) in NATIVE_ITERS


def next_fn(ex, ty):
    """python function: iterator ref -> Option"""
    if is_native_iter(ex, ty):
        return lambda r: get(r).nx()
    return ex.method("core::iter::traits::iterator::Iterator", "next", [ty])


def next_back_fn(ex, ty):
    if is_native_iter(ex, ty):
        return lambda r: get(r).nb()
    return ex.method("core::iter::traits::double_ended::DoubleEndedIterator", "next_back", [ty])


def iterate(ex, v, ty):
    """python iterator over a value of IntoIterator type"""
    t = ex.ty(ty)
    k = t["k"]
    h = ex.head(ty)
    if isinstance(v, ListIt) or isinstance(v, ZipIt):
        while True:
            x = v.nx()
            if x[0] == 0:
                return
            yield x[1]
    elif isinstance(v, VecObj):
        for x in list(v.l):
            yield x
    elif isinstance(v, MapObj):
        for x in map_items(v, h):
            yield x
    elif h == "core::option::Option":
        if v[0] == 1:
            yield v[1]
    elif k == "array":
        for x in v:
            yield x
    elif k == "ref" and isinstance(v, (Slice, Ref)):
        to = ex.ty(t["to"])
        if isinstance(v, Slice):
            for i in range(v.n):
                yield Ref(v.c, v.o + i)
            return
        tv = get(v)
        if isinstance(tv, VecObj):
            fixl(tv)
            for i in range(len(tv.l)):
                yield Ref(tv.l, i)
            return
        if isinstance(tv, MapObj):
            for x in ref_items(tv, ex.head(t["to"])):
                yield x
            return
        if to["k"] == "array":
            for i in range(len(tv)):
                yield Ref(tv, i)
            return
        # &mut I
        n = next_fn(ex, ty)
        c = Ref([v], 0)
        while True:
            x = n(c)
            if x[0] == 0:
                return
            yield x[1]
    else:
        try:
            n = next_fn(ex, ty)
        except Unsupported:
            f = ex.srv.method("core::iter::traits::collect::IntoIterator", "into_iter", [ty])
            b = ex.srv.body(f)
            it = ex.bind(f)(v)
            yield from iterate(ex, it, b["locals"][0])
            return
        c = Ref([v], 0)
        while True:
            x = n(c)
            if x[0] == 0:
                return
            yield x[1]


def fixl(v):
    """make Vec elements addressable"""
    return v


def map_items(v, h):
    if "set" in h:
        return [e[0] for e in v.entries()]
    return [[e[0], e[1]] for e in v.entries()]


def ref_items(v, h):
    if "set" in h:
        return [Ref(e, 0) for e in v.entries()]
    return [[Ref(e, 0), Ref(e, 1)] for e in v.entries()]


IT = "core::iter::traits::iterator::Iterator::"
DE = "core::iter::traits::double_ended::DoubleEndedIterator::"


def itm(name, pre=IT):
    """Iterator method for any library iterator, by repeated next"""
    def d(f):
        CM[pre + name] = f
        return f
    return d


@itm("next")
def _(ex, inf, a):
    if is_native_iter(ex, a[0]):
        return lambda r: get(r).nx()


@itm("next_back", DE)
def _(ex, inf, a):
    if is_native_iter(ex, a[0]):
        return lambda r: get(r).nb()


@itm("size_hint")
def _(ex, inf, a):
    def f(r):
        it = get(r)
        if isinstance(it, ListIt):
            n = it.j - it.i
            return [n, [1, n]]
        return [0, [0]]
    return f


@cm("core::iter::traits::exact_size::ExactSizeIterator::len")
def _(ex, inf, a):
    h = ex.head(a[0])

    def f(r):
        it = get(r)
        if isinstance(it, ListIt):
            return it.j - it.i
        # count a copy
        n = 0
        c = clone_val(it)
        for _ in iterate(ex, c, a[0]):
            n += 1
        return n
    return f


def selfloop(ex, a):
    n = next_fn(ex, a[0])
    return n


def val_iter(ex, ty, v):
    """self-by-value loops: share the slot so that by-reference use works too"""
    n = next_fn(ex, ty)
    c = Ref([v], 0)
    while True:
        x = n(c)
        if x[0] == 0:
            return
        yield x[1]


def ref_iter(n, r):
    while True:
        x = n(r)
        if x[0] == 0:
            return
        yield x[1]


@itm("any")
def _(ex, inf, a):
    fty = a[1]

    def f(r, g):
        for x in ref_iter(next_fn(ex, a[0]), r):
            if EN.br(ex.call_fn(fty, g, (x,))):
                return True
        return False
    return f


@itm("all")
def _(ex, inf, a):
    fty = a[1]

    def f(r, g):
        for x in ref_iter(next_fn(ex, a[0]), r):
            if not EN.br(ex.call_fn(fty, g, (x,))):
                return False
        return True
    return f


@itm("find")
def _(ex, inf, a):
    fty = a[1]

    def f(r, g):
        for x in ref_iter(next_fn(ex, a[0]), r):
            if EN.br(ex.call_fn(fty, g, (Ref([x], 0) if not is_unsized_ref(x) else Ref([x], 0),))):
                return some(x)
        return none()
    return f


def is_unsized_ref(x):
    return False


@itm("find_map")
def _(ex, inf, a):
    fty = a[2]

    def f(r, g):
        for x in ref_iter(next_fn(ex, a[0]), r):
            o = ex.call_fn(fty, g, (x,))
            if o[0] == 1:
                return o
        return none()
    return f


@itm("position")
def _(ex, inf, a):
    fty = a[1]

    def f(r, g):
        i = 0
        for x in ref_iter(next_fn(ex, a[0]), r):
            if EN.br(ex.call_fn(fty, g, (x,))):
                return some(i)
            i += 1
        return none()
    return f


@itm("rposition")
def _(ex, inf, a):
    fty = a[1]

    def f(r, g):
        it = get(r)
        n = next_back_fn(ex, a[0])
        items = []
        while True:
            x = n(r)
            if x[0] == 0:
                break
            items.append(x[1])
        k = len(items)
        for x in items:
            k -= 1
            if EN.br(ex.call_fn(fty, g, (x,))):
                return some(k)
        return none()
    return f


@itm("fold")
def _(ex, inf, a):
    fty = a[2]

    def f(v, acc, g):
        c = [g]
        for x in val_iter(ex, a[0], v):
            acc = ex.call_fn(fty, g, (acc, x))
        return acc
    return f


@itm("rfold", DE)
def _(ex, inf, a):
    fty = a[2]

    def f(v, acc, g):
        for x in ref_iter(next_back_fn(ex, a[0]), Ref([v], 0)):
            acc = ex.call_fn(fty, g, (acc, x))
        return acc
    return f


def try_cont(r, h):
    """(continue?, payload)"""
    if h == "core::option::Option":
        return r[0] == 1
    return r[0] == 0


@itm("try_fold")
def _(ex, inf, a):
    fty, rty = a[2], a[3]
    h = ex.head(rty)

    def f(r, acc, g):
        for x in ref_iter(next_fn(ex, a[0]), r):
            q = ex.call_fn(fty, g, (acc, x))
            if not try_cont(q, h):
                return q
            acc = q[1]
        return [1, acc] if h == "core::option::Option" else [0, acc]
    return f


@itm("try_rfold", DE)
def _(ex, inf, a):
    fty, rty = a[2], a[3]
    h = ex.head(rty)

    def f(r, acc, g):
        for x in ref_iter(next_back_fn(ex, a[0]), r):
            q = ex.call_fn(fty, g, (acc, x))
            if not try_cont(q, h):
                return q
            acc = q[1]
        return [1, acc] if h == "core::option::Option" else [0, acc]
    return f


@itm("try_for_each")
def _(ex, inf, a):
    fty, rty = a[1], a[2]
    h = ex.head(rty)

    def f(r, g):
        for x in ref_iter(next_fn(ex, a[0]), r):
            q = ex.call_fn(fty, g, (x,))
            if not try_cont(q, h):
                return q
        return [1, UNIT] if h == "core::option::Option" else [0, UNIT]
    return f


@itm("rfind", DE)
def _(ex, inf, a):
    fty = a[1]

    def f(r, g):
        for x in ref_iter(next_back_fn(ex, a[0]), r):
            if EN.br(ex.call_fn(fty, g, (Ref([x], 0),))):
                return some(x)
        return none()
    return f


@itm("for_each")
def _(ex, inf, a):
    fty = a[1]

    def f(v, g):
        cell = [g]
        for x in val_iter(ex, a[0], v):
            ex.call_fn(fty, g, (x,))
        return UNIT
    return f


@itm("count")
def _(ex, inf, a):
    def f(v):
        n = 0
        for _ in val_iter(ex, a[0], v):
            n += 1
        return n
    return f


@itm("last")
def _(ex, inf, a):
    def f(v):
        o = none()
        for x in val_iter(ex, a[0], v):
            o = some(x)
        return o
    return f


@itm("nth")
def _(ex, inf, a):
    def f(r, n):
        n = EN.conc(n)
        nx = next_fn(ex, a[0])
        for _ in range(n):
            if nx(r)[0] == 0:
                return none()
        return nx(r)
    return f


@itm("advance_by")
def _(ex, inf, a):
    def f(r, n):
        nx = next_fn(ex, a[0])
        for i in range(n):
            if nx(r)[0] == 0:
                return [1, n - i]
        return [0, UNIT]
    return f


@itm("nth_back", DE)
def _(ex, inf, a):
    def f(r, n):
        nx = next_back_fn(ex, a[0])
        for _ in range(n):
            if nx(r)[0] == 0:
                return none()
        return nx(r)
    return f


def _mm(which, kind):
    def fac(ex, inf, a):
        def f(v, g=None):
            best = None
            bk = None
            gt = a[-1]
            for x in val_iter(ex, a[0], v):
                if kind == "key":
                    k = ex.call_fn(gt, g, (Ref([x], 0),))
                else:
                    k = x
                if best is None:
                    best, bk = [x], k
                    continue
                if kind == "by":
                    c = ex.call_fn(gt, g, (Ref([bk], 0), Ref([k], 0)))[0] - 1
                else:
                    c = cmp_val(bk, k)
                if (which == "max" and c <= 0) or (which == "min" and c > 0):
                    best, bk = [x], k
            return none() if best is None else some(best[0])
        return f
    return fac


for _w in ("max", "min"):
    CM[IT + _w] = _mm(_w, "")
    CM[IT + _w + "_by_key"] = _mm(_w, "key")
    CM[IT + _w + "_by"] = _mm(_w, "by")


@itm("reduce")
def _(ex, inf, a):
    def f(v, g):
        acc = None
        for x in val_iter(ex, a[0], v):
            acc = [x] if acc is None else [ex.call_fn(a[1], g, (acc[0], x))]
        return none() if acc is None else some(acc[0])
    return f


def _sum(op):
    def fac(ex, inf, a):
        ty = a[1]
        ii = ex.intinfo(ty)
        if ii is None:
            if ex.ty(ty)["k"] == "float":
                def f(v):
                    acc = 0.0 if op == "Add" else 1.0
                    for x in val_iter(ex, a[0], v):
                        acc = core.FBIN(op, acc, deref_all(x), ex.ty(ty)["bits"])
                    return acc
                return f
            return None

        def f(v):
            acc = 0 if op == "Add" else 1
            for x in val_iter(ex, a[0], v):
                r = CADD(op, acc, deref_all(x), ii[0], ii[1])
                if EN.br(r[1]):
                    raise RustPanic("attempt to add with overflow")
                acc = r[0]
            return acc
        return f
    return fac


CM[IT + "sum"] = _sum("Add")
CM[IT + "product"] = _sum("Mul")


@itm("partition")
def _(ex, inf, a):
    def f(v, g):
        x1, x2 = [], []
        for x in val_iter(ex, a[0], v):
            (x1 if EN.br(ex.call_fn(a[2], g, (Ref([x], 0),))) else x2).append(x)
        return [build(ex, a[1], x1), build(ex, a[1], x2)]
    return f


@itm("unzip")
def _(ex, inf, a):
    def f(v):
        x1, x2 = [], []
        for x in val_iter(ex, a[0], v):
            x1.append(x[0])
            x2.append(x[1])
        return [build(ex, a[3], x1), build(ex, a[4], x2)]
    return f


@itm("eq")
def _(ex, inf, a):
    def f(x, y):
        l1 = list(iterate(ex, x, a[0]))
        l2 = list(iterate(ex, y, a[1]))
        return eq_val(l1, l2)
    return f


@itm("cmp")
def _(ex, inf, a):
    return lambda x, y: [cmp_val(list(iterate(ex, x, a[0])), list(iterate(ex, y, a[1]))) + 1]


@itm("zip")
def _(ex, inf, a):
    def f(x, y):
        n1 = next_fn(ex, a[0])
        c1 = Ref([x], 0)
        it = iterate(ex, y, a[1])

        def n2():
            for q in it:
                return [1, q]
            return [0]
        return ZipIt(lambda: n1(c1), n2)
    return f


@itm("step_by")
def _(ex, inf, a):
    def f(x, k):
        l = list(val_iter(ex, a[0], x))
        return ListIt(l[::EN.conc(k)])
    return f


@itm("rev")
def _(ex, inf, a):
    return None


@itm("collect")
def _(ex, inf, a):
    f = from_iter(ex, a[1], a[0])
    if f is None:
        return None
    return f


@cm("core::iter::traits::collect::FromIterator::from_iter")
def _(ex, inf, a):
    return from_iter(ex, a[0], a[2] if len(a) > 2 else None)


def from_iter(ex, ty, ity):
    h = ex.head(ty)
    t = ex.ty(ty)
    if h in ("core::result::Result", "core::option::Option"):
        if ex.ty(ty)["k"] != "adt":
            return None
        inner = t["args"][0]
        if h.endswith("Result"):
            def f(v):
                o = []
                for x in iterate(ex, v, ity):
                    if x[0] == 1:
                        return x
                    o.append(x[1])
                return ok(build(ex, inner, o))
        else:
            def f(v):
                o = []
                for x in iterate(ex, v, ity):
                    if x[0] == 0:
                        return x
                    o.append(x[1])
                return some(build(ex, inner, o))
        return f
    return lambda v: build(ex, ty, iterate(ex, v, ity))


def build(ex, ty, items):
    """collection of type ty from python items"""
    h = ex.head(ty)
    t = ex.ty(ty)
    if h == "alloc::vec::Vec":
        l = list(items)
        if ex.head(t["args"][0]) == "u8":
            return newstr(mks(l))
        return VecObj(l)
    if h == "alloc::string::String":
        v = VecObj(bytearray())
        for x in items:
            str_extend(v, x)
        return v
    if h in ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap"):
        mm = MapObj("btree" in h)
        for k, v in items:
            mm.insert(k, v)
        return mm
    if h in ("std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet"):
        mm = MapObj("btree" in h)
        for k in items:
            if mm.find(k) is None:
                mm.add(k, UNIT)
        return mm
    if h == "alloc::collections::vec_deque::VecDeque":
        return VecObj(list(items))
    if h == "alloc::boxed::Box":
        l = list(items)
        return [[[Slice(l, 0, len(l))], []], []]
    if t["k"] == "tuple" and not t["elems"]:
        for _ in items:
            pass
        return UNIT
    if h in ("core::result::Result", "core::option::Option"):
        inner = t["args"][0]
        o = []
        for x in items:
            if x[0] == (1 if h.endswith("Result") else 0):
                return x
            o.append(x[1])
        r = build(ex, inner, o)
        return ok(r) if h.endswith("Result") else some(r)
    raise Unsupported("collect into " + t["str"])


def str_extend(v, x):
    x = deref_all(x) if not isinstance(x, (bytes, tuple)) else x
    if type(x) is int or isinstance(x, SV):
        vpush(v, mks(enc_char(x)))
    elif type(x) is list and len(x) == 2:
        vpush(v, S(x[1]))
    else:
        vpush(v, S(x))


@cm("core::iter::traits::collect::Extend::extend")
def _(ex, inf, a):
    h = ex.head(a[0])
    ity = a[2] if len(a) > 2 else None

    def f(r, v):
        o = get(r)
        for x in list(iterate(ex, v, ity)):
            if h == "alloc::string::String":
                str_extend(o, x)
            elif isinstance(o, MapObj):
                if "set" in h:
                    if o.find(x) is None:
                        o.add(deref_copy(x), UNIT)
                else:
                    o.insert(deref_copy(x[0]) if False else x[0], x[1])
            else:
                et = ex.ty(a[0])["args"][0]
                if isinstance(x, Ref) and ex.ty(et)["k"] not in ("ref",):
                    x = clone_val(get(x))
                vpush1(o, x)
        return UNIT
    return f


def deref_copy(x):
    return x


@cm("core::iter::traits::collect::Extend::extend_one")
def _(ex, inf, a):
    h = ex.head(a[0])

    def f(r, x):
        o = get(r)
        if h == "alloc::string::String":
            str_extend(o, x)
        elif isinstance(o, MapObj):
            o.insert(x[0], x[1])
        else:
            vpush1(o, x)
        return UNIT
    return f


@cm("core::iter::traits::collect::IntoIterator::into_iter")
def _(ex, inf, a):
    t = ex.ty(a[0])
    h = ex.head(a[0])
    if h in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
        return lambda v: ListIt(list(v.l))
    if h in MAPS:
        return lambda v: ListIt(map_items(v, h))
    if t["k"] == "array":
        return lambda v: ListIt(list(v))
    if t["k"] == "ref":
        h2 = ex.head(t["to"])
        if h2 in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
            return lambda r: SliceIt(get(r).l, 0, len(get(r).l))
        if h2 == "array":
            return lambda r: SliceIt(get(r), 0, len(get(r)))
        if h2 == "slice":
            return lambda s: SliceIt(s.c, s.o, s.n)
        if h2 in MAPS:
            return lambda r: ListIt(ref_items(get(r), h2))
    return None


MAPS = ("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet", "alloc::collections::btree::map::BTreeMap", "alloc::collections::btree::set::BTreeSet")


@mf("core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next")
def _(ex, inf):
    ty = inf["args"][0]
    ii = ex.intinfo(ty)
    w, s = ii

    def f(r):
        v = get(r)
        a, b = v
        if type(a) is int and type(b) is int:
            if a < b:
                v[0] = a + 1
                return [1, a]
            return [0]
        if EN.br(scmp("Lt", a, b, w, s)):
            v[0] = sbin("Add", a, 1, w, s)
            return [1, a]
        return [0]
    return f


@mf("core::iter::range::<impl core::iter::traits::double_ended::DoubleEndedIterator for core::ops::range::Range<A>>::next_back")
def _(ex, inf):
    w, s = ex.intinfo(inf["args"][0])

    def f(r):
        v = get(r)
        if EN.br(scmp("Lt", v[0], v[1], w, s)):
            v[1] = sbin("Sub", v[1], 1, w, s)
            return [1, v[1]]
        return [0]
    return f


@mf("core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::RangeInclusive<A>>::next")
def _(ex, inf):
    w, s = ex.intinfo(inf["args"][0])

    def f(r):
        v = get(r)
        if v[2] is True:
            return [0]
        a, b = v[0], v[1]
        if EN.br(scmp("Lt", a, b, w, s)):
            v[0] = sbin("Add", a, 1, w, s)
            return [1, a]
        if EN.br(scmp("Eq", a, b, w, s)):
            v[2] = True
            return [1, a]
        return [0]
    return f


@mf("core::iter::range::<impl core::iter::traits::double_ended::DoubleEndedIterator for core::ops::range::RangeInclusive<A>>::next_back")
def _(ex, inf):
    w, s = ex.intinfo(inf["args"][0])

    def f(r):
        v = get(r)
        if v[2] is True:
            return [0]
        a, b = v[0], v[1]
        if EN.br(scmp("Lt", a, b, w, s)):
            v[1] = sbin("Sub", b, 1, w, s)
            return [1, b]
        if EN.br(scmp("Eq", a, b, w, s)):
            v[2] = True
            return [1, a]
        return [0]
    return f


# ---------------------------------------------------------------- Vec (and VecDeque)
def _vec_new(ex, inf):
    u8 = False
    a = [x for x in inf["args"] if isinstance(x, int)]
    if a and ex.head(a[0]) == "u8":
        u8 = True
    if u8:
        return lambda *_: VecObj(bytearray())
    return lambda *_: VecObj([])


models._vec_new = _vec_new
V = "alloc::vec::Vec::"
D = "alloc::collections::vec_deque::VecDeque::"
M[V + "new"] = _vec_new
M[V + "with_capacity"] = _vec_new
M["alloc::vec::from_elem"] = lambda ex, inf: (lambda v, n: VecObj([clone_val(v) for _ in range(EN.conc(n))]) if ex.head(inf["args"][0]) != "u8" or not isinstance(v, int) else VecObj(bytearray([v]) * EN.conc(n)))
M[D + "new"] = lambda ex, inf: (lambda: VecObj([]))
M[D + "with_capacity"] = lambda ex, inf: (lambda n: VecObj([]))


@m(V + "push", D + "push_back")
def _(r, x):
    vpush1(get(r), x)
    return UNIT


@m(V + "push_mut")
def _(r, x):
    v = get(r)
    vpush1(v, x)
    return Ref(v.l, len(v.l) - 1)


@m(D + "push_front")
def _(r, x):
    get(r).l.insert(0, x)
    return UNIT


@m(V + "pop", D + "pop_back", )
def _(r):
    l = get(r).l
    return some(l.pop()) if l else none()


@mf(V + "pop_if")
def _(ex, inf):
    def f(r, g):
        l = get(r).l
        if l and EN.br(ex.call_fn(inf["args"][-1], g, (Ref(l, len(l) - 1),))):
            return some(l.pop())
        return none()
    return f


@m(D + "pop_front")
def _(r):
    l = get(r).l
    return some(l.pop(0)) if l else none()


@m(V + "len", D + "len", "alloc::string::String::len")
def _(r):
    return len(get(r).l)


@m(V + "is_empty", D + "is_empty", "alloc::string::String::is_empty")
def _(r):
    return len(get(r).l) == 0


@m(V + "capacity", "alloc::string::String::capacity")
def _(r):
    return len(get(r).l)


@m(V + "reserve", V + "shrink_to_fit", V + "reserve_exact", "alloc::string::String::reserve", "alloc::string::String::shrink_to_fit", D + "reserve", V + "shrink_to")
def _(r, *a):
    return UNIT


def elem_drop(ex, inf):
    a = [x for x in inf["args"] if isinstance(x, int)]
    if a and ex.needs_drop(a[0]):
        return lambda x: ex.drop_val(x, a[0])
    return None


@mf(V + "clear", D + "clear", "alloc::string::String::clear")
def _(ex, inf):
    d = elem_drop(ex, inf)

    def f(r):
        v = get(r)
        if d:
            for x in v.l:
                d(x)
        v.l = bytearray() if type(v.l) is bytearray else []
        return UNIT
    return f


@mf(V + "truncate", D + "truncate", "alloc::string::String::truncate")
def _(ex, inf):
    d = elem_drop(ex, inf)

    def f(r, n):
        n = EN.conc(n)
        v = get(r)
        if d:
            for x in v.l[n:]:
                d(x)
        del v.l[n:]
        return UNIT
    return f


@m(V + "remove", D + "swap_remove_none")
def _(r, i):
    l = get(r).l
    i = EN.conc(i)
    if i >= len(l):
        raise RustPanic("removal index (is %d) should be < len (is %d)" % (i, len(l)))
    return l.pop(i)


@m(D + "remove")
def _(r, i):
    l = get(r).l
    i = EN.conc(i)
    return some(l.pop(i)) if i < len(l) else none()


@m(V + "swap_remove")
def _(r, i):
    l = get(r).l
    i = EN.conc(i)
    if i >= len(l):
        raise RustPanic("swap_remove index out of bounds")
    x = l[i]
    y = l.pop()
    if i < len(l):
        l[i] = y
    return x


@m(V + "insert", D + "insert")
def _(r, i, x):
    v = get(r)
    i = EN.conc(i)
    if i > len(v.l):
        raise RustPanic("insertion index out of bounds")
    if type(v.l) is bytearray and type(x) is not int:
        v.l = list(v.l)
    v.l.insert(i, x)
    return UNIT


@mf(V + "extend_from_slice")
def _(ex, inf):
    def f(r, s):
        v = get(r)
        if isinstance(s, Slice):
            s = s.c[s.o:s.o + s.n]
        if type(v.l) is bytearray:
            vpush(v, mks(s))
        elif type(s) in (bytes, tuple):
            v.l.extend(s)
        else:
            v.l.extend(clone_val(x) for x in s)
        return UNIT
    return f


@m(V + "append", D + "append")
def _(r, o):
    a, b = get(r), get(o)
    if type(a.l) is bytearray:
        vpush(a, S(b))
        b.l = bytearray()
    else:
        a.l.extend(b.l)
        b.l = []
    return UNIT


@mf(V + "retain", V + "retain_mut", D + "retain", D + "retain_mut")
def _(ex, inf):
    d = elem_drop(ex, inf)

    def f(r, g):
        v = get(r)
        out = []
        l = v.l
        for i in range(len(l)):
            if EN.br(ex.call_fn(inf["args"][-1], g, (Ref(l, i),))):
                out.append(l[i])
            elif d:
                d(l[i])
        v.l = bytearray(out) if type(l) is bytearray else out
        return UNIT
    return f


@m(D + "make_contiguous")
def _(r):
    l = get(r).l
    return Slice(l, 0, len(l))


@m(D + "as_slices", D + "as_mut_slices")
def _(r):
    l = get(r).l
    return [Slice(l, 0, len(l)), Slice(l, len(l), 0)]


@mf(V + "dedup")
def _(ex, inf):
    def f(r):
        v = get(r)
        out = []
        for x in v.l:
            if out and EN.br(eq_val(out[-1], x)):
                continue
            out.append(x)
        v.l = out
        return UNIT
    return f


@mf(V + "dedup_by_key")
def _(ex, inf):
    def f(r, g):
        v = get(r)
        out = []
        pk = None
        for i, x in enumerate(v.l):
            k = ex.call_fn(inf["args"][-2], g, (Ref(v.l, i),))
            if out and EN.br(eq_val(pk, k)):
                continue
            out.append(x)
            pk = k
        v.l = out
        return UNIT
    return f


def rng(ex, ty, v, n):
    """(start, end) of a range value over length n; panics out of range"""
    h = ex.head(ty).split("::")[-1]
    if h == "Range":
        a, b = v[0], v[1]
    elif h == "RangeFrom":
        a, b = v[0], n
    elif h == "RangeTo":
        a, b = 0, v[0]
    elif h == "RangeFull":
        a, b = 0, n
    elif h == "RangeInclusive":
        a, b = v[0], EN.conc(v[1]) + 1
    elif h == "RangeToInclusive":
        a, b = 0, EN.conc(v[0]) + 1
    else:
        raise Unsupported("range " + h)
    return EN.conc(a), EN.conc(b)


def rng_chk(ex, ty, v, n):
    a, b = rng(ex, ty, v, n)
    if a > b or b > n:
        raise RustPanic("range %d..%d out of range for length %d" % (a, b, n))
    return a, b


@mf(V + "drain", D + "drain")
def _(ex, inf):
    rt = [x for x in inf["args"] if isinstance(x, int)][-1]

    def f(r, g):
        v = get(r)
        a, b = rng_chk(ex, rt, g, len(v.l))
        x = list(v.l[a:b])
        del v.l[a:b]
        return ListIt(x)
    return f


@mf(V + "splice")
def _(ex, inf):
    a_ = [x for x in inf["args"] if isinstance(x, int)]
    rt, it = a_[-2], a_[-1]

    def f(r, g, items):
        v = get(r)
        a, b = rng_chk(ex, rt, g, len(v.l))
        x = list(v.l[a:b])
        v.l[a:b] = list(iterate(ex, items, it))
        return ListIt(x)
    return f


@m(V + "split_off", D + "split_off")
def _(r, i):
    v = get(r)
    i = EN.conc(i)
    if i > len(v.l):
        raise RustPanic("split_off out of bounds")
    t = v.l[i:]
    del v.l[i:]
    return VecObj(t)


@mf(V + "resize")
def _(ex, inf):
    def f(r, n, x):
        v = get(r)
        n = EN.conc(n)
        if n < len(v.l):
            del v.l[n:]
        while len(v.l) < n:
            vpush1(v, clone_val(x))
        return UNIT
    return f


@m(V + "as_slice", V + "as_mut_slice", "<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref", "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut",
   D + "make_contiguous")
def _(r):
    l = get(r).l
    return Slice(l, 0, len(l))


@m(V + "into_boxed_slice")
def _(v):
    return [[[Slice(v.l, 0, len(v.l))], []], []]


@m("alloc::slice::<impl [T]>::into_vec")
def _(b):
    s = b[0][0][0]
    if isinstance(s, Ref):
        s = get(s)
        return VecObj(s)
    return VecObj(list(s.c[s.o:s.o + s.n]))


@m(D + "front")
def _(r):
    l = get(r).l
    return some(Ref(l, 0)) if l else none()


@m(D + "back")
def _(r):
    l = get(r).l
    return some(Ref(l, len(l) - 1)) if l else none()


D_FRONT_MUT = D + "front_mut"
M[D_FRONT_MUT] = M[D + "front"]
M[D + "back_mut"] = M[D + "back"]


@m(D + "iter", D + "iter_mut")
def _(r):
    l = get(r).l
    return SliceIt(l, 0, len(l))


@m(D + "get", D + "get_mut")
def _(r, i):
    l = get(r).l
    i = EN.conc(i)
    return some(Ref(l, i)) if i < len(l) else none()


@cm("core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow", "core::convert::AsMut::as_mut", "core::borrow::BorrowMut::borrow_mut")
def _(ex, inf, a):
    h = ex.head(a[0])
    th = ex.head(a[1]) if len(a) > 1 else None
    if h == "alloc::string::String":
        if th == "str":
            return lambda r: S(get(r))
        if th == "slice":
            def f(r):
                b = S(get(r))
                return Slice(b, 0, len(b))
            return f
        return lambda r: S(get(r)) if th in ("std::path::Path", "std::ffi::os_str::OsStr") else r
    if h == "str":
        if th == "slice":
            return lambda s: Slice(s, 0, len(s))
        return lambda s: s
    if h == "alloc::vec::Vec" and th == "slice":
        return lambda r: Slice(get(r).l, 0, len(get(r).l))
    if h == "slice":
        return lambda s: s
    if h == "array" and th == "slice":
        return lambda r: Slice(get(r), 0, len(get(r)))
    if h == "alloc::borrow::Cow":
        return lambda r: S(get(r)[1])
    return None


@cm("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _(ex, inf, a):
    h = ex.head(a[0])
    t = ex.ty(a[0])
    it = ex.ty(a[1])
    if h in MAPS:
        def f(r, k):
            e = get(r).find(k)
            if e is None:
                raise RustPanic("map index: key not found")
            return Ref(e[1], 1)
        return f
    if h in ("alloc::string::String", "str"):
        def f(r, g):
            s = S(r)
            x, y = rng_chk(ex, a[1], g, len(s))
            chk_boundary(s, x)
            chk_boundary(s, y)
            return mks(s[x:y])
        return f
    if it["k"] == "uint":
        def f(r, i):
            i = EN.conc(i, what="index")
            if isinstance(r, Slice):
                if i >= r.n:
                    raise RustPanic("index out of bounds: the len is %d but the index is %d" % (r.n, i))
                return Ref(r.c, r.o + i)
            v = get(r)
            l = v.l if isinstance(v, VecObj) else v
            if i >= len(l):
                raise RustPanic("index out of bounds: the len is %d but the index is %d" % (len(l), i))
            return Ref(l, i)
        return f
    if it["k"] == "adt":
        def f(r, g):
            if not isinstance(r, Slice):
                v = get(r)
                l = v.l if isinstance(v, VecObj) else v
                r = Slice(l, 0, len(l))
            x, y = rng_chk(ex, a[1], g, r.n)
            return Slice(r.c, r.o + x, y - x)
        return f
    return None


for _p in ("core::slice::index::<impl core::ops::index::Index<I> for [T]>::index",):
    pass


def chk_boundary(s, i):
    if i == 0 or i == len(s):
        return
    x = s[i]
    if type(x) is int:
        bad = 0x80 <= x < 0xc0
    else:
        bad = EN.br(pred_sv(x, lambda v: 0x80 <= v < 0xc0))
    if bad:
        raise RustPanic("byte index %d is not a char boundary" % i)


def is_boundary(s, i):
    if i == 0 or i == len(s):
        return True
    if i > len(s):
        return False
    x = s[i]
    if type(x) is int:
        return not 0x80 <= x < 0xc0
    return not EN.br(pred_sv(x, lambda v: 0x80 <= v < 0xc0))


# ---------------------------------------------------------------- slices
SL = "core::slice::<impl [T]>::"
ASL = "alloc::slice::<impl [T]>::"


def sl(s):
    if isinstance(s, Slice):
        return s
    if isinstance(s, (bytes, tuple)):
        return Slice(s, 0, len(s))
    if isinstance(s, Ref):
        v = get(s)
        if isinstance(v, VecObj):
            return Slice(v.l, 0, len(v.l))
        if type(v) is list:
            return Slice(v, 0, len(v))
    raise Unsupported("slice of %r" % type(s))


@m(SL + "len")
def _(s):
    return sl(s).n


@m(SL + "is_empty")
def _(s):
    return sl(s).n == 0


@m(SL + "iter", SL + "iter_mut")
def _(s):
    s = sl(s)
    return SliceIt(s.c, s.o, s.n)


@mf(SL + "contains")
def _(ex, inf):
    def f(s, x):
        for i in range(s.n):
            if EN.br(eq_val(s.c[s.o + i], x)):
                return True
        return False
    return f


@m(SL + "first", SL + "first_mut")
def _(s):
    return some(Ref(s.c, s.o)) if s.n else none()


@m(SL + "last", SL + "last_mut")
def _(s):
    return some(Ref(s.c, s.o + s.n - 1)) if s.n else none()


@m(SL + "split_first")
def _(s):
    return some([Ref(s.c, s.o), Slice(s.c, s.o + 1, s.n - 1)]) if s.n else none()


@m(SL + "split_last")
def _(s):
    return some([Ref(s.c, s.o + s.n - 1), Slice(s.c, s.o, s.n - 1)]) if s.n else none()


@m(SL + "split_at", SL + "split_at_mut")
def _(s, i):
    i = EN.conc(i)
    if i > s.n:
        raise RustPanic("mid > len")
    return [Slice(s.c, s.o, i), Slice(s.c, s.o + i, s.n - i)]


@mf(SL + "get", SL + "get_mut")
def _(ex, inf):
    ity = [x for x in inf["args"] if isinstance(x, int)][-1]
    if ex.ty(ity)["k"] == "uint":
        def f(s, i):
            i = EN.conc(i)
            return some(Ref(s.c, s.o + i)) if i < s.n else none()
        return f

    def f(s, g):
        a, b = rng(ex, ity, g, s.n)
        if a > b or b > s.n:
            return none()
        return some(Slice(s.c, s.o + a, b - a))
    return f


@m(SL + "swap")
def _(s, i, j):
    i, j = EN.conc(i), EN.conc(j)
    if i >= s.n or j >= s.n:
        raise RustPanic("index out of bounds")
    c, o = s.c, s.o
    c[o + i], c[o + j] = c[o + j], c[o + i]
    return UNIT


@m(SL + "reverse")
def _(s):
    x = s.c[s.o:s.o + s.n]
    x.reverse()
    s.c[s.o:s.o + s.n] = x
    return UNIT


@m(SL + "fill")
def _(s, v):
    for i in range(s.n):
        s.c[s.o + i] = clone_val(v)
    return UNIT


@m(SL + "starts_with")
def _(s, p):
    s, p = sl(s), sl(p)
    if p.n > s.n:
        return False
    return eq_val(Slice(s.c, s.o, p.n), p)


@m(SL + "ends_with")
def _(s, p):
    s, p = sl(s), sl(p)
    if p.n > s.n:
        return False
    return eq_val(Slice(s.c, s.o + s.n - p.n, p.n), p)


@mf(ASL + "to_vec", "alloc::slice::<impl [T]>::to_vec_in", "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned")
def _(ex, inf):
    u8 = ex.head(inf["args"][0]) == "u8"

    def f(s):
        s = sl(s)
        x = s.c[s.o:s.o + s.n] if not (s.o == 0 and s.n == len(s.c)) else s.c
        if u8:
            return newstr(mks(x))
        return VecObj([clone_val(q) for q in x])
    return f


@cm("alloc::borrow::ToOwned::to_owned")
def _(ex, inf, a):
    h = ex.head(a[0])
    if h == "str":
        return lambda s: newstr(S(s))
    if h == "slice":
        u8 = ex.head(ex.ty(a[0])["to"]) == "u8"
        return M[ASL + "to_vec"](ex, {"args": [ex.ty(a[0])["to"]]})
    return ex.method("core::clone::Clone", "clone", [a[0]])


@mf("<T as alloc::borrow::ToOwned>::to_owned")
def _(ex, inf):
    return ex.method("core::clone::Clone", "clone", [inf["args"][0]])


def do_sort(s, cmpf):
    x = list(s.c[s.o:s.o + s.n])
    x.sort(key=functools.cmp_to_key(cmpf))
    s.c[s.o:s.o + s.n] = x
    return UNIT


@mf(ASL + "sort", SL + "sort_unstable")
def _(ex, inf):
    t = inf["args"][0]
    return lambda s: do_sort(s, lambda a, b: ordm(ex, t, a, b))


@mf(ASL + "sort_by", SL + "sort_unstable_by")
def _(ex, inf):
    ft = inf["args"][-1]
    return lambda s, g: do_sort(s, lambda a, b: ex.call_fn(ft, g, (Ref([a], 0), Ref([b], 0)))[0] - 1)


@mf(ASL + "sort_by_key", SL + "sort_unstable_by_key", ASL + "sort_by_cached_key")
def _(ex, inf):
    a = [x for x in inf["args"] if isinstance(x, int)]
    ft = next(x for x in a if ex.ty(x)["k"] in ("closure", "fndef", "fnptr"))
    kt = next((x for x in a[1:] if x != ft), None)

    def f(s, g):
        key = lambda x: ex.call_fn(ft, g, (Ref([x], 0),))
        return do_sort(s, lambda p, q: ordm(ex, kt, key(p), key(q)) if kt is not None else cmp_val(key(p), key(q)))
    return f


@mf(SL + "is_sorted")
def _(ex, inf):
    return lambda s: all(cmp_val(s.c[s.o + i], s.c[s.o + i + 1]) <= 0 for i in range(s.n - 1))


def bsearch(s, f):
    lo, hi = 0, s.n
    while lo < hi:
        mid = (lo + hi) // 2
        c = f(Ref(s.c, s.o + mid))
        if c == 0:
            return ok(mid)
        if c < 0:
            lo = mid + 1
        else:
            hi = mid
    return err(lo)


@mf(SL + "binary_search")
def _(ex, inf):
    t = inf["args"][0]
    return lambda s, x: bsearch(s, lambda r: ordm(ex, t, get(r), get(x)))


@mf(SL + "binary_search_by")
def _(ex, inf):
    ft = [x for x in inf["args"] if isinstance(x, int)][-1]
    return lambda s, g: bsearch(s, lambda r: ex.call_fn(ft, g, (r,))[0] - 1)


@mf(SL + "binary_search_by_key")
def _(ex, inf):
    a = [x for x in inf["args"] if isinstance(x, int)]
    ft = next(x for x in a if ex.ty(x)["k"] in ("closure", "fndef", "fnptr"))
    return lambda s, b, g: bsearch(s, lambda r: cmp_val(ex.call_fn(ft, g, (r,)), get(b)))


@mf(SL + "partition_point")
def _(ex, inf):
    ft = [x for x in inf["args"] if isinstance(x, int)][-1]

    def f(s, g):
        lo, hi = 0, s.n
        while lo < hi:
            mid = (lo + hi) // 2
            if EN.br(ex.call_fn(ft, g, (Ref(s.c, s.o + mid),))):
                lo = mid + 1
            else:
                hi = mid
        return lo
    return f


@m(SL + "windows")
def _(s, n):
    n = EN.conc(n)
    return ListIt([Slice(s.c, s.o + i, n) for i in range(s.n - n + 1)])


@m(SL + "chunks")
def _(s, n):
    n = EN.conc(n)
    return ListIt([Slice(s.c, s.o + i, min(n, s.n - i)) for i in range(0, s.n, n)])


@m(SL + "copy_from_slice", SL + "clone_from_slice")
def _(d, s):
    if d.n != s.n:
        raise RustPanic("copy_from_slice: source slice length does not match")
    d.c[d.o:d.o + d.n] = [clone_val(x) for x in s.c[s.o:s.o + s.n]]
    return UNIT


@mf("alloc::slice::<impl [T]>::concat")
def _(ex, inf):
    def f(s):
        items = [deref_all(s.c[s.o + i]) for i in range(s.n)]
        h = ex.head(inf["args"][0])
        if h == "alloc::string::String" or (h == "ref" and ex.head(ex.ty(inf["args"][0])["to"]) in ("str", "alloc::string::String")):
            return newstr(cat(*[S(x) for x in items]) if items else b"")
        o = []
        for x in items:
            o.extend(clone_val(y) for y in seq(x))
        if items and all(isinstance(y, int) for y in o) and "u8" in ex.ty(inf["args"][0])["str"]:
            return newstr(mks(o))
        return VecObj(o)
    return f


@mf("alloc::slice::<impl [T]>::join")
def _(ex, inf):
    def f(s, sep):
        s = sl(s)
        items = [s.c[s.o + i] for i in range(s.n)]
        h = ex.head(inf["args"][0])
        t = ex.ty(inf["args"][0])
        if h == "alloc::string::String" or (t["k"] == "ref" and ex.head(t["to"]) in ("str", "alloc::string::String")):
            o = []
            for i, x in enumerate(items):
                if i:
                    o.append(S(sep))
                o.append(S(x))
            return newstr(cat(*o) if o else b"")
        raise Unsupported("join of " + t["str"])
    return f


@m("alloc::slice::<impl [T]>::repeat")
def _(s, n):
    return VecObj([clone_val(x) for _ in range(EN.conc(n)) for x in seq(s)])


@m("core::slice::raw::from_ref", "core::array::from_ref")
def _(r):
    return Slice([get(r)], 0, 1)


@m("core::array::<impl [T; N]>::as_slice")
def _(r):
    return Slice(get(r), 0, len(get(r)))


@mf("core::array::<impl [T; N]>::map")
def _(ex, inf):
    ft = next(x for x in inf["args"] if isinstance(x, int) and ex.ty(x)["k"] in ("closure", "fndef", "fnptr"))
    return lambda a, g: [ex.call_fn(ft, g, (x,)) for x in a]


# ---------------------------------------------------------------- String / str
ST = "alloc::string::String::"
STR = "core::str::<impl str>::"
ASTR = "alloc::str::<impl str>::"


@m(ST + "new")
def _():
    return VecObj(bytearray())


@m(ST + "with_capacity")
def _(n):
    return VecObj(bytearray())


@m(ST + "push_str")
def _(r, s):
    vpush(get(r), S(s))
    return UNIT


@m(ST + "push")
def _(r, c):
    vpush(get(r), mks(enc_char(c)))
    return UNIT


@m(ST + "as_str", ST + "as_mut_str", "<alloc::string::String as core::ops::deref::Deref>::deref", "<alloc::string::String as core::ops::deref::DerefMut>::deref_mut")
def _(r):
    return S(get(r))


@m(ST + "as_bytes", STR + "as_bytes")
def _(r):
    s = S(r)
    return Slice(s, 0, len(s))


@m(ST + "into_bytes", ST + "into_boxed_str_none")
def _(v):
    return v


@m(ST + "into_boxed_str")
def _(v):
    return [[[S(v)], []], []]


@m(STR + "into_string", ASTR + "into_string")
def _(b):
    return newstr(b[0][0][0])


@m(ST + "from_utf8")
def _(v):
    if valid_utf8(S(v)) is None:
        return ok(v)
    return err(Opaque("FromUtf8Error", v))


@m("core::str::converts::from_utf8", STR + "from_utf8")
def _(s):
    b = S(s)
    return ok(b) if valid_utf8(b) is None else err(Opaque("Utf8Error"))


@m("core::str::converts::from_utf8_unchecked", STR + "from_utf8_unchecked")
def _(s):
    return S(s)


@m(ST + "from_utf8_unchecked")
def _(v):
    return v


@m(ST + "from_utf8_lossy")
def _(s):
    b = S(s)
    r = lossy(b)
    if r is b or (type(r) is bytes and r == b):
        return [0, b]
    return [1, newstr(r)]


@m(ST + "from_utf8_lossy_owned")
def _(v):
    return newstr(lossy(S(v)))


@m(ST + "pop")
def _(r):
    v = get(r)
    s = S(v)
    if not len(s):
        return none()
    cs = chars(s)
    p, c = cs[-1]
    v.l = v.l[:p]
    return some(c)


@m(ST + "remove")
def _(r, i):
    v = get(r)
    s = S(v)
    i = EN.conc(i)
    if i >= len(s):
        raise RustPanic("cannot remove a char from the end of a string")
    chk_boundary(s, i)
    c, n = dec_char(s, i)
    del v.l[i:i + n]
    return c


@m(ST + "insert")
def _(r, i, c):
    v = get(r)
    i = EN.conc(i)
    s = S(v)
    if i > len(s):
        raise RustPanic("insert out of bounds")
    chk_boundary(s, i)
    n = cat(mks(s[:i]), mks(enc_char(c)), mks(s[i:]))
    v.l = newstr(n).l
    return UNIT


@m(ST + "insert_str")
def _(r, i, t):
    v = get(r)
    i = EN.conc(i)
    s = S(v)
    if i > len(s):
        raise RustPanic("insert out of bounds")
    chk_boundary(s, i)
    v.l = newstr(cat(mks(s[:i]), S(t), mks(s[i:]))).l
    return UNIT


@mf(ST + "retain")
def _(ex, inf):
    def f(r, g):
        v = get(r)
        o = []
        for p, c in chars(S(v)):
            if EN.br(ex.call_fn(inf["args"][-1], g, (c,))):
                o.append(mks(enc_char(c)))
        v.l = newstr(cat(*o) if o else b"").l
        return UNIT
    return f


@mf(ST + "drain")
def _(ex, inf):
    def f(r, g):
        v = get(r)
        s = S(v)
        a, b = rng_chk(ex, inf["args"][-1], g, len(s))
        chk_boundary(s, a)
        chk_boundary(s, b)
        v.l = newstr(cat(mks(s[:a]), mks(s[b:]))).l
        return ListIt([c for _, c in chars(mks(s[a:b]))])
    return f


@mf(ST + "replace_range")
def _(ex, inf):
    def f(r, g, t):
        v = get(r)
        s = S(v)
        a, b = rng_chk(ex, inf["args"][-1], g, len(s))
        v.l = newstr(cat(mks(s[:a]), S(t), mks(s[b:]))).l
        return UNIT
    return f


@cm("core::ops::arith::Add::add")
def _(ex, inf, a):
    if ex.head(a[0]) == "alloc::string::String":
        def f(v, s):
            vpush(v, S(s))
            return v
        return f
    ii = ex.intinfo(a[0] if ex.ty(a[0])["k"] != "ref" else ex.ty(a[0])["to"])
    if ii:
        return arith_ref("Add", ii)


@cm("core::ops::arith::Sub::sub")
def _(ex, inf, a):
    ii = ex.intinfo(a[0] if ex.ty(a[0])["k"] != "ref" else ex.ty(a[0])["to"])
    if ii:
        return arith_ref("Sub", ii)


@cm("core::ops::arith::Mul::mul")
def _(ex, inf, a):
    ii = ex.intinfo(a[0] if ex.ty(a[0])["k"] != "ref" else ex.ty(a[0])["to"])
    if ii:
        return arith_ref("Mul", ii)


def _divrem(op):
    def fac(ex, inf, a):
        ii = ex.intinfo(a[0] if ex.ty(a[0])["k"] != "ref" else ex.ty(a[0])["to"])
        if ii:
            def f(x, y):
                x, y = deref_all(x), deref_all(y)
                if EN.br(scmp("Eq", y, 0, ii[0], ii[1])):
                    raise RustPanic("attempt to divide by zero")
                return sbin(op, x, y, ii[0], ii[1])
            return f
    return fac


CM["core::ops::arith::Div::div"] = _divrem("Div")
CM["core::ops::arith::Rem::rem"] = _divrem("Rem")


def arith_ref(op, ii):
    def f(x, y):
        r = CADD(op, deref_all(x), deref_all(y), ii[0], ii[1])
        if EN.br(r[1]):
            raise RustPanic("attempt to %s with overflow" % op.lower())
        return r[0]
    return f


@cm("core::ops::arith::AddAssign::add_assign")
def _(ex, inf, a):
    if ex.head(a[0]) == "alloc::string::String":
        def f(r, s):
            vpush(get(r), S(s))
            return UNIT
        return f
    ii = ex.intinfo(a[0])
    if ii:
        g = arith_ref("Add", ii)

        def f(r, y):
            put(r, g(get(r), y))
            return UNIT
        return f


@cm("core::ops::arith::SubAssign::sub_assign")
def _(ex, inf, a):
    ii = ex.intinfo(a[0])
    if ii:
        g = arith_ref("Sub", ii)

        def f(r, y):
            put(r, g(get(r), y))
            return UNIT
        return f


@m(STR + "len")
def _(s):
    return len(S(s))


@m(STR + "is_empty")
def _(s):
    return len(S(s)) == 0


@m(STR + "chars")
def _(s):
    return ListIt([c for _, c in chars(S(s))], S(s))


@m(STR + "char_indices")
def _(s):
    return ListIt([[p, c] for p, c in chars(S(s))])


@m(STR + "bytes")
def _(s):
    return ListIt(list(S(s)))


@m("core::str::iter::Chars::as_str")
def _(r):
    it = get(r)
    o = []
    for c in it.l[it.i:it.j]:
        o.append(mks(enc_char(c)))
    return cat(*o) if o else b""


@m(STR + "is_char_boundary")
def _(s, i):
    return is_boundary(S(s), EN.conc(i))


@m(STR + "trim")
def _(s):
    return trim(S(s))


@m(STR + "trim_start", STR + "trim_left")
def _(s):
    return trim(S(s), True, False)


@m(STR + "trim_end", STR + "trim_right")
def _(s):
    return trim(S(s), False, True)


class Pat:
    """a string pattern: at(s, i) -> length of the match at char boundary i, or None (forks)"""

    def __init__(self, ex, ty, v):
        t = ex.ty(ty)
        k = t["k"]
        self.cp = None
        self.lit = None
        if k == "char":
            if isinstance(v, int):
                self.lit = chr(v).encode()
            self.cp = lambda c: scmp("Eq", c, v, 32, False)
        elif k == "ref" and ex.ty(t["to"])["k"] == "str":
            self.lit = S(v)
        elif k == "ref" and ex.head(t["to"]) == "alloc::string::String":
            self.lit = S(get(v))
        elif k == "ref" and ex.head(t["to"]) == "ref":
            self.lit = S(get(v))
        elif k == "closure" or k == "fndef" or k == "fnptr":
            self.cp = lambda c: ex.call_fn(ty, v, (c,))
        elif k in ("array", "ref"):
            l = seq(v if k == "array" else (get(v) if isinstance(v, Ref) else v))

            def cp(c):
                for x in l:
                    if EN.br(scmp("Eq", c, x, 32, False)):
                        return True
                return False
            self.cp = cp
        else:
            raise Unsupported("pattern " + t["str"])

    def at(self, s, i):
        if self.lit is not None:
            n = len(self.lit)
            if i + n > len(s):
                return None
            return n if EN.br(eqs(mks(s[i:i + n]), self.lit)) else None
        if i >= len(s):
            return None
        c, n = dec_char(s, i) if type(s) is not bytes else bdec(s, i)
        return n if EN.br(self.cp(c)) else None

    def find(self, s, i=0):
        """(start, end) or None"""
        if self.lit is not None and type(s) is bytes and type(self.lit) is bytes:
            p = s.find(self.lit, i)
            return None if p < 0 else (p, p + len(self.lit))
        while True:
            n = self.at(s, i)
            if n is not None:
                return i, i + n
            if i >= len(s):
                return None
            i += 1
            while i < len(s) and not is_boundary(s, i):
                i += 1

    def rfind(self, s, end=None):
        """last match ending at or before end"""
        if end is None:
            end = len(s)
        if self.lit is not None and type(s) is bytes and type(self.lit) is bytes:
            p = s.rfind(self.lit, 0, end)
            return None if p < 0 else (p, p + len(self.lit))
        i = end
        if self.lit is not None:
            i = end - len(self.lit)
        else:
            i = end - 1
        while i >= 0:
            if is_boundary(s, i):
                n = self.at(s, i)
                if n is not None and i + n <= end:
                    return i, i + n
            i -= 1
        return None


def bdec(s, i):
    x = s[i]
    if x < 128:
        return x, 1
    n = 2 if x < 0xe0 else 3 if x < 0xf0 else 4
    return ord(s[i:i + n].decode()), n


def pty(inf):
    return [x for x in inf["args"] if isinstance(x, int)][-1]


def patf(name, pre=STR):
    def d(f):
        def fac(ex, inf):
            ty = pty(inf)
            return lambda s, p, *rest: f(S(s), Pat(ex, ty, p), *rest)
        M[pre + name] = fac
        return f
    return d


def patn(name):
    """methods with a leading count argument"""
    def d(f):
        def fac(ex, inf):
            ty = pty(inf)
            return lambda s, n, p: f(S(s), EN.conc(n), Pat(ex, ty, p))
        M[STR + name] = fac
        return f
    return d


@patf("contains")
def _(s, p):
    return p.find(s) is not None


@patf("starts_with")
def _(s, p):
    return p.at(s, 0) is not None


@patf("ends_with")
def _(s, p):
    return suffix(s, p) is not None


def suffix(s, p):
    if p.lit is not None:
        i = len(s) - len(p.lit)
        if i < 0:
            return None
        return i if EN.br(eqs(mks(s[i:]), p.lit)) else None
    if not len(s):
        return None
    cs = chars(s)
    return cs[-1][0] if EN.br(p.cp(cs[-1][1])) else None


@patf("find")
def _(s, p):
    r = p.find(s)
    return none() if r is None else some(r[0])


@patf("rfind")
def _(s, p):
    r = p.rfind(s)
    return none() if r is None else some(r[0])


@patf("strip_prefix")
def _(s, p):
    n = p.at(s, 0)
    return none() if n is None else some(mks(s[n:]))


@patf("strip_suffix")
def _(s, p):
    n = suffix(s, p)
    return none() if n is None else some(mks(s[:n]))


@patf("trim_start_matches")
def _(s, p):
    i = 0
    while True:
        n = p.at(s, i)
        if n is None or n == 0:
            return mks(s[i:])
        i += n


M[STR + "trim_left_matches"] = M[STR + "trim_start_matches"]


def trim_end_m(s, p):
    while True:
        n = suffix(s, p)
        if n is None or n == len(s):
            return s
        s = mks(s[:n])


@patf("trim_end_matches")
def _(s, p):
    return trim_end_m(s, p)


M[STR + "trim_right_matches"] = M[STR + "trim_end_matches"]


@patf("trim_matches")
def _(s, p):
    i = 0
    while True:
        n = p.at(s, i)
        if n is None or n == 0:
            break
        i += n
    return trim_end_m(mks(s[i:]), p)


def split_all(s, p):
    o = []
    st = 0
    if p.lit is not None and len(p.lit) == 0:
        raise Unsupported("split by the empty string")
    i = 0
    while True:
        r = p.find(s, i)
        if r is None:
            o.append(mks(s[st:]))
            return o
        o.append(mks(s[st:r[0]]))
        st = i = r[1]


@patf("split")
def _(s, p):
    return ListIt(split_all(s, p))


@patf("rsplit")
def _(s, p):
    return ListIt(split_all(s, p)[::-1])


@patf("split_terminator")
def _(s, p):
    o = split_all(s, p)
    if o and len(o[-1]) == 0:
        o.pop()
    return ListIt(o)


@patf("split_inclusive")
def _(s, p):
    o = []
    st = 0
    i = 0
    while True:
        r = p.find(s, i)
        if r is None:
            if st < len(s):
                o.append(mks(s[st:]))
            return ListIt(o)
        o.append(mks(s[st:r[1]]))
        st = i = r[1]


@patn("splitn")
def _(s, n, p):
    o = []
    st = 0
    if n == 0:
        return ListIt([])
    while len(o) < n - 1:
        r = p.find(s, st)
        if r is None:
            break
        o.append(mks(s[st:r[0]]))
        st = r[1]
    o.append(mks(s[st:]))
    return ListIt(o)


@patn("rsplitn")
def _(s, n, p):
    o = []
    if n == 0:
        return ListIt([])
    while len(o) < n - 1:
        r = p.rfind(s)
        if r is None:
            break
        o.append(mks(s[r[1]:]))
        s = mks(s[:r[0]])
    o.append(s)
    return ListIt(o)


@patf("split_once")
def _(s, p):
    r = p.find(s)
    return none() if r is None else some([mks(s[:r[0]]), mks(s[r[1]:])])


@patf("rsplit_once")
def _(s, p):
    r = p.rfind(s)
    return none() if r is None else some([mks(s[:r[0]]), mks(s[r[1]:])])


@patf("matches")
def _(s, p):
    o = []
    i = 0
    while True:
        r = p.find(s, i)
        if r is None:
            return ListIt(o)
        o.append(mks(s[r[0]:r[1]]))
        i = max(r[1], i + 1)


@patf("match_indices")
def _(s, p):
    o = []
    i = 0
    while True:
        r = p.find(s, i)
        if r is None:
            return ListIt(o)
        o.append([r[0], mks(s[r[0]:r[1]])])
        i = max(r[1], i + 1)


def _replace(ex, inf):
    ty = pty(inf)

    def f(s, p, t):
        s = S(s)
        parts = split_all(s, Pat(ex, ty, p))
        o = []
        for i, x in enumerate(parts):
            if i:
                o.append(S(t))
            o.append(x)
        return newstr(cat(*o))
    return f


M[ASTR + "replace"] = _replace
M[STR + "replace"] = _replace


@mf(ASTR + "replacen")
def _(ex, inf):
    ty = pty(inf)

    def f(s, p, t, n):
        s = S(s)
        pp = Pat(ex, ty, p)
        o = []
        i = 0
        for _ in range(EN.conc(n)):
            r = pp.find(s, i)
            if r is None:
                break
            o.append(mks(s[i:r[0]]))
            o.append(S(t))
            i = r[1]
        o.append(mks(s[i:]))
        return newstr(cat(*o))
    return f


@m(STR + "lines")
def _(s):
    s = S(s)
    o = []
    cur = []
    for x in s:
        if EN.br(pred_sv(x, lambda v: v == 10)):
            if cur and EN.br(pred_sv(cur[-1], lambda v: v == 13)):
                cur.pop()
            o.append(mks(cur))
            cur = []
        else:
            cur.append(x)
    if cur:
        o.append(mks(cur))
    return ListIt(o)


@m(STR + "split_whitespace")
def _(s):
    s = S(s)
    o = []
    cur = []
    for p, c in chars(s):
        if EN.br(is_ws(c)):
            if cur:
                o.append(cat(*cur))
            cur = []
        else:
            cur.append(mks(enc_char(c)))
    if cur:
        o.append(cat(*cur))
    return ListIt(o)


@m(STR + "split_at")
def _(s, i):
    s = S(s)
    i = EN.conc(i)
    if i > len(s):
        raise RustPanic("failed to slice string")
    chk_boundary(s, i)
    return [mks(s[:i]), mks(s[i:])]


@m(STR + "split_at_checked")
def _(s, i):
    s = S(s)
    i = EN.conc(i)
    if i > len(s) or not is_boundary(s, i):
        return none()
    return some([mks(s[:i]), mks(s[i:])])


@mf(STR + "get")
def _(ex, inf):
    def f(s, g):
        s = S(s)
        a, b = rng(ex, inf["args"][-1], g, len(s))
        if a > b or b > len(s) or not is_boundary(s, a) or not is_boundary(s, b):
            return none()
        return some(mks(s[a:b]))
    return f


@m(ASTR + "to_lowercase")
def _(s):
    return newstr(strmap(S(s), str.lower))


@m(ASTR + "to_uppercase")
def _(s):
    return newstr(strmap(S(s), str.upper))


@m(ASTR + "to_ascii_lowercase", STR + "to_ascii_lowercase", "alloc::slice::<impl [u8]>::to_ascii_lowercase")
def _(s):
    return newstr(mks([map_sv(x, lambda v: v + 32 if 65 <= v <= 90 else v, 8) for x in S(s)]))


@m(ASTR + "to_ascii_uppercase", STR + "to_ascii_uppercase", "alloc::slice::<impl [u8]>::to_ascii_uppercase")
def _(s):
    return newstr(mks([map_sv(x, lambda v: v - 32 if 97 <= v <= 122 else v, 8) for x in S(s)]))


@m(STR + "make_ascii_uppercase", STR + "make_ascii_lowercase")
def _(s):
    raise Unsupported("make_ascii case")


@m(STR + "is_ascii")
def _(s):
    r = True
    for x in S(s):
        r = b_and(r, pred_sv(x, lambda v: v < 128))
    return r


def strmap(s, f):
    if type(s) is bytes:
        return f(s.decode()).encode()
    o = []
    for p, c in chars(s):
        if isinstance(c, int):
            o.append(f(chr(c)).encode())
        else:
            if not is_ascii_dom(c):
                raise Unsupported("case of a wide symbolic character")
            o.append(mks(enc_char(map_sv(c, lambda v: ord(f(chr(v))) if v < 128 else v, 32))))
    return cat(*o) if o else b""


@m(ASTR + "repeat", STR + "repeat")
def _(s, n):
    return newstr(cat(*[S(s)] * EN.conc(n)) if EN.conc(n) else b"")


@m("<alloc::borrow::Cow<'_, B> as core::ops::deref::Deref>::deref")
def _(r):
    c = get(r)
    return S(c[1]) if not isinstance(c[1], Slice) else c[1]


@mf("alloc::borrow::Cow::into_owned", "alloc::borrow::Cow::to_mut")
def _(ex, inf):
    tm = inf["path"].endswith("to_mut")

    def f(c):
        if tm:
            r = c
            c = get(r)
            if c[0] == 0:
                put(r, [1, newstr(S(c[1]))])
            return Ref(get(r), 1)
        if c[0] == 1:
            return c[1]
        return newstr(S(c[1]))
    return f


@m("alloc::borrow::Cow::is_borrowed")
def _(r):
    return get(r)[0] == 0


@cm("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def _(ex, inf, a):
    if ex.head(a[0]) == "alloc::borrow::Cow":
        return lambda r: S(get(r)[1]) if not isinstance(get(r)[1], Slice) else get(r)[1]
    return None


# ---------------------------------------------------------------- maps and sets
HM = "std::collections::hash::map::HashMap::"
HS = "std::collections::hash::set::HashSet::"
BM = "alloc::collections::btree::map::BTreeMap::"
BS = "alloc::collections::btree::set::BTreeSet::"


def both(name, *pre):
    return [p + name for p in (pre or (HM, BM))]


@m(HM + "new", HM + "with_capacity", HS + "new", HS + "with_capacity", HM + "with_capacity_and_hasher", HM + "with_hasher")
def _(*a):
    return MapObj()


@m(BM + "new", BS + "new")
def _():
    return MapObj(True)


@m(*both("len", HM, BM, HS, BS))
def _(r):
    return len(get(r).d)


@m(*both("is_empty", HM, BM, HS, BS))
def _(r):
    return len(get(r).d) == 0


@m(*both("reserve", HM, HS))
def _(r, n):
    return UNIT


@mf(*both("clear", HM, BM, HS, BS))
def _(ex, inf):
    a = [x for x in inf["args"] if isinstance(x, int)]

    def f(r):
        o = get(r)
        o.drop_items(ex, {"args": a})
        o.d = {}
        o.nsym = 0
        return UNIT
    return f


@m(*both("insert"))
def _(r, k, v):
    return get(r).insert(k, v)


@m(*both("insert", HS, BS))
def _(r, k):
    o = get(r)
    if o.find(k) is None:
        o.add(k, UNIT)
        return True
    return False


@m(*both("replace", HS, BS))
def _(r, k):
    o = get(r)
    e = o.find(k)
    if e is None:
        o.add(k, UNIT)
        return none()
    old = e[1][0]
    e[1][0] = k
    return some(old)


@m(*both("get"), *both("get_mut"))
def _(r, k):
    e = get(r).find(k)
    return none() if e is None else some(Ref(e[1], 1))


@m(*both("get_key_value"))
def _(r, k):
    e = get(r).find(k)
    return none() if e is None else some([Ref(e[1], 0), Ref(e[1], 1)])


@m(*both("get", HS, BS))
def _(r, k):
    e = get(r).find(k)
    return none() if e is None else some(Ref(e[1], 0))


@m(*both("contains_key"), *both("contains", HS, BS))
def _(r, k):
    return get(r).find(k) is not None


@m(*both("remove"))
def _(r, k):
    e = get(r).remove(k)
    return none() if e is None else some(e[1])


@m(*both("remove_entry"))
def _(r, k):
    e = get(r).remove(k)
    return none() if e is None else some([e[0], e[1]])


@m(*both("remove", HS, BS))
def _(r, k):
    return get(r).remove(k) is not None


@m(*both("take", HS, BS))
def _(r, k):
    e = get(r).remove(k)
    return none() if e is None else some(e[0])


@m(*both("iter"), *both("iter_mut"))
def _(r):
    return ListIt([[Ref(e, 0), Ref(e, 1)] for e in get(r).entries()])


@m(*both("iter", HS, BS))
def _(r):
    return ListIt([Ref(e, 0) for e in get(r).entries()])


@m(*both("keys"))
def _(r):
    return ListIt([Ref(e, 0) for e in get(r).entries()])


@m(*both("values"), *both("values_mut"))
def _(r):
    return ListIt([Ref(e, 1) for e in get(r).entries()])


@m(*both("into_keys"))
def _(v):
    return ListIt([e[0] for e in v.entries()])


@m(*both("into_values"))
def _(v):
    return ListIt([e[1] for e in v.entries()])


@m(HM + "drain")
def _(r):
    v = get(r)
    es = v.entries()
    v.d = {}
    v.nsym = 0
    return ListIt([[e[0], e[1]] for e in es])


@m(HS + "drain")
def _(r):
    v = get(r)
    es = v.entries()
    v.d = {}
    v.nsym = 0
    return ListIt([e[0] for e in es])


@mf(*both("retain"))
def _(ex, inf):
    a = [x for x in inf["args"] if isinstance(x, int)]
    nd = [ex.needs_drop(x) for x in a[:2]]

    def f(r, g):
        o = get(r)
        for k, e in list(o.d.items()):
            if not EN.br(ex.call_fn(a[-1], g, (Ref(e, 0), Ref(e, 1)))):
                del o.d[k]
                if type(k) is tuple and len(k) == 2 and k[0] == "sym":
                    o.nsym -= 1
                for i in (0, 1):
                    if nd[i]:
                        ex.drop_val(e[i], a[i])
        return UNIT
    return f


@mf(*both("retain", HS, BS))
def _(ex, inf):
    a = [x for x in inf["args"] if isinstance(x, int)]

    def f(r, g):
        o = get(r)
        for k, e in list(o.d.items()):
            if not EN.br(ex.call_fn(a[-1], g, (Ref(e, 0),))):
                del o.d[k]
        return UNIT
    return f


@m(BM + "first_key_value")
def _(r):
    e = get(r).entries()
    return some([Ref(e[0], 0), Ref(e[0], 1)]) if e else none()


@m(BM + "last_key_value")
def _(r):
    e = get(r).entries()
    return some([Ref(e[-1], 0), Ref(e[-1], 1)]) if e else none()


@m(BS + "first")
def _(r):
    e = get(r).entries()
    return some(Ref(e[0], 0)) if e else none()


@m(BS + "last")
def _(r):
    e = get(r).entries()
    return some(Ref(e[-1], 0)) if e else none()


def _popend(i):
    def f(r):
        o = get(r)
        es = o.entries()
        if not es:
            return none()
        e = es[i]
        for k, x in o.d.items():
            if x is e:
                del o.d[k]
                break
        return some([e[0], e[1]])
    return lambda ex, inf: f


M[BM + "pop_first"] = _popend(0)
M[BM + "pop_last"] = _popend(-1)


@mf(BM + "range")
def _(ex, inf):
    a = [x for x in inf["args"] if isinstance(x, int)]

    def f(r, g):
        o = []
        h = ex.head(a[-1]).split("::")[-1]
        for e in get(r).entries():
            lo = g[0] if h in ("Range", "RangeFrom", "RangeInclusive") else None
            hi = g[1] if h in ("Range", "RangeInclusive") else g[0] if h in ("RangeTo", "RangeToInclusive") else None
            if lo is not None and cmp_val(e[0], lo) < 0:
                continue
            if hi is not None:
                c = cmp_val(e[0], hi)
                if c > 0 or (c == 0 and "Inclusive" not in h):
                    continue
            o.append([Ref(e, 0), Ref(e, 1)])
        return ListIt(o)
    return f


class EntryObj:
    def __init__(self, mp, key, e):
        self.mp = mp
        self.key = key
        self.e = e


@m(HM + "entry", BM + "entry")
def _(r, k):
    mp = get(r)
    e = mp.find(k)
    x = EntryObj(mp, k, None if e is None else e[1])
    # Entry enum: hash map: Occupied=0, Vacant=1 ; btree map: Vacant=0, Occupied=1
    if mp.sort:
        return [0 if e is None else 1, x]
    return [1 if e is None else 0, x]


EH = "std::collections::hash::map::Entry::"
EB = "alloc::collections::btree::map::entry::Entry::"


@m(EH + "or_insert", EB + "or_insert")
def _(en, v):
    x = en[1]
    if x.e is None:
        x.e = x.mp.add(x.key, v)
    return Ref(x.e, 1)


@mf(EH + "or_insert_with", EB + "or_insert_with", EH + "or_insert_with_key")
def _(ex, inf):
    wk = inf["path"].endswith("key")

    def f(en, g):
        x = en[1]
        if x.e is None:
            x.e = x.mp.add(x.key, ex.call_fn(inf["args"][-1], g, (Ref([x.key], 0),) if wk else ()))
        return Ref(x.e, 1)
    return f


@mf(EH + "or_default", EB + "or_default")
def _(ex, inf):
    a = [x for x in inf["args"] if isinstance(x, int)]
    d = ex.method("core::default::Default", "default", [a[1]])

    def f(en):
        x = en[1]
        if x.e is None:
            x.e = x.mp.add(x.key, d())
        return Ref(x.e, 1)
    return f


@mf(EH + "and_modify", EB + "and_modify")
def _(ex, inf):
    def f(en, g):
        x = en[1]
        if x.e is not None:
            ex.call_fn(inf["args"][-1], g, (Ref(x.e, 1),))
        return en
    return f


@m(EH + "key", EB + "key")
def _(r):
    return Ref([get(r)[1].key], 0)


for _pre in ("std::collections::hash::map::OccupiedEntry::", "alloc::collections::btree::map::entry::OccupiedEntry::"):
    M[_pre + "get"] = lambda ex, inf: (lambda r: Ref(get(r).e, 1))
    M[_pre + "get_mut"] = lambda ex, inf: (lambda r: Ref(get(r).e, 1))
    M[_pre + "into_mut"] = lambda ex, inf: (lambda x: Ref(x.e, 1))
    M[_pre + "key"] = lambda ex, inf: (lambda r: Ref(get(r).e, 0))

    def _ins(r, v):
        o = get(r).e[1]
        get(r).e[1] = v
        return o
    M[_pre + "insert"] = lambda ex, inf, f=_ins: f

    def _rem(x):
        for k, e in x.mp.d.items():
            if e is x.e:
                del x.mp.d[k]
                break
        return x.e[1]
    M[_pre + "remove"] = lambda ex, inf, f=_rem: f
for _pre in ("std::collections::hash::map::VacantEntry::", "alloc::collections::btree::map::entry::VacantEntry::"):
    def _vins(x, v):
        x.e = x.mp.add(x.key, v)
        return Ref(x.e, 1)
    M[_pre + "insert"] = lambda ex, inf, f=_vins: f
    M[_pre + "key"] = lambda ex, inf: (lambda r: Ref([get(r).key], 0))


# ---------------------------------------------------------------- phf
def phf_find(r, k):
    mp = get(r)
    es = mp[2]
    key = S(k)
    if type(key) is bytes:
        d = PHF.get(id(es))
        if d is None:
            d = ({S(es.c[es.o + i][0]): es.c[es.o + i] for i in range(es.n)}, es)
            PHF[id(es)] = d
        return d[0].get(key)
    for i in range(es.n):
        e = es.c[es.o + i]
        if EN.br(eqs(S(e[0]), key)):
            return e
    return None


PHF = {}


@m("phf::map::Map::get")
def _(r, k):
    e = phf_find(r, k)
    return none() if e is None else some(Ref(e, 1))


@m("phf::map::Map::contains_key")
def _(r, k):
    return phf_find(r, k) is not None


@m("phf::map::Map::get_entry")
def _(r, k):
    e = phf_find(r, k)
    return none() if e is None else some([Ref(e, 0), Ref(e, 1)])


@m("phf::map::Map::len")
def _(r):
    return get(r)[2].n


@m("phf::map::Map::entries")
def _(r):
    es = get(r)[2]
    return ListIt([[Ref(es.c[es.o + i], 0), Ref(es.c[es.o + i], 1)] for i in range(es.n)])


@m("phf::map::Map::keys")
def _(r):
    es = get(r)[2]
    return ListIt([Ref(es.c[es.o + i], 0) for i in range(es.n)])


@m("phf::map::Map::values")
def _(r):
    es = get(r)[2]
    return ListIt([Ref(es.c[es.o + i], 1) for i in range(es.n)])


NATIVE_ITERS.update({"phf::map::Entries", "phf::map::Keys", "phf::map::Values"})
