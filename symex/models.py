"""Models of library functions (std, anyhow, chrono, flate2, zip, phf) at their documented behaviour."""
import functools
import struct
import numpy as np
from vals import *
from core import *
import core
from strs import *

M = {}      # exact path -> factory(ex, inf)
CM = {}     # trait item path -> factory(ex, inf, cargs)


def m(*paths):
    def d(f):
        for p in paths:
            M[p] = lambda ex, inf, f=f: f
        return f
    return d


def mf(*paths):
    """factory"""
    def d(f):
        for p in paths:
            M[p] = f
        return f
    return d


def cm(*paths):
    def d(f):
        for p in paths:
            CM[p] = f
        return f
    return d


def get(r):
    return r.c[r.k]


def put(r, v):
    r.c[r.k] = v


# ---------------------------------------------------------------- helpers used by generated code
def UNSUP(msg):
    raise Unsupported(msg)


def META(x):
    if isinstance(x, Slice):
        return x.n
    if type(x) in (bytes, tuple):
        return len(x)
    if isinstance(x, Ref):
        return UNIT
    raise Unsupported("metadata of %r" % type(x))


def SUBSL(x, a, b, fe, arr):
    if arr:
        n = len(x)
        return Slice(x, a, (n - b if fe else b) - a)
    return Slice(x.c, x.o + a, (x.n - b if fe else b) - a)


def RAWPTR(p, meta):
    if isinstance(meta, int):
        if isinstance(p, Ref):
            c = p.c
            if isinstance(c, list) and isinstance(p.k, int):
                return Slice(c, p.k, meta)
        if isinstance(p, Slice):
            return Slice(p.c, p.o, meta)
    if meta is UNIT or meta == []:
        return p
    raise Unsupported("raw pointer from parts")


def OFFSET(p, n):
    if isinstance(p, Ref) and isinstance(n, int):
        return Ref(p.c, p.k + n)
    raise Unsupported("pointer offset")


def CMP3(x, y, w, s):
    return [cmp3(x, y, w, s) + 1]


def FBIN(op, x, y, bits):
    if isinstance(x, FloatOf) or isinstance(y, FloatOf):
        raise Unsupported("float operation on a symbolic float")
    if op == "Add":
        r = x + y
    elif op == "Sub":
        r = x - y
    elif op == "Mul":
        r = x * y
    elif op == "Div":
        if y == 0:
            r = float("nan") if x == 0 or x != x else float("inf") if (x > 0) == (str(y)[0] != '-') else float("-inf")
        else:
            r = x / y
    elif op == "Rem":
        import math
        r = math.fmod(x, y)
    else:
        return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
    return float(np.float32(r)) if bits == 32 else r


def I2F(x, bits):
    x = EN.conc(x)
    return float(np.float32(x)) if bits == 32 else float(x)


def F2I(x, w, s):
    if isinstance(x, FloatOf):
        raise Unsupported("integer of a symbolic float")
    if x != x:
        return 0
    lo = -(1 << (w - 1)) if s else 0
    hi = (1 << (w - 1)) - 1 if s else (1 << w) - 1
    if x in (float("inf"), float("-inf")):
        return hi if x > 0 else lo
    return max(lo, min(hi, int(x)))


def F2F(x, a, b):
    if isinstance(x, FloatOf):
        return FloatOf(x.text, b)
    return float(np.float32(x)) if b == 32 else float(x)


def UNSIZE(x, tf, tt):
    ex = EXH[0]
    f, t = ex.ty(tf), ex.ty(tt)
    if f["k"] in ("ref", "ptr"):
        ff, to = ex.ty(f["to"]), ex.ty(t["to"])
        if ff["k"] == "array" and to["k"] == "slice":
            a = x.c[x.k]
            return Slice(a, 0, len(a))
        if to["k"] == "dyn":
            if ff["k"] == "dyn":
                return x
            return DynRef(x, f["to"])
    if f["k"] == "adt" and f["box"]:
        ff, to = ex.ty(f["args"][0]), ex.ty(t["args"][0])
        p = x[0][0][0]
        if ff["k"] == "array" and to["k"] == "slice":
            a = p.c[p.k]
            return [[[Slice(a, 0, len(a))], []], []]
        if to["k"] == "dyn":
            return [[[DynRef(p, f["args"][0])], []], []]
    raise Unsupported("unsize %s -> %s" % (f["str"], t["str"]))


def PTRCAST(x, tf, tt):
    return x


def TRANSMUTE(x, tf, tt):
    ex = EXH[0]
    f, t = ex.ty(tf), ex.ty(tt)
    if f["k"] in ("ref", "ptr") and t["k"] in ("ref", "ptr"):
        a, b = ex.ty(f["to"]), ex.ty(t["to"])
        if b["k"] == "str" and isinstance(x, Slice):
            return S(x)
        if b["k"] == "slice" and type(x) in (bytes, tuple):
            return Slice(x, 0, len(x))
        return x
    if tf == tt:
        return x
    if f["k"] == "adt" and t["k"] == "adt" and f["path"] == t["path"]:
        return x
    if f["k"] == "array" and t["k"] == "array":
        e, g = ex.ty(f["to"] if "to" in f else f["elem"]), ex.ty(t["to"] if "to" in t else t["elem"])
        if e.get("path", "").endswith("MaybeUninit"):
            return [TRANSMUTE(y, f["to"] if "to" in f else f["elem"], t["to"] if "to" in t else t["elem"]) for y in x]
    # newtype wrapping / unwrapping of pointers
    if f["k"] in ("ref", "ptr") and t["k"] == "adt" and t["path"] == "core::ptr::non_null::NonNull":
        return [x]
    if f["k"] == "adt" and t["k"] in ("ref", "ptr"):
        while type(x) is list and len(x) >= 1:
            x = x[0]
        return x
    if f["k"] == "adt" and f["adt"] == "union" and type(x) is list and len(x) == 1:
        y = x[0]
        if type(y) is list and len(y) == 1 and "ManuallyDrop" in f["str"]:
            pass
        return y[0] if type(y) is list and len(y) == 1 and f["path"].endswith("MaybeUninit") else y
    raise Unsupported("transmute %s -> %s" % (f["str"], t["str"]))


EXH = [None]


def VCALL(ex, pa, *args):
    path, cargs = pa
    recv = args[0]
    if type(recv) is list and len(recv) == 2 and type(recv[0]) is list:
        recv = recv[0][0][0]
    if not isinstance(recv, DynRef):
        raise Unsupported("virtual call %s on %r" % (path, type(recv)))
    trait, name = path.rsplit("::", 1)
    f = ex.method(trait, name, [recv.ty] + [a for a in cargs[1:]])
    return f(recv.r, *args[1:])


for _n in ("UNSUP", "META", "SUBSL", "RAWPTR", "OFFSET", "CMP3", "FBIN", "I2F", "F2I", "F2F", "UNSIZE", "PTRCAST", "TRANSMUTE", "VCALL"):
    setattr(core, _n, globals()[_n])


# ---------------------------------------------------------------- panics
def _panic_factory(ex, inf):
    p = inf["path"]

    def f(*a):
        msg = ""
        for x in a:
            if type(x) is bytes:
                msg += " " + x.decode("utf-8", "replace")
            elif isinstance(x, FmtArgs):
                try:
                    msg += " " + S2py(fmt(ex, x))
                except Unsupported:
                    pass
        raise RustPanic((p.split("::")[-1] + msg)[:300])
    return f


def S2py(s):
    return bytes(x if type(x) is int else 63 for x in s).decode("utf-8", "replace")


PANIC_PREFIX = ("core::panicking::", "std::panicking::", "core::option::unwrap_failed", "core::option::expect_failed",
                "core::result::unwrap_failed", "core::str::slice_error_fail", "std::rt::begin_panic", "core::cell::panic_already",
                "core::slice::index::slice_", "alloc::raw_vec::handle_error", "alloc::alloc::handle_alloc_error",
                "core::slice::copy_from_slice", "core::cell::do_panic", "core::char::convert::from_u32_unchecked::precondition", "std::process::abort", "core::intrinsics::abort")


# ---------------------------------------------------------------- formatting
class FmtArgs(Opaque):
    __slots__ = ("t", "a")

    def __init__(self, t, a):
        self.tag = "fmt"
        self.d = None
        self.t = t
        self.a = a


class FmtArg(Opaque):
    __slots__ = ("kind", "ref", "ty")

    def __init__(self, kind, ref, ty):
        self.tag = "fmtarg"
        self.d = None
        self.kind = kind
        self.ref = ref
        self.ty = ty


class Formatter(Opaque):
    __slots__ = ("out", "spec")

    def __init__(self, spec=None):
        self.tag = "formatter"
        self.d = None
        self.out = VecObj(bytearray())
        self.spec = spec


for _k in ("display", "debug", "lower_hex", "upper_hex", "octal", "binary", "lower_exp", "upper_exp"):
    def _mk(kind):
        def fac(ex, inf):
            ty = next(a for a in inf["args"] if isinstance(a, int))
            return lambda r: FmtArg(kind, r, ty)
        return fac
    M["core::fmt::rt::Argument::new_" + _k] = _mk(_k)
M["core::fmt::rt::Argument::from_usize"] = lambda ex, inf: (lambda r: FmtArg("usize", r, None))


@m("core::fmt::Arguments::new", "core::fmt::rt::<impl core::fmt::Arguments>::new")
def _(t, a):
    return FmtArgs(get(t) if isinstance(t, Ref) else t, get(a) if isinstance(a, Ref) else seq(a))


@m("core::fmt::Arguments::from_str", "core::fmt::rt::<impl core::fmt::Arguments>::from_str", "core::fmt::Arguments::from_str_nonconst")
def _(s):
    return FmtArgs(None, s)


def fmt(ex, fa):
    if fa.t is None:
        return fa.a
    t = bytes(fa.t) if not isinstance(fa.t, Slice) else S(fa.t)
    i = 0
    ai = 0
    out = []
    while True:
        n = t[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(t[i:i + n])
            i += n
        elif n == 0x80:
            ln = t[i] | t[i + 1] << 8
            out.append(t[i + 2:i + 2 + ln])
            i += 2 + ln
        elif n == 0xc0:
            out.append(fmt1(ex, fa.a[ai], None))
            ai += 1
        else:
            fl, wd, pr = 0x20 | 3 << 29, None, None
            if n & 1:
                fl = int.from_bytes(t[i:i + 4], "little")
                i += 4
            if n & 2:
                wd = t[i] | t[i + 1] << 8
                i += 2
            if n & 4:
                pr = t[i] | t[i + 1] << 8
                i += 2
            if n & 8:
                ai = t[i] | t[i + 1] << 8
                i += 2
            if n & 16:
                wd = get(fa.a[wd].ref)
            if n & 32:
                pr = get(fa.a[pr].ref)
            if not fl >> 27 & 1:
                wd = None
            if not fl >> 28 & 1:
                pr = None
            out.append(fmt1(ex, fa.a[ai], (fl, wd, pr)))
            ai += 1
    return cat(*out) if out else b""


def fmt1(ex, a, spec):
    s = disp(ex, a.kind, a.ref, a.ty, spec)
    return s


def pad(s, spec, num=False):
    if spec is None:
        return s
    fl, wd, pr = spec
    if wd is None:
        return s
    n = len(chars(s))
    if n >= wd:
        return s
    if fl >> 24 & 1 and num:
        if len(s) and type(s[0]) is int and s[0] in b"+-":
            return cat(s[:1], b"0" * (wd - n), mks(s[1:]))
        return cat(b"0" * (wd - n), s)
    fill = chr(fl & 0x1fffff).encode()
    al = fl >> 29 & 3
    if al == 3:
        al = 1 if num else 0
    k = wd - n
    if al == 0:
        return cat(s, fill * k)
    if al == 1:
        return cat(fill * k, s)
    return cat(fill * (k // 2), s, fill * (k - k // 2))


def disp(ex, kind, ref, ty, spec):
    t = ex.ty(ty)
    k = t["k"]
    if kind in ("lower_hex", "upper_hex", "binary", "octal") and k in ("ref", "ptr"):
        return disp(ex, kind, get(ref), t["to"], spec)
    if kind in ("lower_hex", "upper_hex", "binary", "octal"):
        v = EN.conc(get(ref))
        w, sg = ex.intinfo(ty)
        v &= (1 << w) - 1
        s = {"lower_hex": "%x" % v, "upper_hex": "%X" % v, "octal": "%o" % v, "binary": bin(v)[2:]}[kind].encode()
        if spec and spec[0] >> 23 & 1:
            s = {"lower_hex": b"0x", "upper_hex": b"0x", "octal": b"0o", "binary": b"0b"}[kind] + s
        return pad(s, spec, True)
    if k in ("ref", "ptr"):
        return disp(ex, kind, get(ref), t["to"], spec)
    if kind == "debug":
        if k in ("uint", "int"):
            return pad(dec(get(ref), k == "int"), spec, True)
        r = debug(ex, ref if k == "slice" else get(ref) if isinstance(ref, Ref) else ref, ty, spec)
        return b"<debug>" if r is None else r
    if k == "str":
        s = S(ref)
        if spec and spec[2] is not None:
            cs = chars(s)
            if len(cs) > spec[2]:
                s = mks(s[:cs[spec[2]][0]])
        return pad(s, spec)
    v = get(ref) if isinstance(ref, Ref) else ref
    if k in ("uint", "int"):
        s = dec(v, k == "int")
        if spec and spec[0] >> 21 & 1 and not (len(s) and s[0] == 45):
            s = cat(b"+", s)
        return pad(s, spec, True)
    if k == "bool":
        return pad(b"true" if EN.br(v) else b"false", spec)
    if k == "char":
        return pad(mks(enc_char(v)), spec)
    if k == "float":
        if kind != "display":
            raise Unsupported("exponent form of a float")
        if spec and spec[2] is not None:
            return pad(("%.*f" % (spec[2], v)).encode(), spec, True)
        return pad(fmt_float(v, t["bits"]), spec, True)
    if k == "adt":
        p = t["path"]
        if p == "chrono::format::formatting::DelayedFormat":
            return disp_str(v.d, spec)
        if p == "alloc::string::String":
            return disp_str(S(v), spec)
        if p == "alloc::borrow::Cow":
            return disp_str(S(v[1]), spec)
        if p == "core::fmt::Arguments":
            return fmt(ex, v)
        if p in ("alloc::boxed::Box",):
            return disp(ex, kind, v[0][0][0], t["args"][0], spec)
        if p == "alloc::rcs::rc::Rc":
            return disp(ex, kind, Ref(v.slot, 0), t["args"][0], spec)
        if t.get("crate") in LOCAL:
            f = Formatter(spec)
            g = ex.method("core::fmt::Display" if kind == "display" else "core::fmt::Debug", "fmt", [ty])
            r = g(ref, Ref([f], 0))
            if r[0] != 0:
                raise RustPanic("a Display implementation returned an error")
            return S(f.out)
        return b"<" + p.split("::")[-1].encode() + b">"
    if k == "dyn":
        return b"<Error>" if isinstance(deref_all(v), ErrObj) else b"<dyn>"
    raise Unsupported("format %s" % t["str"])


def disp_str(s, spec):
    if spec and spec[2] is not None:
        cs = chars(s)
        if len(cs) > spec[2]:
            s = mks(s[:cs[spec[2]][0]])
    return pad(s, spec)


def _fmt_format(ex, inf):
    return lambda a: newstr(fmt(ex, a))


M["alloc::fmt::format"] = _fmt_format
M["alloc::fmt::format::format_inner"] = _fmt_format
M["std::fmt::format"] = _fmt_format


@mf("core::fmt::Formatter::write_fmt", "<core::fmt::Formatter<'_> as core::fmt::Write>::write_fmt")
def _(ex, inf):
    def f(fr, a):
        vpush(get(fr).out, fmt(ex, a))
        return ok(UNIT)
    return f


@m("core::fmt::Formatter::write_str", "<core::fmt::Formatter<'_> as core::fmt::Write>::write_str")
def _(fr, s):
    vpush(get(fr).out, s)
    return ok(UNIT)


@m("core::fmt::Formatter::pad")
def _(fr, s):
    vpush(get(fr).out, disp_str(s, get(fr).spec))
    return ok(UNIT)


@m("<core::fmt::Formatter<'_> as core::fmt::Write>::write_char", "core::fmt::Formatter::write_char")
def _(fr, c):
    vpush(get(fr).out, mks(enc_char(c)))
    return ok(UNIT)


@cm("core::fmt::Display::fmt", "core::fmt::Debug::fmt")
def _(ex, inf, a):
    tp = inf.get("titem") or ""
    ty = a[0] if a else None
    if ty is None:
        return None
    kind = "display" if "Display" in tp else "debug"

    def f(r, fr):
        o = get(fr)
        vpush(o.out, disp(ex, kind, r, ty, o.spec))
        return ok(UNIT)
    return f


for _n in ("debug_struct_field1_finish", "debug_struct_field2_finish", "debug_struct_field3_finish", "debug_struct_field4_finish", "debug_struct_field5_finish", "debug_struct_fields_finish", "debug_tuple_field1_finish", "debug_tuple_field2_finish", "debug_tuple_fields_finish"):
    def _dbg(fr, *a):
        vpush(get(fr).out, b"<debug>")
        return ok(UNIT)
    M["core::fmt::Formatter::" + _n] = (lambda ex, inf, g=_dbg: g)


@mf("core::fmt::write")
def _(ex, inf):
    def f(w, a):
        s = fmt(ex, a)
        if isinstance(w, DynRef):
            g = ex.method("core::fmt::Write", "write_str", [w.ty])
            return g(w.r, s)
        raise Unsupported("fmt::write")
    return f


@cm("core::fmt::Write::write_fmt")
def _(ex, inf, a):
    h = ex.head(a[0])
    if h == "alloc::string::String":
        def f(r, fa):
            vpush(get(r), fmt(ex, fa))
            return ok(UNIT)
        return f
    if h == "core::fmt::Formatter":
        def f(r, fa):
            vpush(get(r).out, fmt(ex, fa))
            return ok(UNIT)
        return f
    if ex.ty(a[0])["k"] == "ref":
        inner = ex.ty(a[0])["to"]
        g = ex.method("core::fmt::Write", "write_fmt", [inner])
        return lambda r, fa: g(get(r), fa)
    w = ex.method("core::fmt::Write", "write_str", [a[0]])
    return lambda r, fa: w(r, fmt(ex, fa))


@cm("core::fmt::Write::write_str")
def _(ex, inf, a):
    if ex.head(a[0]) == "alloc::string::String":
        def f(r, s):
            vpush(get(r), s)
            return ok(UNIT)
        return f


@cm("core::fmt::Write::write_char")
def _(ex, inf, a):
    if ex.head(a[0]) == "alloc::string::String":
        def f(r, c):
            vpush(get(r), mks(enc_char(c)))
            return ok(UNIT)
        return f


@cm("alloc::string::ToString::to_string")
def _(ex, inf, a):
    ty = a[0]
    if ex.head(ty) == "str":
        return lambda r: newstr(r)
    return lambda r: newstr(disp(ex, "display", r, ty, None))


M["std::io::stdio::_print"] = lambda ex, inf: (lambda a: UNIT)
M["std::io::stdio::_eprint"] = lambda ex, inf: (lambda a: UNIT)

# ---------------------------------------------------------------- clone / eq / ord / hash / default of library types
LIBT = ("core", "alloc", "std", "hashbrown", "anyhow", "chrono", "quick_xml", "zip", "flate2", "phf", "phf_shared", "indexmap")


def custom(ex, t, trait, name, seen=()):
    """does a value of the type contain a repository type whose implementation of the trait is written by hand?"""
    k = ("custom", t, trait)
    if k in ex.consts:
        return ex.consts[k]
    if t in seen:
        return False
    s = seen + (t,)
    i = ex.ty(t)
    r = False
    if i["k"] == "adt":
        if i.get("crate") in LOCAL:
            n = ex.srv.method(trait, name, [t] if trait.endswith("Clone") else [t, t])
            if n is not None:
                r = not ex.srv.inst(n).get("derived")
            if not r:
                r = any(custom(ex, f[1], trait, name, s) for v in i["variants"] for f in v["fields"])
        elif not (trait.endswith("Clone") and i["path"] in ("alloc::rcs::rc::Rc", "alloc::rcs::rc::Weak")):
            r = any(custom(ex, x, trait, name, s) for x in i["args"] if isinstance(x, int))
    elif i["k"] == "tuple":
        r = any(custom(ex, x, trait, name, s) for x in i["elems"])
    elif i["k"] in ("array", "slice") or (i["k"] == "ref" and not trait.endswith("Clone")):
        r = custom(ex, i["to"], trait, name, s)
    if not seen:
        ex.consts[k] = r
    return r


def clone_fn(ex, t):
    """python function value -> clone, for types with hand written Clone inside"""
    i = ex.ty(t)
    if not custom(ex, t, "core::clone::Clone", "clone"):
        if has_rc(ex, t):
            g = rc_clone(ex, t)
            return lambda v: g(Ref([v], 0))
        return clone_val
    if i["k"] == "adt" and i.get("crate") in LOCAL:
        g = ex.method("core::clone::Clone", "clone", [t])
        return lambda v: g(Ref([v], 0))
    h = ex.head(t)
    if h == "alloc::vec::Vec" or i["k"] == "array":
        c = clone_fn(ex, i["args"][0] if h == "alloc::vec::Vec" else i["to"])
        return lambda v: VecObj([c(x) for x in v.l]) if isinstance(v, VecObj) else [c(x) for x in v]
    if h == "core::option::Option":
        c = clone_fn(ex, i["args"][0])
        return lambda v: [1, c(v[1])] if v[0] == 1 else [0]
    if h == "tuple":
        cs = [clone_fn(ex, x) for x in i["elems"]]
        return lambda v: [c(x) for c, x in zip(cs, v)]
    if h in ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap"):
        kc, vc = clone_fn(ex, i["args"][0]), clone_fn(ex, i["args"][1])

        def f(v):
            mm = MapObj(v.sort)
            mm.n, mm.nsym = v.n, v.nsym
            mm.d = {k: [kc(e[0]), vc(e[1])] for k, e in v.d.items()}
            return mm
        return f
    raise Unsupported("clone of " + i["str"])


def eq_fn(ex, t):
    """python function (value, value) -> equal, for types with hand written PartialEq inside"""
    i = ex.ty(t)
    if not custom(ex, t, "core::cmp::PartialEq", "eq"):
        return eq_val
    if i["k"] == "adt" and i.get("crate") in LOCAL:
        g = ex.method("core::cmp::PartialEq", "eq", [t, t])
        return lambda a, b: g(Ref([deref_all(a)], 0), Ref([deref_all(b)], 0))
    h = ex.head(t)
    if i["k"] == "ref":
        e = eq_fn(ex, i["to"])
        return lambda a, b: e(deref_all(a), deref_all(b))
    if h == "alloc::vec::Vec" or i["k"] in ("array", "slice"):
        e = eq_fn(ex, i["args"][0] if h == "alloc::vec::Vec" else i["to"])

        def f(a, b):
            x, y = seq(deref_all(a)), seq(deref_all(b))
            if len(x) != len(y):
                return False
            r = True
            for p, q in zip(x, y):
                r = b_and(r, e(p, q))
                if r is False:
                    return False
            return r
        return f
    if h == "core::option::Option":
        e = eq_fn(ex, i["args"][0])

        def f(a, b):
            a, b = deref_all(a), deref_all(b)
            if a[0] != b[0]:
                return False
            return True if a[0] == 0 else e(a[1], b[1])
        return f
    if h == "tuple":
        es = [eq_fn(ex, x) for x in i["elems"]]

        def f(a, b):
            a, b = deref_all(a), deref_all(b)
            r = True
            for e, p, q in zip(es, a, b):
                r = b_and(r, e(p, q))
            return r
        return f
    raise Unsupported("equality of " + i["str"])


@cm("core::clone::Clone::clone")
def _(ex, inf, a):
    h = ex.head(a[0]) if a else ""
    if h == "alloc::rcs::rc::Rc":
        def f(r):
            o = get(r)
            o.strong += 1
            return o
        return f
    if a and ex.ty(a[0]).get("crate") not in LOCAL and ex.ty(a[0])["k"] in ("adt", "tuple", "array") and custom(ex, a[0], "core::clone::Clone", "clone"):
        g = clone_fn(ex, a[0])
        return lambda r: g(get(r))
    if h in ("core::option::Option", "alloc::vec::Vec", "std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap", "alloc::boxed::Box", "tuple"):
        t = a[0]
        if has_rc(ex, t):
            return rc_clone(ex, t)
        return lambda r: clone_val(get(r))
    if h == "closure":
        return lambda r: clone_val(get(r))
    t = ex.ty(a[0])
    if t["k"] == "adt" and t.get("crate") in LIBT and not h.startswith("core::iter::adapters"):
        return lambda r: clone_val(get(r))
    if t["k"] in ("int", "uint", "bool", "char", "float", "ref", "ptr", "fnptr", "fndef", "array", "never"):
        return lambda r: clone_val(get(r)) if isinstance(r, Ref) else r
    if t["k"] == "adt" and t.get("crate") in LIBT:
        return lambda r: clone_val(get(r))
    return None


def has_rc(ex, t, seen=()):
    k = ("has_rc", t)
    if k in ex.consts:
        return ex.consts[k]
    if t in seen:
        return False
    s = seen + (t,)
    i = ex.ty(t)
    r = False
    if i["k"] == "adt":
        if i["path"] in ("alloc::rcs::rc::Rc", "alloc::rcs::rc::Weak"):
            r = True
        else:
            r = any(has_rc(ex, x, s) for x in i["args"] if isinstance(x, int))
            if not r and i.get("crate") in LOCAL:
                r = any(has_rc(ex, f[1], s) for v in i["variants"] for f in v["fields"])
    elif i["k"] == "tuple":
        r = any(has_rc(ex, x, s) for x in i["elems"])
    elif i["k"] == "array":
        r = has_rc(ex, i["to"], s)
    ex.consts[k] = r
    return r


def rc_clone(ex, t):
    def cl(v):
        if isinstance(v, RcObj):
            v.strong += 1
            return v
        if isinstance(v, WeakObj):
            return v.dup()
        if type(v) is list:
            return [cl(x) for x in v]
        if isinstance(v, VecObj):
            return VecObj([cl(x) for x in v.l]) if type(v.l) is list else v.dup()
        if isinstance(v, MapObj):
            mm = MapObj(v.sort)
            mm.n, mm.nsym = v.n, v.nsym
            mm.d = {k: [cl(e[0]), cl(e[1])] for k, e in v.d.items()}
            return mm
        return clone_val(v)
    return lambda r: cl(get(r))


@cm("core::clone::Clone::clone_from")
def _(ex, inf, a):
    g = ex.method("core::clone::Clone", "clone", [a[0]])

    def f(d, s):
        put(d, g(s))
        return UNIT
    return f


def val_of(r):
    return get(r) if isinstance(r, Ref) else r


def local_inside(ex, t, seen=()):
    """does the type contain a repository type with its own (hand written or derived) impls?"""
    return False


@cm("core::cmp::PartialEq::eq")
def _(ex, inf, a):
    if a and (ex.ty(a[0]).get("crate") not in LOCAL or ex.ty(a[0])["k"] != "adt") and custom(ex, a[0], "core::cmp::PartialEq", "eq"):
        g = eq_fn(ex, a[0])
        return lambda x, y: g(val_of(x), val_of(y))
    return lambda x, y: eq_val(val_of(x), val_of(y))


@cm("core::cmp::PartialEq::ne")
def _(ex, inf, a):
    if a and ex.ty(a[0])["k"] == "adt" and ex.ty(a[0]).get("crate") in LOCAL:
        g = ex.method("core::cmp::PartialEq", "eq", a)
        return lambda x, y: b_not(g(x, y))
    if a and custom(ex, a[0], "core::cmp::PartialEq", "eq"):
        g = eq_fn(ex, a[0])
        return lambda x, y: b_not(g(val_of(x), val_of(y)))
    return lambda x, y: b_not(eq_val(val_of(x), val_of(y)))


def fl(x):
    return isinstance(deref_all(x), float)


@cm("core::cmp::Ord::cmp")
def _(ex, inf, a):
    return lambda x, y: [cmp_val(val_of(x), val_of(y)) + 1]


@cm("core::cmp::PartialOrd::partial_cmp")
def _(ex, inf, a):
    if a and ex.ty(a[0])["k"] == "adt" and ex.ty(a[0]).get("crate") in LOCAL:
        return None

    def f(x, y):
        x, y = val_of(x), val_of(y)
        if fl(x) and (deref_all(x) != deref_all(x) or deref_all(y) != deref_all(y)):
            return none()
        return some([cmp_val(x, y) + 1])
    return f


for _n, _p in (("lt", lambda c: c < 0), ("le", lambda c: c <= 0), ("gt", lambda c: c > 0), ("ge", lambda c: c >= 0)):
    def _mk(p, n):
        def fac(ex, inf, a):
            if a and ex.ty(a[0])["k"] == "adt" and ex.ty(a[0]).get("crate") in LOCAL:
                return None
            ii = ex.intinfo(a[0]) if a else None

            def f(x, y):
                x, y = deref_all(x), deref_all(y)
                if isinstance(x, SV) or isinstance(y, SV):
                    w = x.w if isinstance(x, SV) else y.w
                    return scmp(n.capitalize(), x, y, w, bool(ii and ii[1]))
                return p(cmp_val(x, y))
            return f
        return fac
    CM["core::cmp::PartialOrd::" + _n] = _mk(_p, _n)


def ordm(ex, ty, x, y):
    ii = ex.intinfo(ty)
    if ii and ex.ty(ty)["k"] != "bool":
        return cmp3(x, y, ii[0], ii[1])
    if ex.ty(ty)["k"] == "adt" and ex.ty(ty).get("crate") in LOCAL:
        g = ex.method("core::cmp::Ord", "cmp", [ty])
        return g(Ref([x], 0), Ref([y], 0))[0] - 1
    return cmp_val(x, y)


def _minmax(which):
    def fac(ex, inf, *rest):
        ty = inf["args"][0] if not rest else rest[0][0]

        def f(x, y):
            c = ordm(ex, ty, x, y)
            if which == "max":
                return x if c > 0 else y
            return x if c <= 0 else y
        return f
    return fac


M["core::cmp::max"] = _minmax("max")
M["core::cmp::min"] = _minmax("min")
CM["core::cmp::Ord::max"] = _minmax("max")
CM["core::cmp::Ord::min"] = _minmax("min")


@cm("core::cmp::Ord::clamp")
def _(ex, inf, a):
    ty = a[0]

    def f(x, lo, hi):
        if ordm(ex, ty, x, lo) < 0:
            return lo
        if ordm(ex, ty, x, hi) > 0:
            return hi
        return x
    return f


@cm("core::hash::Hash::hash")
def _(ex, inf, a):
    def f(r, h):
        hasher(h).l.append(val_of(r))
        return UNIT
    return f


class HasherObj:
    def __init__(self):
        self.l = []

    def dup(self):
        h = HasherObj()
        h.l = list(self.l)
        return h


def hasher(h):
    h = get(h)
    while isinstance(h, Ref):
        h = get(h)
    return h


@m("std::hash::random::DefaultHasher::new", "<std::hash::random::DefaultHasher as core::default::Default>::default", "std::hash::random::RandomState::new")
def _():
    return HasherObj()


@m("<std::hash::random::DefaultHasher as core::hash::Hasher>::write", "<std::hash::random::DefaultHasher as core::hash::Hasher>::write_str")
def _(h, s):
    hasher(h).l.append(s)
    return UNIT


HASHES = []


@m("<std::hash::random::DefaultHasher as core::hash::Hasher>::finish")
def _(h):
    l = [clone_val(deref_all(x)) for x in hasher(h).l]
    for i, o in enumerate(HASHES):
        if len(o) == len(l):
            r = True
            for x, y in zip(o, l):
                try:
                    r = b_and(r, eq_val(x, y))
                except Unsupported:
                    r = False
                if r is False:
                    break
            if EN.br(r):
                return (0x9E3779B97F4A7C15 * (i + 1)) & ((1 << 64) - 1)
    HASHES.append(l)
    return (0x9E3779B97F4A7C15 * len(HASHES)) & ((1 << 64) - 1)


for _n in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128"):
    CM["core::hash::Hasher::write_" + _n] = lambda ex, inf, a: (lambda h, v: (hasher(h).l.append(v), UNIT)[1])
CM["core::hash::Hasher::write_length_prefix"] = lambda ex, inf, a: (lambda h, v: (hasher(h).l.append(v), UNIT)[1])


@cm("core::default::Default::default")
def _(ex, inf, a):
    t = a[0]
    h = ex.head(t)
    i = ex.ty(t)
    if h == "alloc::string::String":
        return lambda: VecObj(bytearray())
    if h == "alloc::vec::Vec":
        return _vec_new(ex, {"args": i["args"]})
    if h in ("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet"):
        return lambda: MapObj()
    if h in ("alloc::collections::btree::map::BTreeMap", "alloc::collections::btree::set::BTreeSet"):
        return lambda: MapObj(True)
    if h == "alloc::collections::vec_deque::VecDeque":
        return lambda: VecObj([])
    if h == "core::option::Option":
        return lambda: [0]
    if i["k"] in ("int", "uint", "char"):
        return lambda: 0
    if i["k"] == "bool":
        return lambda: False
    if i["k"] == "float":
        return lambda: 0.0
    if h == "str" or (i["k"] == "ref" and ex.ty(i["to"])["k"] == "str"):
        return lambda: b""
    if h.startswith("zip::write::FileOptions"):
        return lambda: Opaque("zipopts")
    return None


# ---------------------------------------------------------------- Option / Result fast paths
@mf("<core::result::Result<T, E> as core::ops::try_trait::Try>::branch")
def _(ex, inf):
    def f(r):
        if r[0] == 0:
            return [0, r[1]]
        return [1, r]
    return f


@mf("<core::option::Option<T> as core::ops::try_trait::Try>::branch")
def _(ex, inf):
    return lambda r: [0, r[1]] if r[0] == 1 else [1, [0]]


class ErrObj(Opaque):
    def __init__(self, msg=None):
        self.tag = "anyhow"
        self.d = msg


@m("anyhow::__private::must_use", "core::hint::must_use", "core::hint::black_box", "core::convert::identity")
def _(x):
    return x


@m("anyhow::__private::format_err", "anyhow::error::<impl anyhow::Error>::msg", "anyhow::error::<impl core::convert::From<E> for anyhow::Error>::from",
   "anyhow::error::<impl anyhow::Error>::new", "anyhow::error::<impl anyhow::Error>::context")
def _(*a):
    return ErrObj(a)


@cm("core::convert::From::from")
def _(ex, inf, a):
    h = ex.head(a[0])
    if h == "anyhow::Error":
        return lambda e: ErrObj(e)
    if h == "alloc::string::String":
        src = ex.head(a[1])
        if src == "char":
            return lambda c: newstr(mks(enc_char(c)))
        return lambda s: newstr(S(s)) if not isinstance(s, VecObj) else s
    if h == "alloc::vec::Vec":
        return lambda s: VecObj(list(clone_val(x) for x in seq(s))) if not isinstance(s, VecObj) else s
    if ex.ty(a[0])["k"] in ("int", "uint") or h in ("char",):
        i1 = ex.intinfo(a[1])
        i0 = ex.intinfo(a[0])
        if i0 and i1:
            return lambda v: scast(v, i1[0], i1[1], i0[0], i0[1])
    if ex.ty(a[0])["k"] == "float":
        t1 = ex.ty(a[1])
        b = ex.ty(a[0])["bits"]
        if t1["k"] == "float":
            return lambda v: F2F(v, t1["bits"], b)
        return lambda v: I2F(v, b)
    if h in ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap"):
        def f(arr):
            mm = MapObj(h.startswith("alloc"))
            for k, v in seq(arr):
                mm.insert(k, v)
            return mm
        return f
    if h in ("std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet"):
        def f(arr):
            mm = MapObj(h.startswith("alloc"))
            for k in seq(arr):
                mm.insert(k, UNIT)
            return mm
        return f
    if h == "alloc::borrow::Cow":
        s = ex.ty(a[1])
        return (lambda v: [0, v]) if s["k"] == "ref" else (lambda v: [1, v])
    if h == "alloc::boxed::Box":
        return None
    return None


@cm("core::convert::TryFrom::try_from")
def _(ex, inf, a):
    i0, i1 = ex.intinfo(a[0]), ex.intinfo(a[1])
    if i0 and i1:
        if ex.ty(a[0])["k"] == "char":
            def f(v):
                v = EN.conc(v)
                return ok(v) if v < 0xd800 or 0xe000 <= v < 0x110000 else err(Opaque("CharTryFromError"))
            return f
        lo = -(1 << (i0[0] - 1)) if i0[1] else 0
        hi = (1 << (i0[0] - (1 if i0[1] else 0))) - 1

        def f(v):
            if isinstance(v, int):
                return ok(v) if lo <= v <= hi else err(Opaque("TryFromIntError"))
            w, s = i1
            if hi < (1 << (w - (1 if s else 0))) - 1 and EN.br(scmp("Gt", v, hi, w, s)):
                return err(Opaque("TryFromIntError"))
            if s and EN.br(scmp("Lt", v, max(lo, -(1 << (w - 1))), w, s)):
                return err(Opaque("TryFromIntError"))
            return ok(scast(v, w, s, i0[0], i0[1]))
        return f
    return None


@m("anyhow::Ok")
def _(x):
    return [0, x]


@mf("anyhow::context::<impl anyhow::Context<T, E> for core::result::Result<T, E>>::context",
    "anyhow::context::<impl anyhow::Context<T, E> for core::result::Result<T, E>>::with_context")
def _(ex, inf):
    def f(r, c):
        if r[0] == 0:
            return r
        return [1, ErrObj(c)]
    return f


@mf("anyhow::context::<impl anyhow::Context<T, !> for core::option::Option<T>>::context",
    "anyhow::context::<impl anyhow::Context<T, core::convert::Infallible> for core::option::Option<T>>::context",
    "anyhow::context::<impl anyhow::Context<T, !> for core::option::Option<T>>::with_context",
    "anyhow::context::<impl anyhow::Context<T, core::convert::Infallible> for core::option::Option<T>>::with_context")
def _(ex, inf):
    def f(r, c):
        if r[0] == 1:
            return [0, r[1]]
        return [1, ErrObj(c)]
    return f


# ---------------------------------------------------------------- Rc / RefCell / Cell / Box / mem
class RcObj:
    __slots__ = ("slot", "strong", "weak")

    def __init__(self, v):
        self.slot = [v]
        self.strong = 1
        self.weak = 0


class WeakObj:
    __slots__ = ("rc",)

    def __init__(self, rc):
        self.rc = rc
        if rc is not None:
            rc.weak += 1

    def dup(self):
        return WeakObj(self.rc)


class CellObj:
    __slots__ = ("slot", "b")

    def __init__(self, v):
        self.slot = [v]
        self.b = 0

    def dup(self):
        return CellObj(clone_val(self.slot[0]))

    def drop_items(self, ex, t):
        ex.drop_val(self.slot[0], t["args"][0])


class Guard:
    __slots__ = ("cell", "mut", "live", "ref")

    def __init__(self, cell, mut):
        self.cell = cell
        self.mut = mut
        self.live = True
        self.ref = Ref(cell.slot, 0)


def drop_rc(ex, v, t):
    if not isinstance(v, RcObj):
        return
    v.strong -= 1
    if v.strong == 0:
        ex.drop_val(v.slot[0], t["args"][0])
        v.slot[0] = None


def drop_weak(ex, v, t):
    if isinstance(v, WeakObj) and v.rc is not None:
        v.rc.weak -= 1


def drop_guard(ex, v, t):
    if v.live:
        v.live = False
        v.cell.b -= -1 if v.mut else 1


Ex.drops = {"alloc::rcs::rc::Rc": drop_rc, "alloc::rcs::rc::Weak": drop_weak, "core::cell::Ref": drop_guard, "core::cell::RefMut": drop_guard}


@m("alloc::rcs::rc::Rc::new")
def _(v):
    return RcObj(v)


@m("alloc::rcs::rc::Rc::downgrade")
def _(r):
    return WeakObj(get(r))


@m("alloc::rcs::rc::Weak::upgrade")
def _(r):
    w = get(r)
    if w.rc is None or w.rc.strong == 0:
        return none()
    w.rc.strong += 1
    return some(w.rc)


@m("alloc::rcs::rc::Weak::new")
def _():
    return WeakObj(None)


@m("alloc::rcs::rc::Rc::strong_count")
def _(r):
    return get(r).strong


@m("alloc::rcs::rc::Rc::weak_count")
def _(r):
    return get(r).weak


@m("alloc::rcs::rc::Rc::ptr_eq")
def _(a, b):
    return get(a) is get(b)


@m("<alloc::rcs::rc::Rc<T, A> as core::ops::deref::Deref>::deref", "<alloc::rcs::rc::Rc<T, A> as core::convert::AsRef<T>>::as_ref", "<alloc::rcs::rc::Rc<T, A> as core::borrow::Borrow<T>>::borrow")
def _(r):
    return Ref(get(r).slot, 0)


@m("alloc::rcs::rc::Rc::try_unwrap")
def _(r):
    if r.strong == 1:
        r.strong = 0
        v = r.slot[0]
        return ok(v)
    return err(r)


@m("alloc::rcs::rc::Rc::into_inner")
def _(r):
    if r.strong == 1:
        r.strong = 0
        return some(r.slot[0])
    r.strong -= 1
    return none()


@m("alloc::rcs::rc::Rc::get_mut")
def _(r):
    r = get(r)
    return some(Ref(r.slot, 0)) if r.strong == 1 else none()


@m("core::cell::RefCell::new", "core::cell::Cell::new")
def _(v):
    return CellObj(v)


@m("core::cell::RefCell::into_inner", "core::cell::Cell::into_inner")
def _(c):
    return c.slot[0]


@m("core::cell::RefCell::get_mut")
def _(c):
    return Ref(get(c).slot, 0)


def _borrow(c, mut):
    c = get(c)
    if mut:
        if c.b != 0:
            return None
        c.b = -1
    else:
        if c.b < 0:
            return None
        c.b += 1
    return Guard(c, mut)


@m("core::cell::RefCell::borrow")
def _(c):
    g = _borrow(c, False)
    if g is None:
        raise RustPanic("already mutably borrowed")
    return g


@m("core::cell::RefCell::borrow_mut")
def _(c):
    g = _borrow(c, True)
    if g is None:
        raise RustPanic("already borrowed")
    return g


@m("core::cell::RefCell::try_borrow")
def _(c):
    g = _borrow(c, False)
    return ok(g) if g is not None else err(Opaque("BorrowError"))


@m("core::cell::RefCell::try_borrow_mut")
def _(c):
    g = _borrow(c, True)
    return ok(g) if g is not None else err(Opaque("BorrowMutError"))


@m("core::cell::RefCell::replace")
def _(c, v):
    g = _borrow(c, True)
    if g is None:
        raise RustPanic("already borrowed")
    get(c).b = 0
    o = get(c).slot[0]
    get(c).slot[0] = v
    return o


@m("<core::cell::Ref<'_, T> as core::ops::deref::Deref>::deref", "<core::cell::RefMut<'_, T> as core::ops::deref::Deref>::deref",
   "<core::cell::RefMut<'_, T> as core::ops::deref::DerefMut>::deref_mut")
def _(g):
    return get(g).ref


@mf("core::cell::Ref::map", "core::cell::RefMut::map")
def _(ex, inf):
    fty = inf["args"][-1]

    def f(g, fn):
        r = ex.call_fn(fty, fn, (g.ref,))
        g2 = Guard(g.cell, g.mut)
        g2.ref = r
        return g2
    return f


@m("core::cell::Cell::get")
def _(c):
    return CP(get(c).slot[0])


@m("core::cell::Cell::set")
def _(c, v):
    get(c).slot[0] = v
    return UNIT


@m("core::cell::Cell::replace")
def _(c, v):
    o = get(c).slot[0]
    get(c).slot[0] = v
    return o


@mf("core::cell::Cell::take", "core::cell::RefCell::take")
def _(ex, inf):
    d = ex.method("core::default::Default", "default", [inf["args"][0]])

    def f(c):
        o = get(c).slot[0]
        get(c).slot[0] = d()
        return o
    return f


def box(v):
    return [[[Ref([v], 0)], []], []]


def unbox(b):
    return get(b[0][0][0])


@m("alloc::boxed::Box::new", "alloc::boxed::box_new", "alloc::boxed::Box::pin")
def _(v):
    return box(v)


def mu_inner(ex, ty):
    """field type wrapped by a transparent MaybeUninit-like type, else None"""
    t = ex.ty(ty)
    if t["k"] != "adt":
        return None
    if t["adt"] == "union" and t["path"].endswith("MaybeUninit"):
        return next(f[1] for f in t["variants"][0]["fields"] if not (ex.ty(f[1])["k"] == "tuple"))
    if t["path"].split("::")[-1] in ("ManuallyDrop", "MaybeDangling"):
        return t["variants"][0]["fields"][0][1]
    return None


def mu_make(ex, ty):
    i = mu_inner(ex, ty)
    return None if i is None else [mu_make(ex, i)]


def mu_get(ex, v, ty):
    while True:
        i = mu_inner(ex, ty)
        if i is None:
            return v, ty
        v, ty = v[0], i


@m("alloc::boxed::Box::new_uninit")
def _():
    # MaybeUninit { value: ManuallyDrop { value } }
    return box([[None]])


@mf("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(ex, inf):
    u8 = ex.head(inf["args"][0]) == "u8"

    def f(b):
        v = unbox(b)
        # MaybeUninit { value: ManuallyDrop { value: [..] } } with as many levels as new_uninit made
        for _ in range(MUL[0]):
            v = v[0]
        return VecObj(bytearray(v)) if u8 and all(x.__class__ is int for x in v) else VecObj(v)
    return f


MUL = [2]


@m("alloc::boxed::Box::leak", "alloc::boxed::Box::into_raw")
def _(b):
    return b[0][0][0]


@m("<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref", "<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut",
   "<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref", "<alloc::boxed::Box<T, A> as core::convert::AsMut<T>>::as_mut")
def _(b):
    return get(b)[0][0][0]


@m("core::mem::replace")
def _(r, v):
    o = get(r)
    put(r, v)
    return o


@m("core::mem::swap")
def _(a, b):
    x = get(a)
    put(a, get(b))
    put(b, x)
    return UNIT


@mf("core::mem::take")
def _(ex, inf):
    d = ex.method("core::default::Default", "default", [inf["args"][0]])

    def f(r):
        o = get(r)
        put(r, d())
        return o
    return f


@mf("core::mem::drop")
def _(ex, inf):
    t = inf["args"][0]

    def f(v):
        ex.drop_val(v, t)
        return UNIT
    return f


@m("core::mem::forget")
def _(v):
    return UNIT


@m("core::ptr::read", "core::ptr::const_ptr::<impl *const T>::read", "core::ptr::mut_ptr::<impl *mut T>::read")
def _(r):
    return get(r)


@m("core::ptr::write", "core::ptr::mut_ptr::<impl *mut T>::write")
def _(r, v):
    put(r, v)
    return UNIT


@mf("core::ptr::drop_in_place", "core::ptr::drop_glue")
def _(ex, inf):
    t = inf["args"][0]
    return lambda r: ex.drop_ref(r, t)


@mf("core::any::type_name")
def _(ex, inf):
    n = ex.ty(inf["args"][0])["str"].encode()
    return lambda: n


# ---------------------------------------------------------------- intrinsics reached through interpreted library code
def intr(name):
    def d(f):
        M["intrinsic::" + name] = f
        return f
    return d


@intr("size_of")
def _(ex, inf):
    n = ex.ty(inf["args"][0]).get("size", 8)
    return lambda: n


@intr("align_of")
def _(ex, inf):
    n = ex.ty(inf["args"][0]).get("align", 8)
    return lambda: n


@intr("needs_drop")
def _(ex, inf):
    n = ex.needs_drop(inf["args"][0])
    return lambda: n


def _const(v):
    return lambda ex, inf: (lambda *a: v)


M["intrinsic::assume"] = _const(UNIT)
M["intrinsic::likely"] = lambda ex, inf: (lambda x: x)
M["intrinsic::unlikely"] = lambda ex, inf: (lambda x: x)
M["intrinsic::black_box"] = lambda ex, inf: (lambda x: x)
M["intrinsic::cold_path"] = _const(UNIT)
M["intrinsic::assert_inhabited"] = _const(UNIT)
M["intrinsic::assert_zero_valid"] = _const(UNIT)
M["intrinsic::assert_mem_uninitialized_valid"] = _const(UNIT)
M["intrinsic::is_val_statically_known"] = _const(False)
M["intrinsic::ub_checks"] = _const(False)
M["intrinsic::overflow_checks"] = _const(True)
M["intrinsic::contract_checks"] = _const(False)
M["intrinsic::type_id"] = lambda ex, inf: (lambda: inf["args"][0])
M["core::intrinsics::ub_checks"] = _const(False)


def _arith(op):
    def fac(ex, inf):
        ii = ex.intinfo(inf["args"][0])
        return lambda x, y: sbin(op, x, y, ii[0], ii[1])
    return fac


for _n, _op in (("wrapping_add", "Add"), ("wrapping_sub", "Sub"), ("wrapping_mul", "Mul"), ("unchecked_add", "Add"), ("unchecked_sub", "Sub"),
                ("unchecked_mul", "Mul"), ("unchecked_div", "Div"), ("unchecked_rem", "Rem"), ("unchecked_shl", "Shl"), ("unchecked_shr", "Shr"), ("exact_div", "Div")):
    M["intrinsic::" + _n] = _arith(_op)


def _ovfi(op):
    def fac(ex, inf):
        ii = ex.intinfo(inf["args"][0])
        return lambda x, y: CADD(op, x, y, ii[0], ii[1])
    return fac


for _n, _op in (("add_with_overflow", "Add"), ("sub_with_overflow", "Sub"), ("mul_with_overflow", "Mul")):
    M["intrinsic::" + _n] = _ovfi(_op)


@intr("three_way_compare")
def _(ex, inf):
    ii = ex.intinfo(inf["args"][0])
    return lambda x, y: [cmp3(x, y, ii[0], ii[1]) + 1]


@intr("discriminant_value")
def _(ex, inf):
    t = ex.ty(inf["args"][0])
    if t["k"] == "adt" and t["adt"] == "enum":
        ii = ex.intinfo(t["dty"])
        ds = [norm(int(v["discr"]), ii[0], ii[1]) for v in t["variants"]]
        return lambda r: ds[get(r)[0]]
    return lambda r: 0


@intr("transmute")
def _(ex, inf):
    a = inf["args"]
    return lambda v: TRANSMUTE(v, a[0], a[1])


M["intrinsic::read_via_copy"] = lambda ex, inf: (lambda r: get(r))
M["intrinsic::write_via_move"] = lambda ex, inf: (lambda r, v: (put(r, v), UNIT)[1])
M["intrinsic::abort"] = lambda ex, inf: (lambda: panic("abort"))


# ---------------------------------------------------------------- integers
INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
for _t in INTS:
    _w = 64 if "size" in _t else int(_t[1:])
    _s = _t[0] == 'i'
    _p = "core::num::<impl %s>::" % _t

    def _reg(w, s, p):
        U = lambda name, f: M.__setitem__(p + name, lambda ex, inf: f)
        for n, op in (("wrapping_add", "Add"), ("wrapping_sub", "Sub"), ("wrapping_mul", "Mul")):
            U(n, lambda x, y, op=op: sbin(op, x, y, w, s))
        for n, op in (("overflowing_add", "Add"), ("overflowing_sub", "Sub"), ("overflowing_mul", "Mul")):
            U(n, lambda x, y, op=op: CADD(op, x, y, w, s))

        def checked(op):
            def f(x, y):
                r = CADD(op, x, y, w, s)
                return none() if EN.br(r[1]) else some(r[0])
            return f
        for n, op in (("checked_add", "Add"), ("checked_sub", "Sub"), ("checked_mul", "Mul")):
            U(n, checked(op))

        def strict(op):
            def f(x, y):
                r = CADD(op, x, y, w, s)
                if EN.br(r[1]):
                    raise RustPanic("attempt to %s with overflow" % op.lower())
                return r[0]
            return f
        for n, op in (("strict_add", "Add"), ("strict_sub", "Sub"), ("strict_mul", "Mul")):
            U(n, strict(op))

        def cdiv(op):
            def f(x, y):
                if EN.br(scmp("Eq", y, 0, w, s)):
                    return none()
                return some(sbin(op, x, y, w, s))
            return f
        U("checked_div", cdiv("Div"))
        U("checked_rem", cdiv("Rem"))

        def sat(op):
            def f(x, y):
                r = CADD(op, x, y, w, s)
                if not EN.br(r[1]):
                    return r[0]
                if s:
                    if op == "Mul":
                        raise Unsupported("signed saturation")
                    up = EN.br(scmp("Ge", y, 0, w, True)) == (op == "Add")
                    return (1 << w - 1) - 1 if up else -(1 << w - 1)
                return 0 if op == "Sub" else (1 << w) - 1
            return f
        for n, op in (("saturating_add", "Add"), ("saturating_sub", "Sub"), ("saturating_mul", "Mul")):
            U(n, sat(op))

        def pw(x, n):
            n = EN.conc(n)
            r = 1
            for _ in range(n):
                q = CADD("Mul", r, x, w, s)
                if EN.br(q[1]):
                    raise RustPanic("attempt to multiply with overflow")
                r = q[0]
            return r
        U("pow", pw)

        def cpw(x, n):
            n = EN.conc(n)
            r = 1
            for _ in range(n):
                q = CADD("Mul", r, x, w, s)
                if EN.br(q[1]):
                    return none()
                r = q[0]
            return some(r)
        U("checked_pow", cpw)

        def diff(x, y):
            return sbin("Sub", x, y, w, s) if EN.br(scmp("Ge", x, y, w, s)) else sbin("Sub", y, x, w, s)
        U("abs_diff", diff)

        def dceil(x, y):
            if EN.br(scmp("Eq", y, 0, w, s)):
                raise RustPanic("attempt to divide by zero")
            q = sbin("Div", x, y, w, s)
            r = sbin("Rem", x, y, w, s)
            return sbin("Add", q, 1, w, s) if EN.br(scmp("Ne", r, 0, w, s)) else q
        U("div_ceil", dceil)
        U("is_multiple_of", lambda x, y: scmp("Eq", sbin("Rem", x, y, w, s), 0, w, s) if not (isinstance(y, int) and y == 0) else scmp("Eq", x, 0, w, s))

        def radix(st, r):
            r = EN.conc(r)
            if r == 10:
                return parse_int(st, w, s)
            if type(st) is not bytes:
                cs = [x for x in st]
                acc = 0
                if not cs:
                    return err(Opaque("ParseIntError"))
                for x in cs:
                    if not EN.br(pred_sv(x, lambda v: chr(v).isascii() and chr(v).isalnum() and int(chr(v), 36) < r)):
                        return err(Opaque("ParseIntError"))
                    d = map_sv(x, lambda v: int(chr(v), 36) if v < 128 and chr(v).isalnum() else 0, 8)
                    acc = sbin("Add", sbin("Mul", acc, r, 128, False), scast(d, 8, False, 128, False), 128, False)
                if EN.br(scmp("Gt", acc, (1 << (w - (1 if s else 0))) - 1, 128, False)):
                    return err(Opaque("ParseIntError"))
                return ok(scast(acc, 128, False, w, s))
            try:
                t = st.decode()
                if not t or "_" in t or t != t.strip() or (t[0] == '-' and not s):
                    raise ValueError
                v = int(t, r)
                if v != norm(v, w, s):
                    raise ValueError
                return ok(v)
            except ValueError:
                return err(Opaque("ParseIntError"))
        U("from_str_radix", radix)
        U("rem_euclid", lambda x, y: sbin("Rem", x, y, w, s) if not s else _uns("rem_euclid"))
        U("count_ones", lambda x: bin(EN.conc(x) & ((1 << w) - 1)).count("1"))
        U("leading_zeros", lambda x: w - (EN.conc(x) & ((1 << w) - 1)).bit_length())
        U("trailing_zeros", lambda x: (lambda v: w if v == 0 else (v & -v).bit_length() - 1)(EN.conc(x) & ((1 << w) - 1)))
        U("abs", lambda x: x if EN.br(scmp("Ge", x, 0, w, s)) else sneg(x, w, s))
        U("to_le_bytes", lambda x: [sbin("BitAnd", sbin("Shr", scast(x, w, s, w, False), 8 * j, w, False), 255, w, False) for j in range(w // 8)] if isinstance(x, int) else _uns("to_le_bytes"))
    _reg(_w, _s, _p)


def _uns(n):
    raise Unsupported(n)


def _ascii_preds():
    P = {
        "is_ascii_alphabetic": lambda v: 65 <= v <= 90 or 97 <= v <= 122,
        "is_ascii_digit": lambda v: 48 <= v <= 57,
        "is_ascii_alphanumeric": lambda v: 48 <= v <= 57 or 65 <= v <= 90 or 97 <= v <= 122,
        "is_ascii_uppercase": lambda v: 65 <= v <= 90,
        "is_ascii_lowercase": lambda v: 97 <= v <= 122,
        "is_ascii_whitespace": lambda v: v in (9, 10, 12, 13, 32),
        "is_ascii_punctuation": lambda v: v < 128 and chr(v) in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~",
        "is_ascii_control": lambda v: v < 32 or v == 127,
        "is_ascii_graphic": lambda v: 33 <= v <= 126,
        "is_ascii_hexdigit": lambda v: 48 <= v <= 57 or 65 <= v <= 70 or 97 <= v <= 102,
        "is_ascii": lambda v: v < 128,
    }
    for n, p in P.items():
        for pre in ("core::num::<impl u8>::", "core::char::methods::<impl char>::"):
            M[pre + n] = lambda ex, inf, p=p: (lambda r: char_is(get(r), p))
    up = lambda v: v - 32 if 97 <= v <= 122 else v
    lo = lambda v: v + 32 if 65 <= v <= 90 else v
    for n, f in (("to_ascii_uppercase", up), ("to_ascii_lowercase", lo)):
        M["core::num::<impl u8>::" + n] = lambda ex, inf, f=f: (lambda r: map_sv(get(r), f, 8))
        M["core::char::methods::<impl char>::" + n] = lambda ex, inf, f=f: (lambda r: map_sv(get(r), f, 32) if is_small(get(r)) else get(r))
    C = {
        "is_alphabetic": lambda v: chr(v).isalpha(),
        "is_numeric": lambda v: chr(v).isnumeric(),
        "is_alphanumeric": lambda v: chr(v).isalnum(),
        "is_whitespace": lambda v: v in WS,
        "is_uppercase": lambda v: chr(v).isupper(),
        "is_lowercase": lambda v: chr(v).islower(),
        "is_control": lambda v: v < 32 or 127 <= v < 160,
    }
    for n, p in C.items():
        M["core::char::methods::<impl char>::" + n] = lambda ex, inf, p=p: (lambda c: char_is(c, p))


def is_small(v):
    return isinstance(v, int) or v.tab is not None or True


_ascii_preds()


@m("core::char::methods::<impl char>::is_digit")
def _(c, r):
    r = EN.conc(r)
    return char_is(c, lambda v: v < 128 and chr(v).isalnum() and int(chr(v), 36) < r)


@m("core::char::methods::<impl char>::to_digit")
def _(c, r):
    r = EN.conc(r)
    if EN.br(char_is(c, lambda v: v < 128 and chr(v).isalnum() and int(chr(v), 36) < r)):
        return some(map_sv(c, lambda v: int(chr(v), 36) if v < 128 and chr(v).isalnum() else 0, 32))
    return none()


@m("core::char::methods::<impl char>::len_utf8")
def _(c):
    return len(enc_char(c))


@m("core::char::methods::<impl char>::from_u32", "core::char::convert::from_u32")
def _(v):
    if isinstance(v, int):
        return some(v) if v < 0xd800 or 0xe000 <= v < 0x110000 else none()
    if EN.br(scmp("Lt", v, 0xd800, 32, False)):
        return some(v)
    if EN.br(b_and(scmp("Ge", v, 0xe000, 32, False), scmp("Lt", v, 0x110000, 32, False))):
        return some(v)
    return none()


@m("core::char::methods::<impl char>::from_digit", "core::char::convert::from_digit")
def _(d, r):
    d, r = EN.conc(d), EN.conc(r)
    return some(ord("0123456789abcdefghijklmnopqrstuvwxyz"[d])) if d < r else none()


@m("core::char::methods::<impl char>::from_u32_unchecked", "core::char::convert::from_u32_unchecked")
def _(v):
    return v


@m("core::char::methods::<impl char>::encode_utf8")
def _(c, buf):
    return mks(enc_char(c))


for _n, _f in (("to_uppercase", str.upper), ("to_lowercase", str.lower)):
    def _mk(f):
        def g(c):
            if isinstance(c, int):
                return ListIt([ord(x) for x in f(chr(c))])
            return ListIt([map_sv(c, lambda v: ord(f(chr(v))) if v < 128 else v, 32)])
        return g
    M["core::char::methods::<impl char>::" + _n] = lambda ex, inf, g=_mk(_f): g
for _n, _f in (("eq_ignore_ascii_case", None),):
    def _eic(a, b):
        lo = lambda v: v + 32 if 65 <= v <= 90 else v
        x, y = S(a), S(b)
        if len(x) != len(y):
            return False
        return eqs(mks([map_sv(q, lo, 8) for q in x]), mks([map_sv(q, lo, 8) for q in y]))
    M["core::str::<impl str>::eq_ignore_ascii_case"] = lambda ex, inf: _eic
    M["core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case"] = lambda ex, inf: _eic


# floats
for _t, _b in (("f32", 32), ("f64", 64)):
    for _pre in ("core::num::%s::<impl %s>::" % (_t, _t), "std::f%d::<impl f%d>::" % (_b, _b), "std::num::%s::<impl %s>::" % (_t, _t), "core::num::imp::%s::<impl %s>::" % (_t, _t), "core::f%d::<impl f%d>::" % (_b, _b)):
        def _reg2(pre, b):
            r = (lambda v: float(np.float32(v))) if b == 32 else (lambda v: v)
            import math

            def isf(pred, kind):
                def f(v):
                    if isinstance(v, FloatOf):
                        return float_class(v, kind)
                    return pred(v)
                return f
            M[pre + "is_nan"] = lambda ex, inf: isf(lambda v: v != v, "nan")
            M[pre + "is_finite"] = lambda ex, inf: isf(lambda v: math.isfinite(v), "finite")
            M[pre + "is_infinite"] = lambda ex, inf: isf(lambda v: math.isinf(v), "inf")
            M[pre + "abs"] = lambda ex, inf: (lambda v: abs(v))
            def fround(g):
                def f(v):
                    if isinstance(v, FloatOf):
                        raise Unsupported("rounding of a symbolic float")
                    if not math.isfinite(v):
                        return v
                    return math.copysign(float(g(v)), v)
                return lambda ex, inf: f
            M[pre + "floor"] = fround(math.floor)
            M[pre + "ceil"] = fround(math.ceil)
            M[pre + "trunc"] = fround(math.trunc)
            M[pre + "round"] = fround(lambda v: math.floor(abs(v)) + (1 if abs(v) - math.floor(abs(v)) >= 0.5 else 0))
            M[pre + "to_bits"] = lambda ex, inf: (lambda v: struct.unpack("<I", struct.pack("<f", v))[0] if b == 32 else struct.unpack("<Q", struct.pack("<d", v))[0])
            M[pre + "max"] = lambda ex, inf: (lambda x, y: max(x, y))
            M[pre + "min"] = lambda ex, inf: (lambda x, y: min(x, y))
        _reg2(_pre, _b)


def float_class(v, kind):
    """class of the float parsed from a symbolic text that has float syntax"""
    s = v.text
    for i, x in enumerate(s):
        if EN.br(pred_sv(x, lambda c: c in b"iI")):
            return kind == "inf"
        if EN.br(pred_sv(x, lambda c: c in b"nN")):
            return kind == "nan"
        if EN.br(pred_sv(x, lambda c: 48 <= c <= 57 or c == 46)):
            break
    # digits: infinite only with a huge exponent
    for i, x in enumerate(s):
        if EN.br(pred_sv(x, lambda c: c in b"eE")):
            e = s[i + 1:]
            ds = [y for y in e if EN.br(pred_sv(y, lambda c: 48 <= c <= 57))]
            if len(ds) >= 3:
                vals = [EN.conc(y) for y in ds] and [EN.conc(y) for y in s]
                f = float(bytes(vals))
                return {"nan": False, "inf": f in (float("inf"), float("-inf")), "finite": f not in (float("inf"), float("-inf"))}[kind]
    return kind == "finite"


@cm("core::str::traits::FromStr::from_str")
def _(ex, inf, a):
    return fromstr(ex, a[0])


def fromstr(ex, ty):
    t = ex.ty(ty)
    if t["k"] in ("int", "uint"):
        w, s = t["bits"], t["k"] == "int"
        return lambda st: parse_int(S(st), w, s)
    if t["k"] == "float":
        b = t["bits"]
        return lambda st: parse_float(S(st), b)
    if t["k"] == "bool":
        def f(st):
            if EN.br(eqs(S(st), b"true")):
                return ok(True)
            if EN.br(eqs(S(st), b"false")):
                return ok(False)
            return err(Opaque("ParseBoolError"))
        return f
    if t["k"] == "char":
        def f(st):
            cs = chars(S(st))
            return ok(cs[0][1]) if len(cs) == 1 else err(Opaque("ParseCharError"))
        return f
    if t["k"] == "adt" and t["path"] == "alloc::string::String":
        return lambda st: ok(newstr(S(st)))
    return None


@mf("core::str::<impl str>::parse")
def _(ex, inf):
    ty = [a for a in inf["args"] if isinstance(a, int)][0]
    f = fromstr(ex, ty)
    if f is None:
        g = ex.method("core::str::traits::FromStr", "from_str", [ty])
        return lambda s: g(s)
    return f
