"""Strings, texts and numbers over symbolic bytes."""
import re
import numpy as np
from vals import *
from core import *

NONE = [0]


def some(x):
    return [1, x]


def none():
    return [0]


def ok(x):
    return [0, x]


def err(x):
    return [1, x]


class VecObj:
    """Vec<T>, String and Vec<u8>"""
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l

    def dup(self):
        l = self.l
        if type(l) is bytearray:
            return VecObj(bytearray(l))
        return VecObj([clone_val(x) for x in l])

    def drop_items(self, ex, t):
        a = t["args"]
        if a and a[0] is not None and ex.needs_drop(a[0]):
            for x in self.l:
                ex.drop_val(x, a[0])
            self.l = []


def mks(items):
    """normal form of a text: bytes when concrete, else tuple"""
    if type(items) is bytes:
        return items
    if type(items) is bytearray:
        return bytes(items)
    for x in items:
        if x.__class__ is not int:
            return tuple(items)
    return bytes(items)


def S(x):
    """text value of a &str / String / &[u8]"""
    if type(x) is bytes or type(x) is tuple:
        return x
    if isinstance(x, VecObj):
        l = x.l
        if type(l) is bytearray:
            return bytes(l)
        return mks(l)
    if isinstance(x, Slice):
        if x.o == 0 and x.n == len(x.c):
            return mks(x.c)
        return mks(x.c[x.o:x.o + x.n])
    if isinstance(x, Ref):
        return S(x.c[x.k])
    if type(x) is list and len(x) == 2 and x[0] in (0, 1) and not isinstance(x[1], int):
        return S(x[1])  # Cow
    raise Unsupported("not a text: %r" % (type(x),))


def newstr(s):
    if type(s) is bytes:
        return VecObj(bytearray(s))
    return VecObj(list(s))


def vpush(v, s):
    """append text s to VecObj v"""
    l = v.l
    if type(l) is bytearray:
        if type(s) is bytes or type(s) is bytearray:
            l += s
        else:
            v.l = list(l)
            v.l.extend(s)
    else:
        l.extend(s)


def vpush1(v, x):
    l = v.l
    if type(l) is bytearray:
        if type(x) is int:
            l.append(x)
        else:
            v.l = list(l)
            v.l.append(x)
    else:
        l.append(x)


def cat(*ss):
    if all(type(s) is bytes for s in ss):
        return b"".join(ss)
    o = []
    for s in ss:
        o.extend(s)
    return tuple(o)


def eqs(a, b):
    """equality of two texts as condition"""
    if type(a) is bytes and type(b) is bytes:
        return a == b
    if len(a) != len(b):
        return False
    fs = {}
    zs = []
    for x, y in zip(a, b):
        if x is y:
            continue
        c = scmp("Eq", x, y, 8, False)
        if c is True:
            continue
        if c is False:
            return False
        if c.k == 'm':
            fs[c.a] = fs.get(c.a, FULL) & c.b
            if fs[c.a] == 0:
                return False
        else:
            zs.append(c)
    r = mkconj(fs)
    for z in zs:
        r = b_and(r, z)
        if r is False:
            return False
    return r


def cmp3(a, b, w, signed):
    """-1/0/1 (forks)"""
    if EN.br(scmp("Eq", a, b, w, signed)):
        return 0
    return -1 if EN.br(scmp("Lt", a, b, w, signed)) else 1


def cmps(a, b):
    if type(a) is bytes and type(b) is bytes:
        return (a > b) - (a < b)
    for x, y in zip(a, b):
        c = cmp3(x, y, 8, False)
        if c:
            return c
    return (len(a) > len(b)) - (len(a) < len(b))


# ---------------------------------------------------------------- utf-8
def is_ascii_dom(x):
    if type(x) is int:
        return x < 128
    if x.tab is None:
        x = EN.bind_small(x)
        if type(x) is int:
            return x < 128
    return tabmask(x, lambda v: v >= 128) == 0


def dec_char(s, i):
    """(code point, length) at i of valid utf-8"""
    x = s[i]
    if type(x) is int and x < 128:
        return x, 1
    if type(x) is not int:
        if EN.br(pred_sv(x, lambda v: v < 128)):
            return scast(x, 8, False, 32, False), 1
        if EN.br(pred_sv(x, lambda v: v < 0xe0)):
            n = 2
        elif EN.br(pred_sv(x, lambda v: v < 0xf0)):
            n = 3
        else:
            n = 4
        r = sbin("BitAnd", scast(x, 8, False, 32, False), {2: 0x1f, 3: 0x0f, 4: 7}[n], 32, False)
    else:
        n = 2 if x < 0xe0 else 3 if x < 0xf0 else 4
        r = x & {2: 0x1f, 3: 0x0f, 4: 7}[n]
    for j in range(1, n):
        c = scast(s[i + j], 8, False, 32, False)
        r = sbin("BitOr", sbin("Shl", r, 6, 32, False), sbin("BitAnd", c, 0x3f, 32, False), 32, False)
    return r, n


def enc_char(c):
    """utf-8 bytes of a char"""
    if type(c) is int:
        return chr(c).encode("utf-8", "surrogatepass")
    if c.tab is None:
        if not EN.br(scmp("Lt", c, 128, 32, False)):
            raise Unsupported("non-ASCII symbolic character")
        c = EN.bind_small(c)
        if type(c) is int:
            return bytes([c])
    if not EN.br(pred_sv(c, lambda v: v < 128)):
        if EN.br(pred_sv(c, lambda v: v < 0x800)):
            return (map_sv(c, lambda v: 0xc0 | (v >> 6) if v >= 128 else 0, 8), map_sv(c, lambda v: 0x80 | (v & 0x3f), 8))
        raise Unsupported("wide symbolic character")
    return (scast(c, 32, False, 8, False),)


def chars(s):
    """[(offset, char)]"""
    if type(s) is bytes:
        if s.isascii():
            return list(enumerate(s))
        o = []
        p = 0
        for ch in s.decode("utf-8", "surrogatepass"):
            o.append((p, ord(ch)))
            p += len(ch.encode("utf-8", "surrogatepass"))
        return o
    o = []
    i = 0
    while i < len(s):
        c, n = dec_char(s, i)
        o.append((i, c))
        i += n
    return o


def valid_utf8(s):
    """position of the first invalid byte or None"""
    if type(s) is bytes:
        try:
            s.decode("utf-8")
            return None
        except UnicodeDecodeError as e:
            return e.start
    i = 0
    n = len(s)

    def rng(x, lo, hi):
        return EN.br(pred_sv(x, lambda v: lo <= v <= hi))
    while i < n:
        x = s[i]
        if rng(x, 0, 0x7f):
            i += 1
        elif rng(x, 0xc2, 0xdf):
            if i + 1 >= n or not rng(s[i + 1], 0x80, 0xbf):
                return i
            i += 2
        elif rng(x, 0xe0, 0xef):
            if rng(x, 0xe0, 0xe0):
                lo, hi = 0xa0, 0xbf
            elif rng(x, 0xed, 0xed):
                lo, hi = 0x80, 0x9f
            else:
                lo, hi = 0x80, 0xbf
            if i + 1 >= n or not rng(s[i + 1], lo, hi) or i + 2 >= n or not rng(s[i + 2], 0x80, 0xbf):
                return i
            i += 3
        elif rng(x, 0xf0, 0xf4):
            if rng(x, 0xf0, 0xf0):
                lo, hi = 0x90, 0xbf
            elif rng(x, 0xf4, 0xf4):
                lo, hi = 0x80, 0x8f
            else:
                lo, hi = 0x80, 0xbf
            if i + 1 >= n or not rng(s[i + 1], lo, hi) or i + 2 >= n or not rng(s[i + 2], 0x80, 0xbf) or i + 3 >= n or not rng(s[i + 3], 0x80, 0xbf):
                return i
            i += 4
        else:
            return i
    return None


def lossy(s):
    if type(s) is bytes:
        return s.decode("utf-8", "replace").encode()
    p = valid_utf8(s)
    if p is None:
        return s
    # replace one invalid byte at a time (an approximation for truncated sequences: symbolic only)
    rest = lossy(mks(s[p + 1:]))
    return cat(mks(s[:p]), b"\xef\xbf\xbd", rest)


WS = set([9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000] + list(range(0x2000, 0x200b)))


def char_is(c, pred):
    """condition on a char"""
    if type(c) is int:
        return bool(pred(c))
    return pred_sv(c, pred)


def is_ws(c):
    return char_is(c, lambda v: v in WS)


def trim(s, start=True, end=True, pred=None):
    if pred is None:
        pred = is_ws
    cs = chars(s)
    a, b = 0, len(cs)
    if start:
        while a < b and EN.br(pred(cs[a][1])):
            a += 1
    if end:
        while b > a and EN.br(pred(cs[b - 1][1])):
            b -= 1
    if a == b:
        return b"" if not start or True else b""
    p = cs[a][0]
    q = cs[b][0] if b < len(cs) else len(s)
    return mks(s[p:q])


# ---------------------------------------------------------------- numbers
DEC = {}      # z3 id -> (expr, tuple of byte SVs, width, signed)
REV = {}      # tuple of var ids -> SV


def dec(v, signed=False):
    """decimal text of an integer"""
    if type(v) is int:
        return str(v).encode()
    if v.tab is not None:
        if EN.br(mkm(v.var, tabmask(v, lambda x: x < 0))):
            return cat(b"-", dec(map_sv(v, lambda x: abs(x), v.w)))
        n = 1
        while not EN.br(mkm(v.var, tabmask(v, lambda x: x < 10 ** n))):
            n += 1
        out = []
        for j in range(n - 1, -1, -1):
            out.append(map_sv(v, lambda x, j=j: 48 + (x // 10 ** j) % 10, 8))
        return mks(out)
    if signed:
        if EN.br(scmp("Lt", v, 0, v.w, True)):
            return cat(b"-", dec(sneg(v, v.w, False)))
    w = v.w
    z = z3.simplify(v.z)
    key = z.get_id()
    c = EN.binds.get(("dec", key))
    if c is not None and c[0].eq(z):
        return c[1]
    n = 1
    while 10 ** n < (1 << w) and not EN.br(mkz(z3.ULT(z, z3.BitVecVal(10 ** n, w)))):
        n += 1
    if n == 1:
        b = EN.byte(sum(1 << (48 + i) for i in range(10)))
        digs = [b]
    else:
        digs = [EN.byte(sum(1 << (48 + i) for i in range(1, 10)))] + [EN.byte(sum(1 << (48 + i) for i in range(10))) for _ in range(n - 1)]
    acc = None
    W = max(w, 8) + 4
    for d in digs:
        x = z3.ZeroExt(W - 8, EN.bytevars[d.var]) - z3.BitVecVal(48, W)
        acc = x if acc is None else acc * z3.BitVecVal(10, W) + x
    zz = z3.ZeroExt(W - w, z)
    EN.entangle(z)
    for d in digs:
        EN.ent.add(d.var)
    EN.sol().add(acc == zz)
    s = tuple(digs)
    EN.binds[("dec", key)] = (z, s)
    EN.binds[("rev",) + tuple(d.var for d in digs)] = SV(w, z=z)
    return s


class PErr(Opaque):
    pass


def parse_int(s, w, signed):
    """FromStr of integers: Ok/Err"""
    E = lambda: err(Opaque("ParseIntError"))
    lo = -(1 << (w - 1)) if signed else 0
    hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
    if type(s) is bytes:
        m = re.fullmatch(rb"[+-]?[0-9]+" if signed else rb"\+?[0-9]+", s)
        if not m:
            return E()
        n = int(s)
        return ok(n) if lo <= n <= hi else E()
    if all(isinstance(x, SV) and x.tab is IDENT for x in s):
        r = EN.binds.get(("rev",) + tuple(x.var for x in s))
        if r is not None:
            if r.w == w and not signed:
                return ok(r)
            if r.w < w:
                return ok(scast(r, r.w, False, w, signed))
            if EN.br(mkz(z3.UGT(r.z, z3.BitVecVal(hi, r.w)))):
                return E()
            return ok(scast(r, r.w, False, w, signed))
    i = 0
    neg = False
    if len(s) == 0:
        return E()
    if EN.br(pred_sv(s[0], lambda v: v == 43)):
        i = 1
    elif signed and EN.br(pred_sv(s[0], lambda v: v == 45)):
        i = 1
        neg = True
    if i == len(s):
        return E()
    for x in s[i:]:
        if not EN.br(pred_sv(x, lambda v: 48 <= v <= 57)):
            return E()
    ds = [sbin("Sub", scast(x, 8, False, 128, False), 48, 128, False) for x in s[i:]]
    if len(ds) > 30:
        raise Unsupported("long symbolic number")
    acc = ds[0]
    for d in ds[1:]:
        acc = sbin("Add", sbin("Mul", acc, 10, 128, False), d, 128, False)
    lim = -lo if neg else hi
    if 10 ** len(ds) - 1 > lim:
        if EN.br(scmp("Gt", acc, lim, 128, False)):
            return E()
    r = scast(acc, 128, False, w, signed)
    if neg:
        r = sneg(r, w, signed)
    return ok(r)


FRE = re.compile(rb"[+-]?(inf|infinity|nan|([0-9]+(\.[0-9]*)?|\.[0-9]+)(e[+-]?[0-9]+)?)", re.I)


def parse_float(s, bits):
    if type(s) is bytes:
        if not FRE.fullmatch(s):
            return err(Opaque("ParseFloatError"))
        v = float(s)
        if bits == 32:
            v = float(np.float32(s.decode()))
        return ok(v)
    # symbolic: decide the grammar by branching on character classes
    n = len(s)
    i = 0

    def at(j, pred):
        return j < n and EN.br(pred_sv(s[j], pred))
    bad = lambda: err(Opaque("ParseFloatError"))
    if at(0, lambda v: v in b"+-"):
        i = 1
    if i == n:
        return bad()
    for word in (b"infinity", b"inf", b"nan"):
        if n - i == len(word):
            if all_br(s[i:], word):
                return ok(FloatOf(s, bits))
    nd = 0
    while at(i, lambda v: 48 <= v <= 57):
        i += 1
        nd += 1
    if at(i, lambda v: v == 46):
        i += 1
        while at(i, lambda v: 48 <= v <= 57):
            i += 1
            nd += 1
    if nd == 0:
        return bad()
    if i < n:
        if not at(i, lambda v: v in b"eE"):
            return bad()
        i += 1
        if at(i, lambda v: v in b"+-"):
            i += 1
        k = 0
        while at(i, lambda v: 48 <= v <= 57):
            i += 1
            k += 1
        if k == 0 or i < n:
            return bad()
    return ok(FloatOf(s, bits))


def all_br(s, word):
    for x, y in zip(s, word):
        if not EN.br(pred_sv(x, lambda v: v in (y, y - 32))):
            return False
    return True


def fmt_float(v, bits):
    if isinstance(v, FloatOf):
        # one path per text: the digits are chosen by forking
        t = bytes(x if type(x) is int else EN.conc(x) for x in v.text)
        v = float(t)
        if bits == 32:
            v = float(np.float32(v))
    if v != v:
        return b"NaN"
    if v in (float("inf"), float("-inf")):
        return b"inf" if v > 0 else b"-inf"
    x = np.float32(v) if bits == 32 else np.float64(v)
    s = np.format_float_positional(x, unique=True, trim="-")
    return s.encode()


def as_len(x):
    return len(x.l) if isinstance(x, VecObj) else len(x)


# ---------------------------------------------------------------- generic operations on values
def clone_val(v):
    t = type(v)
    if t is int or t is bytes or t is bool or t is Ref or t is tuple or t is float:
        return v
    if t is list:
        return [clone_val(x) for x in v]
    if t is SV or t is SB or t is Slice or t is FnVal or t is FloatOf or v is None or t is DynRef:
        return v
    if hasattr(v, "dup"):
        return v.dup()
    if isinstance(v, Opaque):
        return v
    raise Unsupported("clone of %r" % t)


def deref_all(v):
    while isinstance(v, Ref):
        v = v.c[v.k]
    return v


def eq_val(a, b):
    a = deref_all(a)
    b = deref_all(b)
    if isinstance(a, (VecObj, bytes, tuple, Slice)) or isinstance(b, (VecObj, bytes, tuple, Slice)):
        ai, bi = seq(a), seq(b)
        if type(ai) is bytes and type(bi) is bytes:
            return ai == bi
        if len(ai) != len(bi):
            return False
        r = True
        if len(ai) and all(isinstance(x, (int, SV)) and not isinstance(x, bool) for x in ai) and all(isinstance(x, (int, SV)) for x in bi) and all((x.w if isinstance(x, SV) else 8) == 8 for x in ai):
            return eqs(ai, bi)
        for x, y in zip(ai, bi):
            r = b_and(r, eq_val(x, y))
            if r is False:
                return False
        return r
    if isinstance(a, SV) or isinstance(b, SV):
        return scmp("Eq", a, b, a.w if isinstance(a, SV) else b.w, False)
    if isinstance(a, SB) or isinstance(b, SB) or isinstance(a, bool):
        return scmp("Eq", a, b, 8, False)
    if isinstance(a, (int, float)):
        return a == b
    if type(a) is list:
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = b_and(r, eq_val(x, y))
            if r is False:
                return False
        return r
    if hasattr(a, "eq_with"):
        return a.eq_with(b)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a is b
    raise Unsupported("equality of %r" % type(a))


def seq(x):
    if isinstance(x, VecObj):
        l = x.l
        return bytes(l) if type(l) is bytearray else l
    if isinstance(x, Slice):
        return x.c[x.o:x.o + x.n]
    return x


def cmp_val(a, b):
    """Ord on values: -1/0/1 (forks)"""
    a = deref_all(a)
    b = deref_all(b)
    if isinstance(a, (VecObj, bytes, tuple, Slice)):
        x, y = seq(a), seq(b)
        if type(x) is bytes and type(y) is bytes:
            return (x > y) - (x < y)
        for p, q in zip(x, y):
            c = cmp_val(p, q)
            if c:
                return c
        return (len(x) > len(y)) - (len(x) < len(y))
    if isinstance(a, (SV,)) or isinstance(b, SV):
        # signedness is only lost for negative symbolic values
        return cmp3(a, b, a.w if isinstance(a, SV) else b.w, False)
    if isinstance(a, SB) or isinstance(b, SB):
        a = EN.br(a)
        b = EN.br(b)
    if isinstance(a, (int, float)):
        return (a > b) - (a < b)
    if type(a) is list:
        for p, q in zip(a, b):
            c = cmp_val(p, q)
            if c:
                return c
        return (len(a) > len(b)) - (len(a) < len(b))
    raise Unsupported("ordering of %r" % type(a))


def canon(v):
    """hashable form of a concrete value, None when symbolic"""
    v = deref_all(v)
    t = type(v)
    if t is bytes:
        return v
    if t is int or t is bool:
        return v
    if t is VecObj:
        if type(v.l) is bytearray:
            return bytes(v.l)
        s = mks(v.l) if all(isinstance(x, (int, SV)) for x in v.l) else v.l
        if type(s) is bytes:
            return s
        if type(s) is tuple:
            return None
        r = tuple(canon(x) for x in s)
        return None if any(x is None for x in r) else r
    if t is tuple:
        return None
    if t is list:
        r = []
        for x in v:
            c = canon(x)
            if c is None:
                return None
            r.append(c)
        return tuple(r)
    if t is Slice:
        r = tuple(canon(x) for x in seq(v))
        if any(x is None for x in r):
            return None
        if all(type(x) is int for x in r):
            return bytes(r) if all(x < 256 for x in r) else r
        return r
    if t is SV or t is SB:
        return None
    if t is float:
        return ("f", v)
    raise Unsupported("key of type %r" % t)


class MapObj:
    """HashMap / HashSet (sort=False) and BTreeMap / BTreeSet (sort=True)"""
    __slots__ = ("d", "n", "sort", "nsym")

    def __init__(self, sort=False):
        self.d = {}
        self.n = 0
        self.sort = sort
        self.nsym = 0

    def dup(self):
        m = MapObj(self.sort)
        m.n = self.n
        m.nsym = self.nsym
        m.d = {k: [clone_val(e[0]), clone_val(e[1])] for k, e in self.d.items()}
        return m

    def drop_items(self, ex, t):
        for i, a in enumerate(t["args"][:2]):
            if a is not None and ex.needs_drop(a):
                for e in list(self.d.values()):
                    ex.drop_val(e[i], a)
        self.d = {}

    def find(self, k):
        """(dict key, entry) or None"""
        c = canon(k)
        if c is not None:
            e = self.d.get(c)
            if e is not None:
                return c, e
            if self.nsym == 0:
                return None
            for kk, e in self.d.items():
                if type(kk) is tuple and len(kk) == 2 and kk[0] == "sym" and EN.br(eq_val(e[0], k)):
                    return kk, e
            return None
        for kk, e in self.d.items():
            if EN.br(eq_val(e[0], k)):
                return kk, e
        return None

    def insert(self, k, v):
        r = self.find(k)
        if r is not None:
            old = r[1][1]
            r[1][1] = v
            return some(old)
        self.add(k, v)
        return none()

    def add(self, k, v):
        c = canon(k)
        if c is None:
            self.n += 1
            self.nsym += 1
            c = ("sym", self.n)
        e = [k, v]
        self.d[c] = e
        return e

    def remove(self, k):
        r = self.find(k)
        if r is None:
            return None
        del self.d[r[0]]
        if type(r[0]) is tuple and len(r[0]) == 2 and r[0][0] == "sym":
            self.nsym -= 1
        return r[1]

    def entries(self):
        l = list(self.d.values())
        if self.sort:
            import functools
            l.sort(key=functools.cmp_to_key(lambda a, b: cmp_val(a[0], b[0])))
        elif EN_OPTS["reverse_hash"]:
            l.reverse()
        return l

    def eq_with(self, o):
        if len(self.d) != len(o.d):
            return False
        r = True
        for e in self.d.values():
            f = o.find(e[0])
            if f is None:
                return False
            r = b_and(r, eq_val(e[1], f[1][1]))
        return r


EN_OPTS = {"reverse_hash": False}
