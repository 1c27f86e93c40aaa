"""Symbolic values and the path engine (domains, solver, forking)."""
import json, os, sys, time
import z3

FULL = (1 << 256) - 1


class RustPanic(Exception):
    pass


class AssumeFailed(Exception):
    pass


class Unsupported(Exception):
    pass


class Stop(Exception):
    """this process has nothing more to explore (deadline)"""


class SV:
    """symbolic integer of width w; either a table over one byte variable (var, tab) or a z3 expression"""
    __slots__ = ("w", "var", "tab", "_z", "mk")

    def __init__(self, w, var=None, tab=None, z=None, mk=None):
        self.w = w
        self.var = var
        self.tab = tab
        self._z = z
        self.mk = mk

    def __repr__(self):
        if self.var is not None:
            return "SV(w%d v%d)" % (self.w, self.var)
        return "SV(w%d %s)" % (self.w, str(self._z)[:60])

    def __eq__(self, o):
        raise Unsupported("python == on a symbolic value")

    __hash__ = object.__hash__

    def __index__(self):
        raise Unsupported("symbolic value used as an index")

    def __bool__(self):
        raise Unsupported("python truth of a symbolic value")

    def __lt__(self, o):
        raise Unsupported("python < on a symbolic value")

    __gt__ = __le__ = __ge__ = __lt__

    @property
    def z(self):
        if self._z is None:
            t = self.tab
            if t is None:
                op, a, b, signed = self.mk
                self._z = zop(op, a, b, self.w, signed)
            else:
                v = EN.bytevars[self.var]
                if t is IDENT:
                    self._z = v if self.w == 8 else z3.ZeroExt(self.w - 8, v)
                else:
                    # nested ite over runs of the table with constant offset to the byte
                    self._z = tabz(v, t, self.w, EN.dom[self.var])
        return self._z


IDENT = list(range(256))


def tabz(v, t, w, dom):
    """nested ite over runs of the table that are linear in the byte"""
    runs = []
    m = (1 << w) - 1
    for b in range(256):
        if not (dom >> b) & 1:
            continue
        if runs:
            r = runs[-1]
            if r[2] is None:
                dv, db = t[b] - t[r[0]], b - r[0]
                if dv % db == 0:
                    r[2] = dv // db
                    r[1] = b
                    continue
            elif (t[r[0]] + r[2] * (b - r[0])) & m == t[b] & m:
                r[1] = b
                continue
        runs.append([b, b, None])
    x = v if w == 8 else (z3.ZeroExt(w - 8, v) if w > 8 else z3.Extract(w - 1, 0, v))
    e = None
    for lo, hi, k in reversed(runs):
        if not k:
            y = z3.BitVecVal(t[lo], w)
        else:
            y = x if k == 1 else x * z3.BitVecVal(k & m, w)
            d = (t[lo] - k * lo) & m
            if d:
                y = y + z3.BitVecVal(d, w)
        e = y if e is None else z3.If(z3.ULE(v, z3.BitVecVal(hi, 8)), y, e)
    return e


class SB:
    """symbolic boolean: k='m' (var, mask) ; 'a' conjunction of (var, mask) ; 'n' negated conjunction ; 'z' z3"""
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a, b=None):
        self.k = k
        self.a = a
        self.b = b

    def __bool__(self):
        raise Unsupported("python truth of a symbolic bool")

    def __eq__(self, o):
        raise Unsupported("python == on a symbolic bool")

    __hash__ = object.__hash__

    def __repr__(self):
        return "SB(%s)" % self.k

    @property
    def z(self):
        if self.k == 'z':
            return self.a
        if self.k == 'm':
            return maskz(EN.bytevars[self.a], self.b)
        c = z3.And([maskz(EN.bytevars[v], m) for v, m in self.a])
        return c if self.k == 'a' else z3.Not(c)


_maskc = {}


def maskz(v, mask):
    k = (v.get_id(), mask)
    r = _maskc.get(k)
    if r is not None:
        return r[0]
    n = bin(mask).count("1")
    if n == 256:
        r = z3.BoolVal(True)
    elif n == 0:
        r = z3.BoolVal(False)
    else:
        parts = []
        b = 0
        while b < 256:
            if (mask >> b) & 1:
                e = b
                while e + 1 < 256 and (mask >> (e + 1)) & 1:
                    e += 1
                if e == b:
                    parts.append(v == z3.BitVecVal(b, 8))
                elif b == 0:
                    parts.append(z3.ULE(v, z3.BitVecVal(e, 8)))
                elif e == 255:
                    parts.append(z3.UGE(v, z3.BitVecVal(b, 8)))
                else:
                    parts.append(z3.And(z3.UGE(v, z3.BitVecVal(b, 8)), z3.ULE(v, z3.BitVecVal(e, 8))))
                b = e + 1
            else:
                b += 1
        r = parts[0] if len(parts) == 1 else z3.Or(parts)
    _maskc[k] = (r, v)
    return r


def mkm(var, mask):
    d = EN.dom[var]
    t = d & mask
    if t == 0:
        return False
    if t == d:
        return True
    return SB('m', var, t)


def mkz(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SB('z', z)


def tab_sv(w, var, tab):
    """SV from a table, folded to a constant when the domain makes it one"""
    d = EN.dom[var]
    lo = (d & -d).bit_length() - 1
    first = tab[lo]
    if d & (d - 1) == 0:
        return first
    for b in range(lo + 1, d.bit_length()):
        if (d >> b) & 1 and tab[b] != first:
            return SV(w, var, tab)
    return first


def bz(x):
    if x is True or x is False:
        return z3.BoolVal(x)
    return x.z


def vz(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    z = x.z
    if z.size() != w:
        raise Unsupported("width mismatch %d %d" % (z.size(), w))
    return z


def b_not(x):
    if x is True:
        return False
    if x is False:
        return True
    if x.k == 'm':
        return mkm(x.a, FULL & ~x.b)
    if x.k == 'a':
        return SB('n', x.a)
    if x.k == 'n':
        return SB('a', x.a)
    return SB('z', z3.Not(x.a))


def b_and(x, y):
    if x is False or y is False:
        return False
    if x is True:
        return y
    if y is True:
        return x
    if x.k in 'ma' and y.k in 'ma':
        fs = {}
        for s in (x, y):
            for v, m in ([(s.a, s.b)] if s.k == 'm' else s.a):
                fs[v] = fs.get(v, FULL) & m
        return mkconj(fs)
    return SB('z', z3.And(x.z, y.z))


def mkconj(fs):
    out = []
    for v, m in fs.items():
        d = EN.dom[v]
        t = d & m
        if t == 0:
            return False
        if t != d:
            out.append((v, t))
    if not out:
        return True
    if len(out) == 1:
        return SB('m', out[0][0], out[0][1])
    return SB('a', out)


def b_or(x, y):
    return b_not(b_and(b_not(x), b_not(y)))


def b_xor(x, y):
    if isinstance(x, bool):
        return b_not(y) if x else y
    if isinstance(y, bool):
        return b_not(x) if y else x
    return SB('z', z3.Xor(x.z, y.z))


def norm(v, w, signed):
    v &= (1 << w) - 1
    if signed and v >> (w - 1):
        v -= 1 << w
    return v


def zop(op, a, b, w, signed):
    x = vz(a, w)
    if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
        if isinstance(b, int):
            y = z3.BitVecVal(b, w)
        else:
            y = b.z
            if y.size() < w:
                y = z3.ZeroExt(w - y.size(), y)
            elif y.size() > w:
                y = z3.Extract(w - 1, 0, y)
        y = y & z3.BitVecVal(w - 1, w)
        if op.startswith("Shl"):
            return x << y
        return (x >> y) if signed else z3.LShR(x, y)
    y = vz(b, w)
    if op.startswith("Add"):
        return x + y
    if op.startswith("Sub"):
        return x - y
    if op.startswith("Mul"):
        return x * y
    if op == "Div":
        return (x / y) if signed else z3.UDiv(x, y)
    if op == "Rem":
        return z3.SRem(x, y) if signed else z3.URem(x, y)
    if op == "BitAnd":
        return x & y
    if op == "BitOr":
        return x | y
    if op == "BitXor":
        return x ^ y
    raise Unsupported("z op " + op)


def cop(op, a, b, w, signed):
    """concrete"""
    if op[0] == 'A':
        r = a + b
    elif op.startswith("Sub"):
        r = a - b
    elif op.startswith("Mul"):
        r = a * b
    elif op == "Div":
        if b == 0:
            return 0
        r = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            r = -r
    elif op == "Rem":
        if b == 0:
            return 0
        r = abs(a) % abs(b)
        if a < 0:
            r = -r
    elif op == "BitAnd":
        r = a & b
    elif op == "BitOr":
        r = a | b
    elif op == "BitXor":
        r = a ^ b
    elif op.startswith("Shl"):
        r = a << (b & (w - 1))
    elif op.startswith("Shr"):
        r = a >> (b & (w - 1))
    else:
        raise Unsupported("op " + op)
    return norm(r, w, signed)


def sbin(op, a, b, w, signed):
    if isinstance(a, bool) and isinstance(b, bool):
        return a & b if op == "BitAnd" else a | b if op == "BitOr" else a ^ b
    if isinstance(a, int) and isinstance(b, int):
        return cop(op, a, b, w, signed)
    if isinstance(a, (SB, bool)) or isinstance(b, (SB, bool)):
        if op == "BitAnd":
            return b_and(a, b)
        if op == "BitOr":
            return b_or(a, b)
        if op == "BitXor":
            return b_xor(a, b)
    if not isinstance(a, (int, SV)) or not isinstance(b, (int, SV)):
        raise Unsupported("arith %s on %r %r" % (op, type(a), type(b)))
    if isinstance(a, int):
        if b.tab is not None:
            return tab_sv(w, b.var, [cop(op, a, y, w, signed) for y in b.tab])
    elif isinstance(b, int):
        if a.tab is not None:
            return tab_sv(w, a.var, [cop(op, x, b, w, signed) for x in a.tab])
        if b == 0 and op in ("Add", "Sub", "BitOr", "BitXor", "Shl", "Shr", "AddUnchecked", "SubUnchecked"):
            return a
    elif a.tab is not None and b.tab is not None and a.var == b.var:
        return tab_sv(w, a.var, [cop(op, x, y, w, signed) for x, y in zip(a.tab, b.tab)])
    if op in ("Div", "Rem") and isinstance(b, int) and 2 <= b <= 256 and EN.concrete is None:
        r = divmod_const(a, b, w, signed)
        if r is not None:
            return r[0 if op == "Div" else 1]
    return SV(w, mk=(op, a, b, signed))


def divmod_const(a, b, w, signed):
    """quotient and remainder as new variables: a = b*q + r"""
    z = z3.simplify(a.z)
    if signed and not EN.feasible(b_not(scmp("Lt", a, 0, w, True))):
        return None
    if signed and EN.feasible(scmp("Lt", a, 0, w, True)):
        return None
    key = ("div", b)
    for (z0, w0, q, r) in EN.binds.get(key, ()):
        W = max(w, w0)
        x, y = z, z0
        if w < W:
            x = z3.ZeroExt(W - w, x)
        if w0 < W:
            y = z3.ZeroExt(W - w0, y)
        e = z3.simplify(x == y)
        if z3.is_false(e):
            continue
        if not z3.is_true(e) and EN.feasible(SB('z', z3.Not(e))):
            continue
        return scast(q, w0, False, w, False), r
    r = EN.byte((1 << b) - 1)
    q = EN.word(w)
    W = w + 2
    EN.entangle(z)
    EN.ent.add(r.var)
    s = EN.sol()
    s.add(z3.ULE(q.z, z3.BitVecVal(((1 << w) - 1) // b, w)))
    s.add(z3.ZeroExt(2, q.z) * z3.BitVecVal(b, W) + (z3.ZeroExt(W - 8, EN.bytevars[r.var]) if W > 8 else z3.Extract(W - 1, 0, EN.bytevars[r.var])) == z3.ZeroExt(2, z))
    EN.binds[key] = EN.binds.get(key, ()) + ((z, w, q, r),)
    return q, r


def s_ovf(op, a, b, w, signed):
    """overflow condition of Add/Sub/Mul"""
    def co(x, y):
        r = x + y if op[0] == 'A' else x - y if op[0] == 'S' else x * y
        return r != norm(r, w, signed)
    if isinstance(a, int) and isinstance(b, int):
        return co(a, b)
    at = a.tab if isinstance(a, SV) else None
    bt = b.tab if isinstance(b, SV) else None
    var = None
    if isinstance(a, int) and bt is not None:
        var = b.var
        m = [co(a, y) for y in bt]
    elif isinstance(b, int) and at is not None:
        var = a.var
        m = [co(x, b) for x in at]
    elif at is not None and bt is not None and a.var == b.var:
        var = a.var
        m = [co(x, y) for x, y in zip(at, bt)]
    if var is not None:
        mask = 0
        for i, f in enumerate(m):
            if f:
                mask |= 1 << i
        return mkm(var, mask)
    x, y = vz(a, w), vz(b, w)
    if op[0] == 'A':
        if signed:
            return mkz(z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))))
        return mkz(z3.ULT(x + y, x))
    if op[0] == 'S':
        if signed:
            return mkz(z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))))
        return mkz(z3.ULT(x, y))
    if op[0] == 'M':
        if not signed and isinstance(b, int):
            if b == 0:
                return False
            return mkz(z3.UGT(x, z3.BitVecVal(((1 << w) - 1) // b, w)))
        if not signed and isinstance(a, int):
            if a == 0:
                return False
            return mkz(z3.UGT(y, z3.BitVecVal(((1 << w) - 1) // a, w)))
        if signed:
            return mkz(z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))))
        return mkz(z3.Not(z3.BVMulNoOverflow(x, y, False)))
    raise Unsupported("ovf " + op)


import operator
_CM = {"Eq": operator.eq, "Ne": operator.ne, "Lt": operator.lt, "Le": operator.le, "Gt": operator.gt, "Ge": operator.ge}


def scmp(op, a, b, w, signed):
    if isinstance(a, (bool, SB)) or isinstance(b, (bool, SB)):
        if isinstance(a, bool) and isinstance(b, bool):
            return _CM[op](a, b)
        if op == "Eq":
            return b_not(b_xor(a, b))
        if op == "Ne":
            return b_xor(a, b)
        raise Unsupported("bool order")
    f = _CM[op]
    if isinstance(a, int) and isinstance(b, int):
        return f(a, b)
    if not isinstance(a, (int, SV)) or not isinstance(b, (int, SV)):
        raise Unsupported("cmp %s on %r %r" % (op, type(a), type(b)))
    if a is b:
        return op in ("Eq", "Le", "Ge")
    var = None
    if isinstance(a, int) and b.tab is not None:
        var = b.var
        m = [f(a, y) for y in b.tab]
    elif isinstance(b, int) and a.tab is not None:
        var = a.var
        m = [f(x, b) for x in a.tab]
    elif isinstance(a, SV) and isinstance(b, SV) and a.tab is not None and b.tab is not None and a.var == b.var:
        var = a.var
        m = [f(x, y) for x, y in zip(a.tab, b.tab)]
    if var is not None:
        mask = 0
        for i, t in enumerate(m):
            if t:
                mask |= 1 << i
        return mkm(var, mask)
    x, y = vz(a, w), vz(b, w)
    if op == "Eq":
        return mkz(x == y)
    if op == "Ne":
        return mkz(x != y)
    if signed:
        z = {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
    else:
        z = {"Lt": z3.ULT, "Le": z3.ULE, "Gt": z3.UGT, "Ge": z3.UGE}[op](x, y)
    return mkz(z)


def sneg(a, w, signed):
    return sbin("Sub", 0, a, w, signed)


def snot(a, w, signed):
    if isinstance(a, (bool, SB)):
        return b_not(a)
    if isinstance(a, int):
        return norm(~a, w, signed)
    if a.tab is not None:
        return tab_sv(w, a.var, [norm(~x, w, signed) for x in a.tab])
    return SV(w, z=~a.z)


def scast(a, w0, s0, w, s):
    """integer to integer"""
    if isinstance(a, bool):
        return int(a)
    if isinstance(a, int):
        return norm(a, w, s)
    if isinstance(a, SB):
        return SV(w, z=z3.If(a.z, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
    if a.tab is not None:
        if a.tab is IDENT and w >= 8 and not (s and w == 8):
            return SV(w, a.var, IDENT)
        return tab_sv(w, a.var, [norm(x, w, s) for x in a.tab])
    if w == w0:
        return a
    if w < w0:
        return SV(w, z=z3.Extract(w - 1, 0, a.z))
    return SV(w, z=z3.SignExt(w - w0, a.z) if s0 else z3.ZeroExt(w - w0, a.z))


def tabmask(sv, pred):
    mask = 0
    d = EN.dom[sv.var]
    t = sv.tab
    for b in range(256):
        if (d >> b) & 1 and pred(t[b]):
            mask |= 1 << b
    return mask


def pred_sv(sv, pred, zf=None):
    """condition pred(value) for int/SV"""
    if isinstance(sv, int):
        return bool(pred(sv))
    if sv.tab is not None:
        return mkm(sv.var, tabmask(sv, pred))
    sv = EN.bind_small(sv)
    if isinstance(sv, int):
        return bool(pred(sv))
    return mkm(sv.var, tabmask(sv, pred))


def map_sv(sv, f, w):
    if isinstance(sv, int):
        return f(sv)
    if sv.tab is None:
        sv = EN.bind_small(sv)
        if isinstance(sv, int):
            return f(sv)
    return tab_sv(w, sv.var, [f(x) if (EN.dom[sv.var] >> i) & 1 else 0 for i, x in enumerate(sv.tab)])


SLOW = float(os.environ.get("SYMEX_SLOW", "0"))


class Engine:
    def __init__(self):
        self.reset()
        self.out = None
        self.tokens = None
        self.deadline = None
        self.forks = 0
        self.concrete = None
        self.deep = bool(os.environ.get("VH_DEEP"))

    def reset(self):
        self.bytevars = []
        self.dom = []
        self.flushed = []
        self.ent = set()
        self.solver = None
        self.known = {}
        self.tape = []
        self.obs = []
        self.fails = []
        self.queries = 0
        self.qtime = 0.0
        self.paths = 0
        self.branches = 0
        self.children = []
        self.holding = False
        self.nreached = 0
        self.concrete = None
        self.ctape = None
        self.cpos = 0
        self.covnew = set()
        self.binds = {}
        self.nvar = 0
        self.checks = 0
        self.goals = []
        self.proved = 0
        self.stuck = None

    # --- variables
    def byte(self, mask=FULL, name=None):
        n = len(self.bytevars)
        self.bytevars.append(z3.BitVec(name or "b%d" % n, 8))
        self.dom.append(mask)
        self.flushed.append(FULL)
        return SV(8, n, IDENT)

    def word(self, w):
        self.nvar += 1
        return SV(w, z=z3.BitVec("w%d" % self.nvar, w))

    # --- solver
    def sol(self):
        if self.solver is None:
            self.solver = z3.SolverFor("QF_BV")
            self.solver.set("timeout", 60000)
        return self.solver

    def flush(self, vars=None):
        s = self.sol()
        for v in (range(len(self.dom)) if vars is None else vars):
            if self.dom[v] != self.flushed[v]:
                s.add(maskz(self.bytevars[v], self.dom[v]))
                self.flushed[v] = self.dom[v]

    def sat(self, *conds):
        s = self.sol()
        self.flush(self.ent)
        t = time.time()
        r = s.check(*conds)
        self.qtime += time.time() - t
        if SLOW and time.time() - t > SLOW:
            import traceback
            fr = [f"{f.name}" for f in traceback.extract_stack()[-8:]]
            sys.stderr.write("SLOW %.2f %s %s\n" % (time.time() - t, fr, [str(c)[:300] for c in conds]))
        self.queries += 1
        if r == z3.unknown:
            raise Unsupported("solver gave no answer: " + s.reason_unknown())
        return r == z3.sat

    def entangle(self, z):
        """register the byte variables of a z3 term as solver-constrained"""
        todo = [z]
        seen = set()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if x.num_args() == 0:
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = x.decl().name()
                    if n[0] == 'b':
                        self.ent.add(int(n[1:]))
            else:
                todo.extend(x.children())

    def add(self, c):
        """assume (no feasibility check)"""
        if c is True:
            return
        if c is False:
            raise AssumeFailed()
        if c.k == 'm':
            self.dom[c.a] &= c.b
            return
        if c.k == 'a':
            for v, m in c.a:
                self.dom[v] &= m
            return
        z = c.z
        self.entangle(z)
        if c.k == 'z':
            self.known[z.get_id()] = (z, True)
        self.sol().add(z)

    def feasible(self, c):
        if c is True or c is False:
            return c
        if c.k == 'm':
            if self.dom[c.a] & c.b == 0:
                return False
            if c.a not in self.ent:
                return True
            return self.sat(c.z)
        if c.k == 'a':
            ent = False
            for v, m in c.a:
                if self.dom[v] & m == 0:
                    return False
                ent = ent or v in self.ent
            return True if not ent else self.sat(c.z)
        if c.k == 'n':
            ent = False
            some = False
            for v, m in c.a:
                if self.dom[v] & ~m:
                    if v not in self.ent:
                        return True
                    some = True
            if not some:
                return False
            return self.sat(c.z)
        z = c.a
        k = self.known.get(z.get_id())
        if k is not None and k[0].eq(z):
            return k[1]
        old = set(self.ent)
        self.entangle(z)
        try:
            return self.sat(z)
        finally:
            # byte variables used only in a question stay unconstrained, but their domains were flushed
            pass

    def br(self, c):
        if c is True or c is False:
            return c
        if not isinstance(c, SB):
            raise Unsupported("branch on %r" % (c,))
        if c.k == 'm':
            d = self.dom[c.a]
            if d & c.b == 0:
                return False
            if d & ~c.b == 0:
                return True
        elif c.k in 'an':
            fs = []
            for v, m in c.a:
                d = self.dom[v]
                if d & m == 0:
                    return c.k == 'n'
                if d & ~m:
                    fs.append((v, m & d))
            if not fs:
                return c.k == 'a'
            if len(fs) == 1:
                m1 = SB('m', fs[0][0], fs[0][1])
                return self.br(m1 if c.k == 'a' else b_not(m1))
            c = SB(c.k, fs)
        else:
            k = self.known.get(c.a.get_id())
            if k is not None and k[0].eq(c.a):
                return k[1]
        n = b_not(c)
        if isinstance(n, bool):
            return not n
        if not self.feasible(c):
            if c.k == 'z':
                self.known[c.a.get_id()] = (c.a, False)
            elif c.k == 'm':
                self.add(n)
            return False
        if not self.feasible(n):
            if c.k == 'z':
                self.known[c.a.get_id()] = (c.a, True)
            elif c.k in 'ma':
                self.add(c)
            return True
        r = self.fork()
        self.add(c if r else n)
        if c.k == 'z':
            self.known[c.a.get_id()] = (c.a, r)
        return r

    def fork(self):
        """True in the current process, False in the new one"""
        if self.concrete:
            raise Unsupported("fork in a concrete run")
        self.branches += 1
        if self.deadline and time.time() > self.deadline:
            raise Stop("deadline")
        tok = False
        try:
            tok = os.read(self.tokens[0], 1) == b"x"
        except BlockingIOError:
            pass
        self.forks += 1
        pid = os.fork()
        if pid == 0:
            self.children = []
            self.holding = tok
            self.queries = 0
            self.qtime = 0.0
            self.paths = 0
            self.branches = 0
            self.forks = 0
            self.checks = 0
            self.proved = 0
            self.nreached = 0
            self.covnew = set()
            return False
        if tok:
            self.children.append(pid)
        else:
            _, st = os.waitpid(pid, 0)
            if st != 0:
                self.emit(t="err", msg="explorer process ended with status %d" % st)
        return True

    def emit(self, **kw):
        os.write(self.out, (json.dumps(kw) + "\n").encode())

    def finish(self):
        """end of a process: report, return the token, wait for concurrent children"""
        self.emit(t="stat", queries=self.queries, qtime=self.qtime, branches=self.branches, forks=self.forks,
                  checks=self.checks, proved=self.proved, cov=sorted(self.covnew))
        if self.holding:
            os.write(self.tokens[1], b"x")
            self.holding = False
        for p in self.children:
            _, st = os.waitpid(p, 0)
            if st != 0:
                self.emit(t="err", msg="explorer process ended with status %d" % st)

    def discharge(self):
        """end of a path: its condition has a model, and with the negation of the assertions it has none"""
        s = self.sol()
        self.flush()
        s.set("timeout", 3000)
        t = time.time()
        r = s.check()
        self.queries += 1
        if r == z3.unsat:
            raise Unsupported("path condition without a model")
        if self.goals:
            q = s.check(z3.Not(z3.And(self.goals)))
            self.queries += 1
            if q == z3.unsat:
                self.proved += len(self.goals)
            elif q == z3.sat:
                raise Unsupported("solver and domain procedure disagree")
        self.qtime += time.time() - t

    # --- making things concrete
    def conc(self, v, limit=80, what="value"):
        """fork over all values of an integer"""
        if isinstance(v, int):
            return v
        if v.tab is not None:
            while True:
                d = self.dom[v.var]
                x = v.tab[(d & -d).bit_length() - 1]
                if self.br(mkm(v.var, tabmask(v, lambda y: y == x))):
                    return x
        n = 0
        w = v.w
        while True:
            n += 1
            if n > limit:
                raise Unsupported("too many values for " + what)
            if not self.sat():
                raise Unsupported("infeasible path")
            m = self.solver.model()
            x = m.eval(v.z, model_completion=True).as_long()
            if self.br(mkz(v.z == z3.BitVecVal(x, w))):
                return x

    def bind_small(self, v):
        """turn a z3 integer with few (<256) small values into a byte variable with its exact domain"""
        if isinstance(v, int) or v.tab is not None:
            return v
        z = z3.simplify(v.z)
        key = z.get_id()
        r = self.binds.get(key)
        if r is not None and r[0].eq(z):
            return SV(v.w, r[1], IDENT)
        self.entangle(z)
        s = self.sol()
        if v.w > 8 and self.sat(z3.UGT(z, z3.BitVecVal(255, v.w))):
            raise Unsupported("wide symbolic character")
        b = self.byte()
        var = b.var
        zb = self.bytevars[var]
        s.add((zb if v.w == 8 else z3.ZeroExt(v.w - 8, zb)) == z)
        mask = 0
        s.push()
        t = time.time()
        while True:
            self.flush(self.ent)
            r = s.check()
            self.queries += 1
            if r != z3.sat:
                break
            x = s.model().eval(zb, model_completion=True).as_long()
            mask |= 1 << x
            s.add(zb != z3.BitVecVal(x, 8))
        s.pop()
        # domains flushed inside push were popped
        for q in self.ent:
            self.flushed[q] = FULL
        self.qtime += time.time() - t
        if r == z3.unknown:
            raise Unsupported("solver gave no answer")
        self.dom[var] = mask
        self.ent.add(var)
        self.binds[key] = (z, var)
        return tab_sv(v.w, var, IDENT)

    # --- models
    def model(self, *extra):
        """values of the tape under the path condition (and extra z3 conditions); None when unsat"""
        s = self.sol()
        self.flush()
        t = time.time()
        r = s.check(*extra)
        self.qtime += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            raise Unsupported("solver gave no answer")
        if r != z3.sat:
            return None
        m = s.model()
        # prefer readable bytes for unconstrained variables
        def ev(x):
            if isinstance(x, bool):
                return int(x)
            if isinstance(x, int):
                return x
            if isinstance(x, SB):
                return int(z3.is_true(m.eval(x.z, model_completion=True)))
            return m.eval(x.z, model_completion=True).as_long()
        out = []
        for k, v in self.tape:
            if k == 'i':
                out.append("i %d" % ev(v))
            else:
                out.append("b " + bytes(ev(x) for x in v).hex())
        return out


EN = Engine()
