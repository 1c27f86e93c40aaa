"""Transpiles MIR bodies to Python functions over symbolic values, lazily, function by function."""
import os, re, sys
from vals import *
import vals
import mir

sys.setrecursionlimit(200000)


class Ref:
    __slots__ = ("c", "k")

    def __init__(self, c, k):
        self.c = c
        self.k = k


class Slice:
    __slots__ = ("c", "o", "n")

    def __init__(self, c, o, n):
        self.c = c
        self.o = o
        self.n = n


class DynRef:
    __slots__ = ("r", "ty")

    def __init__(self, r, ty):
        self.r = r
        self.ty = ty


class FnVal:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst


class Opaque:
    """a value the executor only carries around"""
    __slots__ = ("tag", "d")

    def __init__(self, tag, d=None):
        self.tag = tag
        self.d = d

    def __repr__(self):
        return "Opaque(%s)" % self.tag


class FloatOf:
    """the float parsed from a symbolic text"""
    __slots__ = ("text", "bits")

    def __init__(self, text, bits):
        self.text = text
        self.bits = bits


UNIT = []
LOCAL = ("vh", "draviavemal_openxml_office")


class Copyable:
    """base of native objects with their own clone"""
    __slots__ = ()

    def dup(self):
        raise Unsupported("clone of %s" % type(self).__name__)


def CP(v):
    """bitwise copy of a Copy value"""
    if type(v) is list:
        return [CP(x) if type(x) is list else x for x in v]
    if isinstance(v, Slice):
        return v
    return v


def IDX(i):
    return i if type(i) is int else EN.conc(i, what="index")


def SW(v, vals):
    """switch on a symbolic integer: the matching case or None"""
    if type(v) is int:
        return v
    if isinstance(v, SB):
        return int(EN.br(v))
    if v is True or v is False:
        return int(v)
    for x in vals:
        if EN.br(scmp("Eq", v, x, v.w, False)):
            return x
    return None


def CADD(op, a, b, w, s):
    if type(a) is int and type(b) is int:
        r = a + b if op == "Add" else a - b if op == "Sub" else a * b
        n = norm(r, w, s)
        return [n, n != r]
    return [sbin(op, a, b, w, s), s_ovf(op, a, b, w, s)]


def PEQ(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.c is b.c and a.k == b.k
    if isinstance(a, (int, bytes)) and isinstance(b, (int, bytes)):
        return a == b
    if isinstance(a, FnVal) and isinstance(b, FnVal):
        return a.inst == b.inst
    raise Unsupported("pointer comparison")


def BOXPTR(x):
    while type(x) is list:
        x = x[0]
    return x


def ISL(s, i):
    return s.c[s.o + i]


class Ex:
    def __init__(self, srv):
        self.srv = srv
        self.fns = {}       # inst -> python function
        self.models = {}
        self.cmodels = {}
        self.consts = {}
        self.statics = {}
        self.nd = {}
        self.simple = {}
        self.depth = 0
        self.trace = os.environ.get("SYMEX_TRACE")

    # ------------------------------------------------------------------ types
    def ty(self, i):
        return self.srv.ty(i)

    def head(self, i):
        t = self.ty(i)
        k = t["k"]
        if k == "adt":
            return t["path"]
        if k in ("int", "uint", "float"):
            return t["str"]
        return k

    def is_simple(self, i):
        """values of this type are never Python lists"""
        r = self.simple.get(i)
        if r is None:
            k = self.ty(i)["k"]
            r = k in ("bool", "char", "int", "uint", "float", "ref", "ptr", "fnptr", "never", "str", "fndef")
            self.simple[i] = r
        return r

    def intinfo(self, i):
        t = self.ty(i)
        k = t["k"]
        if k == "uint":
            return t["bits"], False
        if k == "int":
            return t["bits"], True
        if k == "char":
            return 32, False
        if k == "bool":
            return 8, False
        return None

    def uninhabited(self, i):
        t = self.ty(i)
        if t["k"] == "never":
            return True
        return t["k"] == "adt" and t["adt"] == "enum" and len(t["variants"]) == 0

    def needs_drop(self, i, seen=None):
        r = self.nd.get(i)
        if r is not None:
            return r
        top = seen is None
        if top:
            seen = set()
        if i in seen:
            return False
        seen.add(i)
        t = self.ty(i)
        k = t["k"]
        r = False
        if k == "adt":
            p = t["path"]
            if p in ("alloc::rcs::rc::Rc", "alloc::rcs::rc::Weak", "core::cell::Ref", "core::cell::RefMut", "core::cell::BorrowRef", "core::cell::BorrowRefMut"):
                r = True
            elif p == "core::mem::manually_drop::ManuallyDrop" or p.startswith("core::mem::maybe_uninit"):
                r = False
            elif p == "core::marker::PhantomData":
                r = False
            elif t["drop"] and t.get("crate") in LOCAL:
                r = True
            elif t.get("crate") in ("core", "alloc", "std", "hashbrown") or t["box"]:
                for a in t["args"]:
                    if a is not None and isinstance(a, int) and self.needs_drop(a, seen):
                        r = True
                if not r and t["adt"] != "union" and t.get("crate") == "core":
                    for v in t["variants"]:
                        for f in v["fields"]:
                            if self.needs_drop(f[1], seen):
                                r = True
            elif t.get("crate") in LOCAL:
                for v in t["variants"]:
                    for f in v["fields"]:
                        if self.needs_drop(f[1], seen):
                            r = True
        elif k == "tuple":
            r = any(self.needs_drop(x, seen) for x in t["elems"])
        elif k == "closure":
            r = any(self.needs_drop(x, seen) for x in t["upvars"])
        elif k in ("array", "slice"):
            r = self.needs_drop(t["to"], seen)
        elif k == "dyn":
            r = True
        if r or top:
            self.nd[i] = r
        return r

    # ------------------------------------------------------------------ constants
    def const(self, tyid, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            ii = self.intinfo(tyid) if tyid is not None else None
            if ii:
                return norm(v, ii[0], ii[1]) if self.ty(tyid)["k"] != "bool" else bool(v)
            return v
        if v is None:
            return UNIT
        if isinstance(v, dict):
            if "s" in v:
                return bytes.fromhex(v["s"])
            if "sb" in v:
                b = bytes.fromhex(v["sb"])
                return Slice(b, 0, len(b))
            if "big" in v:
                return int(v["big"])
            if "f" in v:
                import struct
                n = int(v["f"])
                if v["bits"] == 32:
                    return struct.unpack("<f", struct.pack("<I", n & 0xffffffff))[0]
                return struct.unpack("<d", struct.pack("<Q", n & 0xffffffffffffffff))[0]
            t = self.ty(tyid) if tyid is not None else None
            if "t" in v:
                fs = v["t"]
                if t is not None and t["k"] == "adt":
                    ft = [f[1] for f in t["variants"][0]["fields"]]
                elif t is not None and t["k"] == "tuple":
                    ft = t["elems"]
                elif t is not None and t["k"] == "array":
                    ft = [t["to"]] * len(fs)
                elif t is not None and t["k"] == "closure":
                    ft = t["upvars"]
                else:
                    ft = [None] * len(fs)
                r = [self.const(a, b) for a, b in zip(ft, fs)]
                return self.fixadt(t, r)
            if "ab" in v:
                return list(bytes.fromhex(v["ab"]))
            if "e" in v:
                e = v["e"]
                ft = [f[1] for f in t["variants"][e[0]]["fields"]] if t else [None] * (len(e) - 1)
                return [e[0]] + [self.const(a, b) for a, b in zip(ft, e[1:])]
            if "sl" in v:
                et = None
                if t is not None and t["k"] in ("ref", "ptr"):
                    et = self.ty(t["to"]).get("to")
                l = [self.const(et, x) for x in v["sl"]]
                return Slice(l, 0, len(l))
            if "dyn" in v:
                return DynRef(Ref([self.const(v["dyn"], v["r"])], 0), v["dyn"])
            if "r" in v:
                to = t.get("to") if t is not None else None
                return Ref([self.const(to, v["r"])], 0)
            if "st" in v:
                return Ref(self.static(v["st"]), 0)
            if "fn" in v:
                return FnVal(v["fn"])
            if "z" in v:
                return UNIT
            if "u" in v:
                return [self.const(None, v["v"])] if v.get("v") is not None else [None]
            if "undef" in v:
                return None
            if "addr" in v:
                return v["addr"]
            if "unk" in v:
                return Opaque("const " + str(v["unk"]))
        raise Unsupported("constant %r" % (v,))

    def fixadt(self, t, r):
        """constants of modelled library types"""
        if t is not None and t["k"] == "adt":
            p = t["path"]
            f = self.constfix.get(p)
            if f:
                return f(self, t, r)
        return r

    constfix = {}

    def static(self, n):
        c = self.statics.get(n)
        if c is None:
            s = self.srv.q(cmd="static", id=n)
            if "err" in s:
                raise Unsupported("static " + str(s))
            c = [self.const(s["ty"], s["v"])]
            self.statics[n] = c
        return c

    # ------------------------------------------------------------------ calls
    def bind(self, inst, path=None, cargs=None):
        """python callable for an instance; path/cargs: the called (trait) item and its generic arguments"""
        inf = self.srv.inst(inst)
        key = (inst, path if inf.get("titem") or inf["kind"] != "item" else None)
        f = self.fns.get(key)
        if f is not None:
            return f
        f = self.bind1(inst, inf, path, cargs)
        if self.trace:
            f = self.traced(f, inf)
        self.fns[key] = f
        return f

    def traced(self, f, inf):
        ex = self

        def g(*a):
            sys.stderr.write("%s%s\n" % ("  " * ex.depth, inf["path"]))
            ex.depth += 1
            try:
                return f(*a)
            finally:
                ex.depth -= 1
        return g

    def bind1(self, inst, inf, path, cargs):
        p = inf["path"]
        m = self.models.get(p)
        if m is None and inf["kind"] == "intrinsic":
            m = self.models.get("intrinsic::" + inf.get("intrinsic", p.split("::")[-1]))
            if m is None:
                raise Unsupported("intrinsic " + p)
        if m is not None:
            f = m(self, inf)
            if f is not None:
                return f
        if inf["crate"] not in LOCAL or (inf.get("titem") and not inf["has_body"]):
            for tp in (inf.get("titem"), path):
                m = self.cmodels.get(tp) if tp else None
                if m is not None:
                    a = cargs
                    if a is None:
                        a = self.trait_args(inf)
                    f = m(self, inf, a)
                    if f is not None:
                        return f
        if inf["kind"] == "virtual":
            va = [x for x in (cargs if cargs is not None else self.trait_args(inf))]
            return lambda *a: VCALL(self, (p, va), *a)
        if inf.get("shim") or inf["kind"] == "shim":
            sh = inf.get("shim") or ""
            if "drop" in str(sh).lower() or "drop_in_place" in p or "drop_glue" in p:
                tid = inf["args"][0]
                return lambda r: self.drop_ref(r, tid)
        if not inf["has_body"] and p == "core::ops::function::FnOnce::call_once":
            # the function pointer of a closure that captures nothing
            a = [x for x in self.trait_args(inf) if isinstance(x, int)]
            if a and self.ty(a[0])["k"] == "closure":
                return lambda *x: self.call_fn(a[0], [], x)
        if not inf["has_body"]:
            raise Unsupported("no body: %s (%s) [%s]" % (p, inf["full"], inf["kind"]))
        for x in self.nointerp:
            if p.startswith(x):
                raise Unsupported("unmodelled library function %s  (%s)" % (p, inf["full"]))
        return self.lazy(inst, inf)

    nointerp = ()

    def trait_args(self, inf):
        return inf.get("targs", inf["args"])

    def lazy(self, inst, inf):
        ex = self
        cell = [None]

        def first(*a):
            f = ex.compile(inst, inf)
            cell[0] = f
            ex.fns_raw[inst] = f
            return f(*a)
        cell[0] = first

        def call(*a):
            return cell[0](*a)
        ex.cells[id(call)] = cell
        call.__cell__ = cell
        return call

    cells = {}
    fns_raw = {}

    def method(self, trait, name, args):
        i = self.srv.method(trait, name, args)
        if i is None:
            raise Unsupported("no method %s::%s on %s: %s" % (trait, name, [self.ty(a)["str"] for a in args if a is not None], getattr(self.srv, "meth_err", "")))
        return self.bind(i, trait + "::" + name, [a for a in args])

    def mkty(self, op, *args):
        k = ("mkty", op, args)
        r = self.consts.get(k)
        if r is None:
            r = self.srv.q(cmd="mkty", op=op, args=list(args))["ty"]
            self.consts[k] = r
        return r

    def call_fn(self, fty, f, args, byref=False):
        """call a callable value f of type fty with python args.  byref: f is a reference to the callable"""
        t = self.ty(fty)
        k = t["k"]
        if k == "closure":
            key = ("cl", fty)
            b = self.consts.get(key)
            if b is None:
                kind = {"Fn": "ref", "FnMut": "mut", "FnOnce": "once"}[t["ckind"]]
                q = self.srv.q(cmd="closure", ty=fty, kind=kind)
                if "inst" not in q:
                    raise Unsupported("closure " + str(q))
                inst = q["inst"]
                inf = self.srv.inst(inst)
                b = (self.lazy(inst, inf), t["ckind"] == "FnOnce")
                self.consts[key] = b
            fn, once = b
            if once:
                if byref:
                    f = f.c[f.k]
                return fn(f, *args)
            if not byref:
                f = Ref([f], 0)
            return fn(f, *args)
        if k == "fndef":
            if "inst" not in t:
                raise Unsupported("fndef without instance")
            return self.bind(t["inst"])(*args)
        if k == "fnptr":
            if byref:
                f = f.c[f.k]
            return self.call_ptr(f, args)
        if k in ("ref", "ptr"):
            if byref:
                f = f.c[f.k]
            to = self.ty(t["to"])
            if to["k"] == "dyn":
                return self.call_fn(f.ty, f.r, args, True)
            return self.call_fn(t["to"], f, args, True)
        if k == "adt" and t["box"]:
            if byref:
                f = f.c[f.k]
            to = t["args"][0]
            p = f[0][0][0]
            if isinstance(p, DynRef):
                return self.call_fn(p.ty, p.r, args, True)
            return self.call_fn(to, p, args, True)
        if k == "dyn":
            return self.call_fn(f.ty, f.r, args, True)
        raise Unsupported("call of a value of type " + t["str"])

    def call_ptr(self, f, args):
        if isinstance(f, FnVal):
            return self.bind(f.inst)(*args)
        if isinstance(f, Opaque) and f.tag == "closurefn":
            return self.call_fn(f.d[0], f.d[1], args)
        if callable(f):
            return f(*args)
        raise Unsupported("call of %r" % (f,))

    # ------------------------------------------------------------------ drops
    def drop_ref(self, r, tid):
        if isinstance(r, Ref):
            self.drop_val(r.c[r.k], tid)
        elif isinstance(r, Slice):
            e = self.ty(tid).get("to")
            for i in range(r.n):
                self.drop_val(r.c[r.o + i], e)
        elif isinstance(r, DynRef):
            self.drop_ref(r.r, r.ty)
        return UNIT

    def drop_val(self, v, tid):
        if not self.needs_drop(tid) or v is None:
            return
        t = self.ty(tid)
        k = t["k"]
        if k == "adt":
            h = self.drops.get(t["path"])
            if h is not None:
                h(self, v, t)
                return
            if t["drop"] and t["crate"] in LOCAL:
                f = self.method("core::ops::drop::Drop", "drop", [tid])
                f(Ref([v], 0))
            if t["box"]:
                p = v[0][0][0]
                if isinstance(p, DynRef):
                    self.drop_ref(p, p.ty)
                elif isinstance(p, Ref):
                    self.drop_val(p.c[p.k], t["args"][0])
                return
            if type(v) is list:
                if t["adt"] == "enum":
                    vs = t["variants"][v[0]]
                    for i, f in enumerate(vs["fields"]):
                        self.drop_val(v[1 + i], f[1])
                elif t["adt"] == "struct":
                    for i, f in enumerate(t["variants"][0]["fields"]):
                        self.drop_val(v[i], f[1])
                return
            if hasattr(v, "drop_items"):
                v.drop_items(self, t)
                return
            raise Unsupported("drop of %s" % t["str"])
        elif k == "tuple":
            for x, e in zip(v, t["elems"]):
                self.drop_val(x, e)
        elif k == "closure":
            for x, e in zip(v, t["upvars"]):
                self.drop_val(x, e)
        elif k == "array":
            for x in v:
                self.drop_val(x, t["to"])
        else:
            raise Unsupported("drop of " + t["str"])

    drops = {}

    # ------------------------------------------------------------------ compilation
    def compile(self, inst, inf):
        body = self.srv.body(inst)
        if "blocks" not in body:
            raise Unsupported("no body for " + inf["full"])
        src, env = Gen(self, inst, inf, body).run()
        if os.environ.get("SYMEX_DUMP") and os.environ["SYMEX_DUMP"] in inf["path"]:
            sys.stderr.write("### " + inf["full"] + "\n" + src + "\n")
        code = compile(src, "<%s>" % inf["path"], "exec")
        exec(code, env)
        if inf["crate"] == "draviavemal_openxml_office" or "draviavemal" in inf["full"]:
            EN.covnew.add(inf["path"])
        return env["F"]


BASE = None


def base_env():
    global BASE
    if BASE is None:
        BASE = {}
        for m in (vals, sys.modules[__name__]):
            for k, v in vars(m).items():
                if not k.startswith("__"):
                    BASE[k] = v
    return dict(BASE)


def panic(msg):
    raise RustPanic(msg)


class Gen:
    def __init__(self, ex, inst, inf, body):
        self.ex = ex
        self.inf = inf
        self.body = body
        self.env = base_env()
        self.env["EX"] = ex
        self.nk = 0
        self.lines = []

    def k(self, v, pre="K"):
        self.nk += 1
        n = "%s%d" % (pre, self.nk)
        self.env[n] = v
        return n

    def run(self):
        b = self.body
        blocks = b["blocks"]
        cells = set()

        def scan_place_ref(p):
            pr = p[1]
            if not pr:
                cells.add(p[0])
        for st, t in blocks:
            for s in st:
                if s[0] == "=" and s[2][0] == "ref":
                    scan_place_ref(s[2][1])
        self.cells = cells
        # reachable normal blocks
        succ = {}
        reach = []
        seen = {0}
        todo = [0]
        while todo:
            i = todo.pop()
            reach.append(i)
            t = blocks[i][1]
            k = t[0]
            if k == "goto":
                ss = [t[1]]
            elif k == "switch":
                ss = [x[1] for x in t[3]] + [t[4]]
            elif k == "drop":
                ss = [t[3]]
            elif k == "call":
                ss = [] if t[4] is None else [t[4]]
            elif k == "assert":
                ss = [t[4]]
            else:
                ss = []
            succ[i] = ss
            for s in ss:
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        pred = {}
        for i in reach:
            for s in succ[i]:
                pred[s] = pred.get(s, 0) + 1
        heads = {0}
        for s, n in pred.items():
            if n > 1:
                # trivial blocks may be duplicated
                st, t = blocks[s]
                if t[0] in ("ret", "unreachable", "resume") and len(st) == 0:
                    continue
                if t[0] == "goto" and len(st) == 0 and t[1] != s:
                    continue
                heads.add(s)
        if pred.get(0):
            heads.add(0)
        self.heads = heads
        self.blocks = blocks
        segs = {}
        work = [0]
        done = set()
        self.pending = work
        order = []
        while work:
            h = work.pop()
            if h in done:
                continue
            done.add(h)
            self.lines = []
            self.emit_block(h, 0)
            segs[h] = self.lines
            order.append(h)
        args = ["l%d" % (i + 1) for i in range(b["argc"])]
        out = ["def F(%s):" % ", ".join(args)]
        nl = len(b["locals"])
        ind = " "
        for i in sorted(cells):
            if 1 <= i <= b["argc"]:
                out.append(ind + "l%d=[l%d]" % (i, i))
            else:
                out.append(ind + "l%d=[None]" % i)
        rest = [i for i in range(nl) if i not in cells and not (1 <= i <= b["argc"])]
        if rest:
            for j in range(0, len(rest), 40):
                out.append(ind + "=".join("l%d" % i for i in rest[j:j + 40]) + "=None")
        if len(order) == 1 and not any("continue" in l for l in segs[0]):
            out += [ind + l for l in segs[0]]
        else:
            out.append(ind + "bb=0")
            out.append(ind + "while 1:")
            hs = sorted(order)

            def tree(lo, hi, d):
                if hi - lo == 1:
                    out.extend([" " * d + l for l in segs[hs[lo]]])
                    return
                mid = (lo + hi) // 2
                out.append(" " * d + "if bb<%d:" % hs[mid])
                tree(lo, mid, d + 1)
                out.append(" " * d + "else:")
                tree(mid, hi, d + 1)
            tree(0, len(hs), 2)
        return "\n".join(out) + "\n", self.env

    def w(self, d, s):
        self.lines.append(" " * d + s)

    def jump(self, t, d):
        # follow trivial gotos
        n = 0
        while t not in self.heads and n < 50:
            st, tm = self.blocks[t]
            if tm[0] == "goto" and not st:
                t = tm[1]
                n += 1
            else:
                break
        if t in self.heads or d > 40:
            if t not in self.heads:
                self.heads.add(t)
            self.pending.append(t)
            self.w(d, "bb=%d" % t)
            self.w(d, "continue")
        else:
            self.emit_block(t, d)

    def emit_block(self, i, d):
        st, t = self.blocks[i]
        for s in st:
            self.stmt(s, d)
        k = t[0]
        if k == "goto":
            self.jump(t[1], d)
        elif k == "ret":
            self.w(d, "return " + ("l0[0]" if 0 in self.cells else "l0") if self.ex.ty(self.body["locals"][0])["k"] != "tuple" or self.ex.ty(self.body["locals"][0])["elems"] else "return UNIT")
        elif k == "unreachable":
            self.w(d, "raise Unsupported('unreachable reached in %s')" % self.inf["path"].replace("'", ""))
        elif k in ("resume", "abort"):
            self.w(d, "raise Unsupported('unwind')")
        elif k == "switch":
            self.switch(t, d)
        elif k == "drop":
            pl, tid, tgt = t[1], t[2], t[3]
            if self.ex.needs_drop(tid):
                self.w(d, "EX.drop_val(%s,%d)" % (self.read(pl), tid) if self.ex.ty(tid)["k"] not in ("dyn", "slice") else "EX.drop_ref(%s,%d)" % (self.read(pl), tid))
            self.jump(tgt, d)
        elif k == "assert":
            c = self.op(t[1])
            msg = t[3] + " at " + shortloc(t[5])
            m = self.k(msg)
            exp = t[2]
            if exp:
                self.w(d, "if (t:=%s) is not True and not EN.br(t): panic(%s)" % (c, m))
            else:
                self.w(d, "if (t:=%s) is not False and EN.br(t): panic(%s)" % (c, m))
            self.jump(t[4], d)
        elif k == "call":
            self.call(t, d)
        else:
            self.w(d, "raise Unsupported('terminator %s')" % k)

    def switch(self, t, d):
        op, tid, br, other = t[1], t[2], t[3], t[4]
        v = self.op(op)
        ty = self.ex.ty(tid)
        if ty["k"] == "bool":
            f = None
            for val, tg in br:
                if int(val) == 0:
                    f = tg
                else:
                    tr = tg
            if f is None:
                f, tr = other, br[0][1]
            else:
                tr = other if len(br) == 1 else tr
            self.w(d, "t=%s" % v)
            self.w(d, "if t if t.__class__ is bool else EN.br(t):")
            self.jump(tr, d + 1)
            self.w(d, "else:")
            self.jump(f, d + 1)
            return
        ii = self.ex.intinfo(tid)
        if ii is None:
            raise Unsupported("switch on " + ty["str"])
        vals = [norm(int(x[0]), ii[0], ii[1]) for x in br]
        self.w(d, "t=%s" % v)
        self.w(d, "if t.__class__ is not int: t=SW(t,%s)" % ("(" + "".join("%d," % x for x in vals) + ")"))
        # unreachable otherwise: last case becomes else
        st, tm = self.blocks[other]
        pairs = list(zip(vals, [x[1] for x in br]))
        # group by target
        oth_un = tm[0] == "unreachable" and not st
        first = True
        if not pairs:
            self.jump(other, d)
            return
        for n, (val, tg) in enumerate(pairs):
            self.w(d, "%s t==%d:" % ("if" if first else "elif", val))
            first = False
            self.jump(tg, d + 1)
        self.w(d, "else:")
        if oth_un:
            self.w(d + 1, "raise Unsupported('unreachable switch %r in " + self.inf["path"].replace("'", "").replace("%", "") + "' % (t,))")
        else:
            self.jump(other, d + 1)

    # --- places
    def base(self, l):
        return "l%d[0]" % l if l in self.cells else "l%d" % l

    def walk(self, p):
        """returns (container expr, key expr) of the place or (None, expr) when it is a whole unsized value"""
        local, proj = p[0], p[1]
        cur = self.base(local)
        slot = ("l%d" % local, "0") if local in self.cells else None
        curty = self.body["locals"][local]
        variant = None
        n = len(proj)
        i = 0
        while i < n:
            e = proj[i]
            k = e[0]
            if k == "d":
                bt = self.ex.ty(e[1])
                to = bt.get("to")
                if bt["k"] == "adt" and bt.get("box"):
                    cur = cur + "[0][0][0]"
                    to = bt["args"][0]
                tk = self.ex.ty(to)["k"] if to is not None else None
                if tk in ("str", "slice", "dyn"):
                    # the fat reference stands for the place
                    slot = (None, cur)
                else:
                    t = cur
                    if not re.fullmatch(r"l\d+|l\d+\[0\]", t):
                        self.nt = getattr(self, "nt", 0) + 1
                        nm = "t%d" % self.nt
                        slot = ("(%s:=%s).c" % (nm, t), "%s.k" % nm)
                    else:
                        slot = (t + ".c", t + ".k")
                    cur = "%s[%s]" % slot
                variant = None
            elif k == "f":
                bt = self.ex.ty(e[3])
                idx = e[1]
                if variant is not None or (bt["k"] == "adt" and bt["adt"] == "enum"):
                    idx += 1
                elif bt["k"] == "adt" and bt["adt"] == "union":
                    idx = 0
                slot = (cur, str(idx))
                cur = "%s[%s]" % slot
                variant = None
            elif k == "v":
                variant = e[1]
            elif k == "i":
                bt = self.ex.ty(e[2])
                iv = self.base(e[1])
                iv = "(%s if %s.__class__ is int else IDX(%s))" % (iv, iv, iv)
                if bt["k"] == "array":
                    slot = (cur, iv)
                else:
                    if re.fullmatch(r"l\d+|l\d+\[0\]", cur):
                        slot = (cur + ".c", "%s.o+%s" % (cur, iv))
                    else:
                        self.nt = getattr(self, "nt", 0) + 1
                        nm = "t%d" % self.nt
                        slot = ("(%s:=%s).c" % (nm, cur), "%s.o+%s" % (nm, iv))
                cur = "%s[%s]" % slot
            elif k == "c":
                bt = self.ex.ty(e[4])
                off, fe = e[1], e[3]
                if bt["k"] == "array":
                    slot = (cur, str(-off if fe else off))
                else:
                    self.nt = getattr(self, "nt", 0) + 1
                    nm = "t%d" % self.nt
                    slot = ("(%s:=%s).c" % (nm, cur), "%s.o+%s" % (nm, ("%s.n-%d" % (nm, off)) if fe else str(off)))
                cur = "%s[%s]" % slot
            elif k == "s":
                bt = self.ex.ty(e[4])
                a, b, fe = e[1], e[2], e[3]
                cur = "SUBSL(%s,%d,%d,%r,%r)" % (cur, a, b, bool(fe), bt["k"] == "array")
                slot = (None, cur)
            elif k == "o":
                pass
            else:
                raise Unsupported("projection " + k)
            i += 1
        return slot, cur

    def read(self, p):
        return self.walk(p)[1]

    def ref(self, p):
        if not p[1]:
            return "Ref(l%d,0)" % p[0]
        # reborrow of a whole deref
        last = p[1][-1]
        if last[0] == "d":
            bt = self.ex.ty(last[1])
            if bt["k"] in ("ref", "ptr"):
                return self.walk([p[0], p[1][:-1], None])[1]
            if bt["k"] == "adt" and bt.get("box"):
                return self.walk([p[0], p[1][:-1], None])[1] + "[0][0][0]"
        slot, cur = self.walk(p)
        if slot is None:
            raise Unsupported("ref of a bare local")
        if slot[0] is None:
            return cur
        return "Ref(%s,%s)" % slot

    def write(self, p, val, d):
        if not p[1]:
            if p[0] in self.cells:
                self.w(d, "l%d[0]=%s" % (p[0], val))
            else:
                self.w(d, "l%d=%s" % (p[0], val))
            return
        slot, cur = self.walk(p)
        if slot[0] is None:
            raise Unsupported("write to unsized place")
        self.w(d, "%s[%s]=%s" % (slot[0], slot[1], val) if not slot[0].startswith("(t") else "q=%s; %s[%s]=q" % (val, slot[0], slot[1]))

    # --- operands
    def op(self, o):
        k = o[0]
        if k == "m":
            return self.read(o[1])
        if k == "c":
            r = self.read(o[1])
            if self.ex.is_simple(o[1][2]):
                return r
            return "CP(%s)" % r
        if k == "k":
            v = self.ex.const(o[1], o[2])
            if v is UNIT:
                return "UNIT"
            if type(v) is int or type(v) is bool:
                return repr(v) if not (type(v) is int and v < 0) else "(%d)" % v
            if type(v) is bytes and len(v) < 60:
                return self.k(v)
            n = self.k(v)
            if type(v) is list:
                return "CP(%s)" % n
            return n
        if k == "rt":
            return "False" if "Overflow" not in o[1] else "True"
        raise Unsupported("operand " + str(o))

    def opty(self, o):
        if o[0] in "mc":
            return o[1][2]
        if o[0] == "k":
            return o[1]
        return None

    SYM = {"Add": "+", "Sub": "-", "Mul": "*", "BitAnd": "&", "BitOr": "|", "BitXor": "^",
           "Eq": "==", "Ne": "!=", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}

    def stmt(self, s, d):
        k = s[0]
        if k == "=":
            self.write(s[1], self.rv(s[2], s[1], d), d)
        elif k == "sd":
            slot, cur = self.walk(s[1])
            self.w(d, "%s[0]=%d" % (cur, s[2]))
        elif k == "sl":
            if s[1] in self.cells:
                self.w(d, "l%d=[None]" % s[1])
        elif k == "cno":
            self.w(d, "raise Unsupported('copy_nonoverlapping')")
        else:
            raise Unsupported("statement " + k)

    def tmp(self, e, d):
        if re.fullmatch(r"l\d+|-?\d+|\(-\d+\)|True|False|K\d+", e):
            return e
        self.nt = getattr(self, "nt", 0) + 1
        n = "t%d" % self.nt
        self.w(d, "%s=%s" % (n, e))
        return n

    def rv(self, r, dest, d):
        k = r[0]
        ex = self.ex
        if k == "use":
            return self.op(r[1])
        if k == "ref":
            return self.ref(r[1])
        if k in ("arr", "tup"):
            return "[" + ",".join(self.op(x) for x in r[1]) + "]"
        if k == "adt":
            ops = [self.op(x) for x in r[1]]
            if r[4] == "enum":
                return "[" + ",".join([str(r[3])] + ops) + "]"
            return "[" + ",".join(ops) + "]"
        if k == "rawptr":
            return "RAWPTR(%s)" % ",".join(self.op(x) for x in r[1])
        if k in ("bin", "cbin"):
            op, a, b, ta, tb = r[1], r[2], r[3], r[4], r[5]
            x, y = self.op(a), self.op(b)
            t = ex.ty(ta)
            if t["k"] in ("ref", "ptr", "fnptr"):
                if op in ("Eq", "Ne"):
                    return "PEQ(%s,%s)" % (x, y) if op == "Eq" else "(not PEQ(%s,%s))" % (x, y)
                if op == "Offset":
                    return "OFFSET(%s,%s)" % (x, y)
                return "UNSUP('pointer op %s')" % op
            if t["k"] == "float":
                if op in self.SYM:
                    return "FBIN('%s',%s,%s,%d)" % (op, x, y, t["bits"])
                return "FBIN('%s',%s,%s,%d)" % (op, x, y, t["bits"])
            ii = ex.intinfo(ta)
            if ii is None:
                return "UNSUP('bin op %s on %s')" % (op, t["str"].replace("'", ""))
            w, s = ii
            x = self.tmp(x, d)
            y = self.tmp(y, d)
            isb = t["k"] == "bool"
            if op == "Cmp":
                return "CMP3(%s,%s,%d,%r)" % (x, y, w, s)
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                if isb:
                    return "scmp('%s',%s,%s,%d,False)" % (op, x, y, w)
                guard = " and ".join("%s.__class__ is int" % q for q in (x, y) if not re.fullmatch(r"-?\d+|\(-\d+\)", q))
                if not guard:
                    return "(%s%s%s)" % (x, self.SYM[op], y)
                return "(%s%s%s if %s else scmp('%s',%s,%s,%d,%r))" % (x, self.SYM[op], y, guard, op, x, y, w, s)
            if k == "cbin" or op.endswith("WithOverflow"):
                return "CADD('%s',%s,%s,%d,%r)" % (op.replace("WithOverflow", ""), x, y, w, s)
            if isb:
                return "sbin('%s',%s,%s,%d,False)" % (op, x, y, w)
            return "sbin('%s',%s,%s,%d,%r)" % (op, x, y, w, s)
        if k == "un":
            op, a, ta = r[1], r[2], r[3]
            x = self.op(a)
            if op == "PtrMetadata":
                return "META(%s)" % x
            t = ex.ty(ta)
            if t["k"] == "float":
                return "(-%s)" % x
            w, s = ex.intinfo(ta)
            if op == "Not":
                if t["k"] == "bool":
                    x = self.tmp(x, d)
                    return "(not %s if %s.__class__ is bool else b_not(%s))" % (x, x, x)
                return "snot(%s,%d,%r)" % (x, w, s)
            return "sneg(%s,%d,%r)" % (x, w, s)
        if k == "len":
            return "META(%s)" % self.read(r[1])
        if k == "rep":
            x = self.op(r[1])
            return "[%s]*%d" % (x, r[2]) if self.ex.is_simple(self.opty(r[1])) else "[CP(%s) for _ in range(%d)]" % (x, r[2])
        if k == "discr":
            t = ex.ty(r[2])
            if t["k"] != "adt" or t["adt"] != "enum":
                return "0"
            x = self.read(r[1])
            ds = []
            w, s = ex.intinfo(t["dty"])
            for i, v in enumerate(t["variants"]):
                ds.append(norm(int(v["discr"]), w, s))
            inh = [i for i, v in enumerate(t["variants"]) if not any(ex.uninhabited(f[1]) for f in v["fields"])]
            if len(inh) == 1 and len(ds) > 1:
                return "(%d)" % ds[inh[0]]
            if ds == list(range(len(ds))):
                return "%s[0]" % x
            return "%s[%s[0]]" % (self.k(ds), x)
        if k == "cast":
            return self.cast(r, d)
        if k == "tls":
            return "UNSUP('thread local')"
        raise Unsupported("rvalue " + k)

    def cast(self, r, d):
        kind, o, tf, tt = r[1], r[2], r[3], r[4]
        ex = self.ex
        x = self.op(o)
        f, t = ex.ty(tf), ex.ty(tt)
        if kind == "IntToInt" or (kind.startswith("Transmute") and ex.intinfo(tf) and ex.intinfo(tt)):
            fi, ti = ex.intinfo(tf), ex.intinfo(tt)
            if fi is None and f["k"] == "adt":  # C-like enum
                ds = [int(v["discr"]) for v in f["variants"]]
                return "%s[%s[0]]" % (self.k(ds), x)
            if f["k"] == "bool":
                return "scast(%s,8,False,%d,%r)" % (x, ti[0], ti[1])
            if t["k"] == "bool":
                return "scmp('Ne',%s,0,%d,False)" % (x, fi[0])
            return "scast(%s,%d,%r,%d,%r)" % (x, fi[0], fi[1], ti[0], ti[1])
        if kind == "IntToFloat":
            return "I2F(%s,%d)" % (x, t["bits"])
        if kind == "FloatToInt":
            w, s = ex.intinfo(tt)
            return "F2I(%s,%d,%r)" % (x, w, s)
        if kind == "FloatToFloat":
            return "F2F(%s,%d,%d)" % (x, f["bits"], t["bits"])
        if "Unsize" in kind:
            return "UNSIZE(%s,%d,%d)" % (x, tf, tt)
        if "ReifyFnPointer" in kind:
            if "inst" not in f:
                return "UNSUP('reify')"
            return "FnVal(%d)" % f["inst"]
        if "ClosureFnPointer" in kind:
            return "Opaque('closurefn',(%d,%s))" % (tf, x)
        if kind.startswith("PtrToPtr") or "MutToConst" in kind or "UnsafeFnPointer" in kind or kind.startswith("FnPtrToPtr"):
            # fat to thin drops the metadata
            return "PTRCAST(%s,%d,%d)" % (x, tf, tt)
        if kind.startswith("BoxDerefTransmute"):
            return "BOXPTR(%s)" % x
        if kind.startswith("Transmute") or kind.startswith("Subtype"):
            return "TRANSMUTE(%s,%d,%d)" % (x, tf, tt)
        return "UNSUP('cast %s')" % kind.replace("'", "")

    # --- calls
    def call(self, t, d):
        f, args, dest, tgt, loc, at = t[1], t[2], t[3], t[4], t[5], t[6]
        a = [self.op(x) for x in args]
        ex = self.ex
        if "err" in f:
            e = "UNSUP('unresolved call')"
        elif "ptr" in f:
            e = "EX.call_ptr(%s,(%s))" % (self.op(f["ptr"]), "".join(x + "," for x in a))
        else:
            inst = f["inst"]
            path = mir.strip_generics(f["path"])
            if path in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call"):
                selfty = f["args"][0]
                byref = not path.endswith("call_once")
                st = ex.ty(selfty)
                e = "EX.call_fn(%d,%s,%s,%r)" % (selfty, a[0], a[1], byref)
            else:
                inf = ex.srv.inst(inst)
                if inf["kind"] == "virtual" or (inf.get("titem") is None and False):
                    e = "VCALL(EX,%s,%s)" % (self.k((path, f["args"])), ",".join(a))
                else:
                    n = self.k(None, "C")
                    env = self.env
                    cargs = f["args"]
                    shl = shortloc(loc)
                    fname = self.inf["path"]

                    def resolve(*aa, n=n, inst=inst, path=path, cargs=cargs):
                        g = ex.bind(inst, path, cargs)
                        c = getattr(g, "__cell__", None)
                        if c is not None and not ex.trace:
                            r = c[0](*aa)
                            env[n] = c[0]
                            return r
                        env[n] = g
                        return g(*aa)
                    env[n] = resolve
                    e = "%s(%s)" % (n, ",".join(a))
        if tgt is None:
            self.w(d, "LOC(%s); %s" % (self.k(shortloc(loc)), e) if False else e)
            self.w(d, "raise Unsupported('diverging call returned')")
            return
        # unit results need no store, but keep it simple
        self.write(dest, e, d)
        self.jump(tgt, d)


def shortloc(s):
    m = re.search(r"([^\s\"]*?)([\w\.]+/[\w\.]+\.rs:\d+)", s)
    return m.group(2) if m else s[-60:]
