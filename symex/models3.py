"""Models: files, zip, gzip, clocks, the XML reader crate, and the scenario primitives."""
import hashlib
from vals import *
from core import *
import core
from strs import *
from models import *
from models import M, CM, m, mf, cm
import models2
from models2 import ListIt, NATIVE_ITERS


class World:
    """file system and token tables of one path"""

    def __init__(self):
        self.fs = {}          # path -> [bytes-or-tuple] content holder
        self.dirs = set()
        self.zips = {}        # token -> [(name, text)]
        self.gz = {}          # token -> text
        self.limit = None      # size no file can grow beyond
        self.ops = []


WORLD = [World()]


def reset_world():
    WORLD[0] = World()


def path_text(p):
    s = S(p)
    if type(s) is not bytes:
        raise Unsupported("symbolic file name")
    return s


def ioerr():
    return err(Opaque("io::Error"))


def text_of(x):
    """bytes/tuple content of a &[u8], &str, Vec.. argument"""
    return S(x)


# ---------------------------------------------------------------- paths and files
class FileObj(Opaque):
    def __init__(self, path, write, holder):
        self.tag = "file"
        self.d = None
        self.path = path
        self.write = write
        self.holder = holder
        self.pos = 0


def f_create(p):
    w = WORLD[0]
    p = path_text(p)
    w.ops.append(("create", p))
    if p in w.dirs or parent_missing(p):
        return ioerr()
    h = w.fs.get(p)
    if h is None:
        h = [b""]
        w.fs[p] = h
    else:
        h[0] = b""
    return ok(FileObj(p, True, h))


def parent_missing(p):
    par = p.rsplit(b"/", 1)[0] if b"/" in p else b"."
    return par not in (b"", b".", b"/tmp", b"/S") and par not in WORLD[0].dirs


def f_open(p):
    w = WORLD[0]
    p = path_text(p)
    if p in w.dirs:
        return ok(FileObj(p, False, None))
    h = w.fs.get(p)
    if h is None:
        return ioerr()
    return ok(FileObj(p, False, h))


M["std::fs::File::create"] = lambda ex, inf: f_create
M["std::fs::File::create_new"] = lambda ex, inf: (lambda p: ioerr() if path_text(p) in WORLD[0].fs else f_create(p))
M["std::fs::File::open"] = lambda ex, inf: f_open


@m("std::fs::metadata", "std::path::Path::metadata", "std::fs::symlink_metadata")
def _(p):
    w = WORLD[0]
    p = path_text(p)
    if p in w.dirs:
        return ok(Opaque("metadata", ("dir", 0)))
    if p in w.fs:
        return ok(Opaque("metadata", ("file", len(w.fs[p][0]))))
    return ioerr()


@m("std::fs::Metadata::is_file")
def _(x):
    return get(x).d[0] == "file"


@m("std::fs::Metadata::is_dir")
def _(x):
    return get(x).d[0] == "dir"


@m("std::fs::Metadata::len")
def _(x):
    return get(x).d[1]


@m("std::fs::exists")
def _(p):
    p = path_text(p)
    return ok(p in WORLD[0].fs or p in WORLD[0].dirs)


@m("std::path::Path::exists", "std::path::Path::try_exists")
def _(p):
    p = path_text(p)
    return p in WORLD[0].fs or p in WORLD[0].dirs


@m("std::path::Path::is_file")
def _(p):
    return path_text(p) in WORLD[0].fs


@m("std::path::Path::is_dir")
def _(p):
    return path_text(p) in WORLD[0].dirs


@m("std::path::Path::new", "std::path::PathBuf::as_path", "std::path::Path::as_os_str")
def _(p):
    return S(p)


@m("std::path::Path::to_path_buf", "std::path::Path::to_owned")
def _(p):
    return newstr(S(p))


@m("std::path::Path::to_str")
def _(p):
    return some(S(p))


@m("std::path::Path::to_string_lossy", "std::path::Path::display")
def _(p):
    return [0, S(p)]


@m("std::path::Path::join")
def _(p, q):
    a, b = path_text(p), path_text(q)
    return newstr(b if b.startswith(b"/") else a.rstrip(b"/") + b"/" + b if a else b)


@m("std::path::Path::parent")
def _(p):
    a = path_text(p)
    if b"/" not in a:
        return some(b"") if a else none()
    return some(a.rsplit(b"/", 1)[0] or b"/")


@m("std::path::Path::file_name")
def _(p):
    a = path_text(p)
    return some(a.rsplit(b"/", 1)[-1]) if a else none()


@m("std::path::Path::extension")
def _(p):
    a = path_text(p).rsplit(b"/", 1)[-1]
    return some(a.rsplit(b".", 1)[1]) if b"." in a[1:] else none()


@m("std::path::Path::with_extension")
def _(p, e):
    a = path_text(p)
    d, _, f = a.rpartition(b"/")
    f = f.rsplit(b".", 1)[0] if b"." in f[1:] else f
    e = path_text(e)
    return newstr((d + b"/" if d else b"") + f + (b"." + e if e else b""))


@m("std::path::Path::with_file_name")
def _(p, e):
    a = path_text(p)
    d, _, f = a.rpartition(b"/")
    return newstr((d + b"/" if d else b"") + path_text(e))


@m("std::fs::remove_file")
def _(p):
    w = WORLD[0]
    p = path_text(p)
    w.ops.append(("remove", p))
    if p in w.fs:
        del w.fs[p]
        return ok(UNIT)
    return ioerr()


@m("std::fs::rename")
def _(a, b):
    w = WORLD[0]
    a, b = path_text(a), path_text(b)
    w.ops.append(("rename", a, b))
    if a not in w.fs or b in w.dirs or parent_missing(b):
        return ioerr()
    w.fs[b] = w.fs.pop(a)
    return ok(UNIT)


@m("std::fs::copy")
def _(a, b):
    w = WORLD[0]
    a, b = path_text(a), path_text(b)
    w.ops.append(("copy", a, b))
    if a not in w.fs or b in w.dirs or parent_missing(b) or (w.limit is not None and len(w.fs[a][0]) > w.limit):
        return ioerr()
    w.fs[b] = [w.fs[a][0]]
    return ok(len(w.fs[a][0]))


@m("std::fs::write")
def _(p, c):
    r = f_create(p)
    if r[0] != 0:
        return r
    return file_write(r[1], S(c))


@m("std::fs::read")
def _(p):
    r = f_open(p)
    if r[0] != 0 or r[1].holder is None:
        return ioerr()
    return ok(newstr(r[1].holder[0]))


@m("std::fs::create_dir", "std::fs::create_dir_all")
def _(p):
    WORLD[0].dirs.add(path_text(p))
    return ok(UNIT)


@m("std::fs::remove_dir_all", "std::fs::remove_dir")
def _(p):
    p = path_text(p)
    WORLD[0].dirs.discard(p)
    return ok(UNIT)


@m("std::process::id")
def _():
    return 4242


class OpenOpts(Opaque):
    def __init__(self):
        self.tag = "openoptions"
        self.d = {}


@m("std::fs::OpenOptions::new", "std::fs::File::options")
def _():
    return OpenOpts()


for _n in ("read", "write", "append", "truncate", "create", "create_new"):
    def _mk(n):
        def f(r, v):
            get(r).d[n] = v
            return r
        return lambda ex, inf: f
    M["std::fs::OpenOptions::" + _n] = _mk(_n)


@m("std::fs::OpenOptions::open")
def _(r, p):
    o = get(r).d
    w = WORLD[0]
    pt = path_text(p)
    if pt in w.dirs:
        return ioerr()
    ex_ = pt in w.fs
    if o.get("create_new"):
        if ex_:
            return ioerr()
        return f_create(p)
    if not ex_:
        if not (o.get("create") and (o.get("write") or o.get("append"))):
            return ioerr()
        return f_create(p)
    if o.get("truncate"):
        return f_create(p)
    f = FileObj(pt, bool(o.get("write") or o.get("append")), w.fs[pt])
    if o.get("append"):
        f.pos = len(f.holder[0])
    return ok(f)


def file_write(f, s):
    w = WORLD[0]
    w.ops.append(("write", f.path))
    if not f.write or f.holder is None:
        return ioerr()
    c = f.holder[0]
    if w.limit is not None and f.pos + len(s) > w.limit:
        # what fits is written, then the error is reported
        n = max(w.limit - f.pos, 0)
        f.holder[0] = cat(mks(c[:f.pos]), mks(s[:n]), mks(c[f.pos + n:]))
        f.pos += n
        return ioerr()
    f.holder[0] = cat(mks(c[:f.pos]), s, mks(c[f.pos + len(s):]))
    f.pos += len(s)
    return ok(UNIT)


for _n in ("sync_all", "sync_data", "flush"):
    M["std::fs::File::" + _n] = lambda ex, inf: (lambda r: ok(UNIT))


@m("std::fs::File::set_len")
def _(r, n):
    f = get(r)
    f.holder[0] = mks(f.holder[0][:n])
    return ok(UNIT)


@m("std::fs::File::metadata")
def _(r):
    f = get(r)
    return ok(Opaque("metadata", ("dir", 0) if f.holder is None else ("file", len(f.holder[0]))))


# ---------------------------------------------------------------- Read / Write
def native_write(ex, v, s):
    """write all of text s to a modelled writer value; result python Result"""
    if isinstance(v, FileObj):
        return file_write(v, s)
    if isinstance(v, ZipW):
        if v.cur is None:
            return ioerr()
        v.cur[1].append(s)
        return ok(UNIT)
    if isinstance(v, GzE):
        v.parts.append(s)
        return ok(UNIT)
    if isinstance(v, VecObj):
        vpush(v, s)
        return ok(UNIT)
    if isinstance(v, CursorObj):
        inner = v.inner
        while isinstance(inner, Ref):
            inner = get(inner)
        if not isinstance(inner, VecObj):
            raise Unsupported("cursor over something unusual")
        old = S(inner)
        new = cat(mks(old[:v.pos]), s, mks(old[v.pos + len(s):]))
        inner.l = bytearray(new) if type(new) is bytes else list(new)
        v.pos += len(s)
        return ok(UNIT)
    if isinstance(v, BufW):
        return native_write(ex, v.inner, s)
    if isinstance(v, Ref):
        return native_write(ex, get(v), s)
    return None


class BufW(Opaque):
    def __init__(self, inner):
        self.tag = "bufwriter"
        self.d = None
        self.inner = inner


M["std::io::buffered::bufwriter::BufWriter::new"] = lambda ex, inf: (lambda x: BufW(x))
M["alloc::io::buffered::bufwriter::BufWriter::new"] = lambda ex, inf: (lambda x: BufW(x))
M["std::io::buffered::bufreader::BufReader::new"] = lambda ex, inf: (lambda x: x)
M["alloc::io::buffered::bufreader::BufReader::new"] = lambda ex, inf: (lambda x: x)


def _write_all(ex, inf, a=None):
    def f(w, b):
        r = native_write(ex, get(w), S(b))
        if r is None:
            raise Unsupported("write to %r" % type(get(w)))
        return r
    return f


def _write(ex, inf, a=None):
    def f(w, b):
        s = S(b)
        r = native_write(ex, get(w), s)
        if r is None:
            raise Unsupported("write to %r" % type(get(w)))
        return r if r[0] else ok(len(s))
    return f


def _write_fmt(ex, inf, a=None):
    ty = (a or inf["args"])[0]

    def f(w, fa):
        v = get(w)
        s = fmt(ex, fa)
        r = native_write(ex, v, s)
        if r is None:
            raise Unsupported("write_fmt to %r" % type(v))
        return r
    return f


def _flush(ex, inf, a=None):
    return lambda w: ok(UNIT)


for _p in ("core::io::write::Write::", "std::io::Write::", "alloc::io::Write::", "alloc::io::write::Write::"):
    CM[_p + "write_all"] = _write_all
    CM[_p + "write"] = _write
    CM[_p + "write_fmt"] = _write_fmt
    CM[_p + "flush"] = _flush


def _read_all(v):
    """(text, error)"""
    if isinstance(v, ZipF):
        t = v.text[v.pos:] if v.pos else v.text
        v.pos = len(v.text)
        return mks(t)
    if isinstance(v, FileObj):
        if v.holder is None:
            return None
        t = mks(v.holder[0][v.pos:])
        v.pos = len(v.holder[0])
        return t
    if isinstance(v, GzD):
        if v.text is None:
            v.text = WORLD[0].gz.get(v.src if type(v.src) is bytes else None)
            if v.text is None:
                return None
        t = v.text
        v.text = b""
        return t
    if isinstance(v, CursorObj):
        s = S(v.inner)
        t = mks(s[v.pos:])
        v.pos = len(s)
        return t
    if isinstance(v, Ref):
        return _read_all(get(v))
    raise Unsupported("read from %r" % type(v))


def _read_to_end(ex, inf, a=None):
    def f(r, out):
        t = _read_all(get(r))
        if t is None:
            return ioerr()
        vpush(get(out), t)
        return ok(len(t))
    return f


def _read_to_string(ex, inf, a=None):
    def f(r, out):
        t = _read_all(get(r))
        if t is None or valid_utf8(t) is not None:
            return ioerr()
        vpush(get(out), t)
        return ok(len(t))
    return f


for _p in ("alloc::io::read::Read::", "std::io::Read::", "core::io::read::Read::"):
    CM[_p + "read_to_end"] = _read_to_end
    CM[_p + "read_to_string"] = _read_to_string
M["<zip::read::ZipFile<'_> as alloc::io::read::Read>::read_to_end"] = lambda ex, inf: _read_to_end(ex, inf)
M["std::io::read_to_string"] = lambda ex, inf: (lambda r: (lambda t: ioerr() if t is None or valid_utf8(t) is not None else ok(newstr(t)))(_read_all(r)))


def _copy(ex, inf, a=None):
    def f(r, w):
        t = _read_all(get(r))
        if t is None:
            return ioerr()
        x = native_write(ex, get(w), t)
        return x if x[0] else ok(len(t))
    return f


M["std::io::copy::copy"] = _copy
M["std::io::copy"] = _copy
M["alloc::io::copy::copy"] = _copy


class CursorObj(Opaque):
    def __init__(self, inner):
        self.tag = "cursor"
        self.d = None
        self.inner = inner
        self.pos = 0


@m("core::io::cursor::Cursor::new", "std::io::cursor::Cursor::new", "std::io::Cursor::new")
def _(x):
    return CursorObj(x)


@m("core::io::cursor::Cursor::into_inner", "std::io::cursor::Cursor::into_inner")
def _(c):
    return c.inner


@mf("core::io::cursor::Cursor::get_ref", "core::io::cursor::Cursor::get_mut")
def _(ex, inf):
    def f(r):
        c = get(r)

        class H(list):
            pass
        return AttrRef(c, "inner")
    return f


class AttrSlot:
    __slots__ = ("o", "n")

    def __init__(self, o, n):
        self.o = o
        self.n = n

    def __getitem__(self, k):
        return getattr(self.o, self.n)

    def __setitem__(self, k, v):
        setattr(self.o, self.n, v)


def AttrRef(o, n):
    return Ref(AttrSlot(o, n), 0)


@m("core::io::cursor::Cursor::set_position")
def _(r, n):
    get(r).pos = IDX(n)
    return UNIT


@m("core::io::cursor::Cursor::position")
def _(r):
    return get(r).pos


# ---------------------------------------------------------------- gzip
class GzE(Opaque):
    def __init__(self, inner):
        self.tag = "gzenc"
        self.d = None
        self.inner = inner
        self.parts = []


class GzD(Opaque):
    def __init__(self, src):
        self.tag = "gzdec"
        self.d = None
        self.src = src
        self.text = None


@m("flate2::Compression::new")
def _(n):
    return Opaque("compression")


M["flate2::Compression::default"] = lambda ex, inf: (lambda: Opaque("compression"))
M["flate2::Compression::fast"] = M["flate2::Compression::default"]
M["flate2::Compression::best"] = M["flate2::Compression::default"]
M["flate2::Compression::none"] = M["flate2::Compression::default"]
M["<flate2::Compression as core::default::Default>::default"] = M["flate2::Compression::default"]


@m("flate2::gz::write::GzEncoder::new", "flate2::zlib::write::ZlibEncoder::new", "flate2::deflate::write::DeflateEncoder::new")
def _(w, c):
    return GzE(w)


@m("flate2::gz::write::GzEncoder::finish")
def _(g):
    t = cat(*g.parts) if g.parts else b""
    w = WORLD[0]
    tok = b"\x1f\x8bGZ:%d;" % len(w.gz)
    w.gz[tok] = t
    r = native_write(None, g.inner, tok)
    if r is None:
        raise Unsupported("gzip sink")
    return ok(g.inner)


@m("flate2::gz::bufread::GzDecoder::new", "flate2::gz::read::GzDecoder::new")
def _(src):
    return GzD(S(src))


# ---------------------------------------------------------------- zip
class ZipW(Opaque):
    def __init__(self, sink):
        self.tag = "zipw"
        self.d = None
        self.sink = sink
        self.ents = []
        self.cur = None


class ZipA(Opaque):
    def __init__(self, ents):
        self.tag = "zipa"
        self.d = None
        self.ents = ents


class ZipF(Opaque):
    def __init__(self, name, text):
        self.tag = "zipf"
        self.d = None
        self.name = name
        self.text = text
        self.pos = 0


ZW = "zip::write::<impl zip::write::zip_writer::ZipWriter<W>>::"
ZR = "zip::read::<impl zip::read::zip_archive::ZipArchive<R>>::"


@m(ZW + "new", "zip::write::zip_writer::ZipWriter::new")
def _(sink):
    return ZipW(sink)


@m(ZW + "start_file")
def _(r, name, opts):
    z = get(r)
    n = S(name)
    for e in z.ents:
        if EN.br(eqs(e[0], n)):
            return err(Opaque("ZipError"))
    z.cur = [n, []]
    z.ents.append(z.cur)
    return ok(UNIT)


@m(ZW + "add_directory")
def _(r, name, opts):
    z = get(r)
    n = S(name)
    if not (len(n) and n[-1] == 47):
        n = cat(n, b"/")
    z.ents.append([n, []])
    z.cur = None
    return ok(UNIT)


def zip_finish(z):
    w = WORLD[0]
    tok = b"PK\x03\x04ZIP:%d;" % len(w.zips)
    w.zips[tok] = [(n, cat(*p) if p else b"") for n, p in z.ents]
    r = native_write(None, z.sink, tok)
    if r is None:
        raise Unsupported("zip sink %r" % type(z.sink))
    return r


@m(ZW + "finish")
def _(z):
    r = zip_finish(z)
    if r[0]:
        return err(Opaque("ZipError"))
    return ok(z.sink)


@m("<zip::write::FileOptions<'_, T> as core::default::Default>::default", "zip::write::FileOptions::default")
def _():
    return Opaque("zipopts")


for _n in ("compression_level", "compression_method", "last_modified_time", "unix_permissions", "large_file", "with_alignment"):
    M["zip::write::FileOptions::" + _n] = lambda ex, inf: (lambda o, *a: o)


@m(ZR + "new")
def _(src):
    z = get(src) if isinstance(src, Ref) else src
    if hasattr(z, "pos"):
        z.pos = 0           # the directory at the end is found by seeking
    t = _read_all(src)
    ents = WORLD[0].zips.get(t) if type(t) is bytes else None
    if ents is None:
        return err(Opaque("ZipError"))
    return ok(ZipA(ents))


@m(ZR + "len")
def _(r):
    return len(get(r).ents)


@m(ZR + "is_empty")
def _(r):
    return len(get(r).ents) == 0


@m(ZR + "by_index")
def _(r, i):
    z = get(r)
    i = IDX(i)
    if i >= len(z.ents):
        return err(Opaque("ZipError"))
    n, t = z.ents[i]
    return ok(ZipF(n, t))


@m(ZR + "by_name")
def _(r, name):
    n = S(name)
    for e in get(r).ents:
        if EN.br(eqs(e[0], n)):
            return ok(ZipF(e[0], e[1]))
    return err(Opaque("ZipError"))


@m(ZR + "index_for_name")
def _(r, name):
    n = S(name)
    for i, e in enumerate(get(r).ents):
        if EN.br(eqs(e[0], n)):
            return some(i)
    return none()


@m(ZR + "name_for_index")
def _(r, i):
    e = get(r).ents
    return some(e[i][0]) if i < len(e) else none()


class ZipNames(ListIt):
    pass


@m(ZR + "file_names")
def _(r):
    # the library's iterator: Map<Keys, closure taking a reference to the boxed name>
    return [ZipNames([Ref([[[[e[0]], []], []]], 0) for e in get(r).ents]), []]


_K = "<indexmap::map::iter::Keys<'a, K, V> as core::iter::traits::"
M[_K + "iterator::Iterator>::next"] = lambda ex, inf: (lambda r: get(r).nx())
M[_K + "double_ended::DoubleEndedIterator>::next_back"] = lambda ex, inf: (lambda r: get(r).nb())
M[_K + "iterator::Iterator>::size_hint"] = lambda ex, inf: (lambda r: [get(r).j - get(r).i, some(get(r).j - get(r).i)])
M[_K + "exact_size::ExactSizeIterator>::len"] = lambda ex, inf: (lambda r: get(r).j - get(r).i)


@m("zip::read::ZipFile::name")
def _(r):
    return get(r).name


@m("zip::read::ZipFile::size")
def _(r):
    return len(get(r).text)


@m("zip::read::ZipFile::is_dir")
def _(r):
    n = get(r).name
    return len(n) > 0 and n[-1] == 47


@m("zip::read::ZipFile::is_file")
def _(r):
    n = get(r).name
    return not (len(n) > 0 and n[-1] == 47)


# ---------------------------------------------------------------- clocks, output
@m("std::time::Instant::now", "std::time::SystemTime::now")
def _():
    return Opaque("instant")


@m("std::time::Instant::elapsed", "std::time::Instant::duration_since")
def _(*a):
    return Opaque("duration")


@m("core::time::Duration::as_secs", "core::time::Duration::as_millis", "core::time::Duration::as_nanos", "core::time::Duration::as_micros", "core::time::Duration::subsec_nanos", "core::time::Duration::subsec_millis")
def _(r):
    return 0


@m("core::time::Duration::as_secs_f64", "core::time::Duration::as_secs_f32")
def _(r):
    return 0.0


@m("std::io::stdio::_print", "std::io::stdio::_eprint")
def _(a):
    return UNIT


NOW = b"2020-01-02T03:04:05Z"


@m("chrono::offset::utc::Utc::now", "chrono::offset::local::Local::now")
def _():
    return Opaque("datetime")


@m("chrono::datetime::DateTime::to_rfc3339_opts", "chrono::datetime::DateTime::to_rfc3339")
def _(*a):
    return newstr(NOW)


@m("chrono::datetime::DateTime::timestamp")
def _(*a):
    return 1577934245


# ---------------------------------------------------------------- quick_xml
SPACE = frozenset(b" \r\n\t")
_SM = {}


def smask(cs):
    r = _SM.get(cs)
    if r is None:
        r = 0
        for c in cs:
            r |= 1 << c
        _SM[cs] = r
    return r


def isin(x, cs):
    """branch: byte in the frozenset"""
    if x.__class__ is int:
        return x in cs
    if x.tab is IDENT:
        return EN.br(mkm(x.var, smask(cs)))
    return EN.br(pred_sv(x, lambda v: v in cs))


def find1(s, i, cs):
    """first index >= i whose byte is in cs, or -1"""
    n = len(s)
    if type(s) is bytes and len(cs) == 1:
        return s.find(bytes(cs), i)
    while i < n:
        x = s[i]
        if x.__class__ is int:
            if x in cs:
                return i
        elif isin(x, cs):
            return i
        i += 1
    return -1


def starts_at(s, i, lit):
    if i + len(lit) > len(s):
        return False
    if type(s) is bytes:
        return s.startswith(lit, i)
    for j, c in enumerate(lit):
        if not isin(s[i + j], frozenset((c,))):
            return False
    return True


F = frozenset
LT, GT, BANG, SLASH, QM, AMP, SEMI, EQ = [F(bytes([c])) for c in b"<>!/?&;="]
QUOT = F(b"\"'")
DQ, SQ = F(b'"'), F(b"'")
MQ = F(b">\"'")


def bs(t):
    """&[u8] value"""
    t = mks(t)
    return Slice(t, 0, len(t))


class BStart(Opaque):
    def __init__(self, content, nl):
        self.tag = "BytesStart"
        self.d = None
        self.content = content
        self.nl = nl

    def dup(self):
        return self


class BText(Opaque):
    def __init__(self, kind, content):
        self.tag = kind
        self.d = None
        self.content = content

    def dup(self):
        return self


def name_len(c):
    i = find1(c, 0, SPACE)
    return len(c) if i < 0 else i


class Reader(Opaque):
    def __init__(self, text, ns):
        self.tag = "reader"
        self.d = None
        self.s = text
        self.i = 0
        self.state = 0  # init, text, markup, done, empty
        self.trim_s = False
        self.trim_e = False
        self.expand = False
        self.check_end = True
        self.allow_unmatched = False
        self.trim_names = True
        self.check_comments = False
        self.allow_dangling = False
        self.open = []
        self.ns = ns


E_START, E_END, E_EMPTY, E_TEXT, E_CDATA, E_COMMENT, E_DECL, E_PI, E_DOCTYPE, E_EOF = range(10)


class XmlErr(Exception):
    def __init__(self, fatal):
        self.fatal = fatal


def next_event(r):
    try:
        ev = next_event1(r)
        if r.ns and ev[0] in (E_START, E_EMPTY):
            if ns_bad(ev[1]):
                return err(Opaque("quick_xml::Error"))
        return ok(ev)
    except XmlErr as e:
        if e.fatal:
            r.state = 3
        return err(Opaque("quick_xml::Error"))


def next_event1(r):
    s = r.s
    n = len(s)
    if r.state == 0:
        if starts_at(s, 0, b"\xef\xbb\xbf"):
            r.i = 3
        r.state = 1
    if r.state == 3:
        return [E_EOF]
    if r.state == 4:
        r.state = 1
        return [E_END, BStart(r.open.pop(), 0)]
    if r.state == 1:
        if r.trim_s:
            while r.i < n and isin(s[r.i], SPACE):
                r.i += 1
        j = find1(s, r.i, LT)
        if j == r.i:
            r.i += 1
            r.state = 2
        else:
            eof = j < 0
            end = n if eof else j
            t = s[r.i:end]
            r.i = n if eof else j + 1
            e = len(t)
            if r.trim_e:
                while e > 0 and isin(t[e - 1], SPACE):
                    e -= 1
            t = mks(t[:e])
            if eof:
                r.state = 3
                return [E_EOF] if len(t) == 0 else [E_TEXT, BText("BytesText", t)]
            r.state = 2
            return [E_TEXT, BText("BytesText", t)]
    # inside markup
    r.state = 1
    i = r.i
    if i >= n:
        raise XmlErr(True)
    c = s[i]
    if isin(c, BANG):
        if i + 1 >= n:
            raise XmlErr(True)
        k = s[i + 1]
        if isin(k, F(b"[")):
            j = i
            while True:
                j = find1(s, j, GT)
                if j < 0:
                    r.i = n
                    raise XmlErr(True)
                if j - i >= 3 and starts_at(s, j - 2, b"]]"):
                    break
                j += 1
            r.i = j + 1
            buf = s[i:j]
            if not starts_at(buf, 0, b"![CDATA[") or len(buf) < 10:
                raise XmlErr(True)
            return [E_CDATA, BText("BytesCData", mks(buf[8:len(buf) - 2]))]
        if isin(k, F(b"-")):
            j = i
            while True:
                j = find1(s, j, GT)
                if j < 0:
                    r.i = n
                    raise XmlErr(True)
                if j - i > 4 and starts_at(s, j - 2, b"--"):
                    break
                j += 1
            r.i = j + 1
            buf = s[i:j]
            if not starts_at(buf, 0, b"!--"):
                raise XmlErr(True)
            return [E_COMMENT, BText("BytesText", mks(buf[3:len(buf) - 2]))]
        if isin(k, F(b"dD")):
            bal = 0
            j = i
            while True:
                j = find1(s, j, F(b"<>"))
                if j < 0:
                    r.i = n
                    raise XmlErr(True)
                if isin(s[j], LT):
                    bal += 1
                elif bal == 0:
                    break
                else:
                    bal -= 1
                j += 1
            r.i = j + 1
            buf = s[i:j]
            good = len(buf) >= 8
            if good:
                for x, y in zip(buf, b"!DOCTYPE"):
                    if not isin(x, F((y, ord(chr(y).lower())))):
                        good = False
                        break
            if not good:
                raise XmlErr(True)
            q = 8
            while q < len(buf) and isin(buf[q], SPACE):
                q += 1
            if q == len(buf):
                raise XmlErr(False)
            return [E_DOCTYPE, BText("BytesText", mks(buf[q:]))]
        raise XmlErr(True)
    if isin(c, QM):
        j = i
        while True:
            j = find1(s, j, GT)
            if j < 0:
                r.i = n
                raise XmlErr(True)
            if j > i and isin(s[j - 1], QM):
                break
            j += 1
        r.i = j + 1
        buf = s[i:j]
        if len(buf) < 2:
            raise XmlErr(True)
        ct = mks(buf[1:len(buf) - 1])
        if starts_at(ct, 0, b"xml") and (len(ct) == 3 or isin(ct[3], SPACE)):
            return [E_DECL, BText("BytesDecl", ct)]
        return [E_PI, BText("BytesPI", ct)]
    # element-like
    q = None
    j = i
    while True:
        j = find1(s, j, MQ if q is None else q)
        if j < 0:
            r.i = n
            raise XmlErr(True)
        if q is None:
            if isin(s[j], GT):
                break
            q = DQ if isin(s[j], DQ) else SQ
        else:
            q = None
        j += 1
    r.i = j + 1
    buf = s[i:j]
    if isin(c, SLASH):
        ct = buf[1:]
        if r.trim_names:
            e = len(ct)
            while e > 0 and isin(ct[e - 1], SPACE):
                e -= 1
            if e > 0:
                ct = ct[:e]
        ct = mks(ct)
        if r.open:
            exp = r.open.pop()
            if r.check_end and not EN.br(eqs(exp, ct)):
                raise XmlErr(False)
        elif not r.allow_unmatched:
            raise XmlErr(False)
        return [E_END, BStart(ct, len(ct))]
    if len(buf) and isin(buf[-1], SLASH):
        ct = mks(buf[:-1])
        b = BStart(ct, name_len(ct))
        if r.expand:
            r.state = 4
            r.open.append(mks(ct[:b.nl]))
            return [E_START, b]
        return [E_EMPTY, b]
    ct = mks(buf)
    b = BStart(ct, name_len(ct))
    r.open.append(mks(ct[:b.nl]))
    return [E_START, b]


class AttrIt:
    """Attributes iterator"""

    def __init__(self, text, start, checks=True):
        self.s = text
        self.st = ("next", start)
        self.keys = []
        self.checks = checks

    def dup(self):
        a = AttrIt(self.s, 0, self.checks)
        a.st = self.st
        a.keys = list(self.keys)
        return a

    def _skipws(self, i):
        while i < len(self.s) and isin(self.s[i], SPACE):
            i += 1
        return i

    def nx(self):
        s = self.s
        n = len(s)
        k, off = self.st
        if k == "done":
            return [0]
        if k == "skipvalue":
            off = find1(s, off, SPACE)
            if off < 0:
                return [0]
        elif k == "skipeq":
            # the iterator of skip_eq_value starts at '='
            off = self._skipws(off)
            if off >= n:
                return [0]
            if isin(s[off], QUOT):
                e = find1(s, off + 1, DQ if isin(s[off], DQ) else SQ)
                if e < 0:
                    return [0]
                off = e
            else:
                off = find1(s, off, SPACE)
                if off < 0:
                    return [0]
        ks = self._skipws(off)
        if ks >= n:
            self.st = ("done", 0)
            return [0]
        bad = lambda: [1, [1, Opaque("AttrError")]]
        e = find1(s, ks + 1, F(b"= \r\n\t"))
        # the first key byte itself is consumed by the search for a non-space byte
        if e < 0:
            self.st = ("done", 0)
            return bad()
        if isin(s[e], EQ):
            ke, eq = e, e
        else:
            o = self._skipws(e + 1)
            if o >= n:
                self.st = ("done", 0)
                return bad()
            if not isin(s[o], EQ):
                self.st = ("next", o)
                return bad()
            ke, eq = e, o
        key = mks(s[ks:ke])
        if self.checks:
            for p in self.keys:
                if EN.br(eqs(p, key)):
                    self.st = ("skipeq", eq)
                    return bad()
            self.keys.append(key)
        v = self._skipws(eq + 1)
        if v >= n:
            self.st = ("done", 0)
            return bad()
        if not isin(s[v], QUOT):
            self.st = ("skipvalue", v)
            return bad()
        q = DQ if isin(s[v], DQ) else SQ
        e = find1(s, v + 1, q)
        if e < 0:
            self.st = ("done", 0)
            return bad()
        self.st = ("next", e + 1)
        return [1, [0, [[bs(key)], [0, bs(s[v + 1:e])]]]]


XMLNS_XML = b"http://www.w3.org/XML/1998/namespace"
XMLNS_XMLNS = b"http://www.w3.org/2000/xmlns/"


def ns_bad(b):
    """does the namespace resolver reject this start tag"""
    it = AttrIt(b.content, b.nl, False)
    while True:
        x = it.nx()
        if x[0] == 0 or x[1][0] == 1:
            return False
        k, v = S(x[1][1][0][0]), S(x[1][1][1][1])
        if starts_at(k, 0, b"xmlns") and len(k) > 5 and isin(k[5], F(b":")):
            p = mks(k[6:])
            if EN.br(eqs(p, b"xml")):
                if not EN.br(eqs(v, XMLNS_XML)):
                    return True
            elif EN.br(eqs(p, b"xmlns")):
                return True
            elif EN.br(eqs(v, XMLNS_XML)) or EN.br(eqs(v, XMLNS_XMLNS)):
                return True


NATIVE_ITERS.update({"zip::read::FileNames"})
for _p in ("quick_xml::reader::ns_reader::NsReader::", "quick_xml::reader::Reader::"):
    _ns = "ns_reader" in _p

    def _from(ex, inf, ns=_ns):
        return lambda src: Reader(src_text(src), ns)
    M[_p + "from_reader"] = _from
    M[_p + "from_str"] = _from
    M[_p + "config_mut"] = lambda ex, inf: (lambda r: Ref([ConfigObj(get(r))], 0))
    M[_p + "read_event_into"] = lambda ex, inf: (lambda r, b: next_event(get(r)))
    M[_p + "read_event"] = lambda ex, inf: (lambda r: next_event(get(r)))
    M[_p + "decoder"] = lambda ex, inf: (lambda r: Opaque("decoder"))
    M[_p + "buffer_position"] = lambda ex, inf: (lambda r: get(r).i)
    M[_p + "error_position"] = lambda ex, inf: (lambda r: get(r).i)
M["quick_xml::reader::Reader::decoder"] = lambda ex, inf: (lambda r: Opaque("decoder"))


def src_text(src):
    if isinstance(src, CursorObj):
        return mks(S(src.inner)[src.pos:])
    return S(src)


@mf("<quick_xml::reader::ns_reader::NsReader<R> as core::ops::deref::Deref>::deref")
def _(ex, inf):
    return lambda r: r


CONFF = {"trim_text_start": "trim_s", "trim_text_end": "trim_e", "expand_empty_elements": "expand", "check_end_names": "check_end",
         "allow_unmatched_ends": "allow_unmatched", "trim_markup_names_in_closing_tags": "trim_names", "check_comments": "check_comments",
         "allow_dangling_amp": "allow_dangling"}


class ConfigObj(list):
    """fields of Config addressed by index (see config_field)"""
    order = None

    def __init__(self, r):
        self.r = r

    def __getitem__(self, k):
        return getattr(self.r, CONFF[ConfigObj.order[k]])

    def __setitem__(self, k, v):
        setattr(self.r, CONFF[ConfigObj.order[k]], v)


@mf("quick_xml::reader::ns_reader::NsReader::config_mut", "quick_xml::reader::Reader::config_mut")
def _(ex, inf):
    def f(r):
        if ConfigObj.order is None:
            # output type: &mut Config
            t = inf.get("fty")
            ConfigObj.order = ["allow_unmatched_ends", "check_comments", "check_end_names", "expand_empty_elements",
                               "trim_markup_names_in_closing_tags", "trim_text_start", "trim_text_end"]
        return Ref([ConfigObj(get(r))], 0)
    return f


@m("quick_xml::reader::Config::trim_text")
def _(r, v):
    c = get(r).r
    c.trim_s = c.trim_e = v
    return UNIT


@m("quick_xml::reader::Config::enable_all_checks")
def _(r, v):
    c = get(r).r
    c.check_end = c.check_comments = v
    return UNIT


@m("quick_xml::events::BytesStart::name")
def _(r):
    b = get(r)
    return [bs(b.content[:b.nl])]


@m("quick_xml::events::BytesEnd::name")
def _(r):
    return [bs(get(r).content)]


def local_of(s):
    i = find1(s, 0, F(b":"))
    return mks(s[i + 1:]) if i >= 0 else s


@m("quick_xml::events::BytesStart::local_name")
def _(r):
    b = get(r)
    return [bs(local_of(mks(b.content[:b.nl])))]


@m("quick_xml::events::BytesEnd::local_name")
def _(r):
    return [bs(local_of(get(r).content))]


@m("quick_xml::name::QName::into_inner", "quick_xml::name::LocalName::into_inner", "quick_xml::name::Prefix::into_inner")
def _(q):
    return q[0]


@m("quick_xml::name::QName::local_name")
def _(r):
    return [bs(local_of(S(get(r)[0])))]


@m("quick_xml::name::QName::prefix")
def _(r):
    s = S(get(r)[0])
    i = find1(s, 0, F(b":"))
    return some([bs(s[:i])]) if i >= 0 else none()


@m("<quick_xml::name::QName<'_> as core::convert::AsRef<[u8]>>::as_ref", "<quick_xml::name::LocalName<'_> as core::convert::AsRef<[u8]>>::as_ref",
   "<quick_xml::name::QName<'a> as core::convert::AsRef<[u8]>>::as_ref")
def _(r):
    return get(r)[0]


@m("quick_xml::events::BytesStart::attributes", "quick_xml::events::BytesStart::html_attributes")
def _(r):
    b = get(r)
    return AttrIt(b.content, b.nl)


@m("quick_xml::events::attributes::Attributes::with_checks")
def _(r, v):
    get(r).checks = v
    return r


@m("quick_xml::events::BytesStart::try_get_attribute")
def _(r, name):
    b = get(r)
    it = AttrIt(b.content, b.nl, False)
    nm = S(name)
    while True:
        x = it.nx()
        if x[0] == 0:
            return ok(none())
        if x[1][0] == 1:
            return err(Opaque("quick_xml::Error"))
        if EN.br(eqs(S(x[1][1][0][0]), nm)):
            return ok(some(x[1][1]))


for _n in ("BytesStart", "BytesEnd", "BytesText", "BytesCData", "BytesDecl", "BytesPI"):
    M["quick_xml::events::%s::into_owned" % _n] = lambda ex, inf: (lambda x: x)
    M["quick_xml::events::%s::borrow" % _n] = lambda ex, inf: (lambda r: get(r))
    M["quick_xml::events::%s::into_inner" % _n] = lambda ex, inf: (lambda x: [0, bs(x.content)])
    M["<quick_xml::events::%s<'a> as core::ops::deref::Deref>::deref" % _n] = lambda ex, inf: (lambda r: bs(get(r).content))
    M["<quick_xml::events::%s<'_> as core::ops::deref::Deref>::deref" % _n] = lambda ex, inf: (lambda r: bs(get(r).content))
M["quick_xml::events::BytesStart::to_owned"] = lambda ex, inf: (lambda r: get(r))
M["quick_xml::events::BytesStart::to_end"] = lambda ex, inf: (lambda r: BStart(mks(get(r).content[:get(r).nl]), 0))
M["quick_xml::events::Event::into_owned"] = lambda ex, inf: (lambda x: x)


ESC = {60: b"&lt;", 62: b"&gt;", 38: b"&amp;", 39: b"&apos;", 34: b"&quot;"}


def xml_escape(s, which):
    if type(s) is bytes:
        return b"".join(ESC[c] if c in which else bytes((c,)) for c in s) if any(c in which for c in s) else s
    out = []
    for x in s:
        if x.__class__ is int:
            if x in which:
                out.extend(ESC[x])
            else:
                out.append(x)
            continue
        if isin(x, which):
            for c in sorted(which):
                if isin(x, F((c,))):
                    out.extend(ESC[c])
                    break
        else:
            out.append(x)
    return mks(out)


def _esc(which):
    which = F(which)

    def fac(ex, inf):
        def f(s):
            t = S(s)
            r = xml_escape(t, which)
            if len(r) == len(t):
                return s if type(s) is list else [0, s] if not isinstance(s, VecObj) else [1, s]
            return [1, newstr(r)]
        return f
    return fac


M["quick_xml::escape::escape"] = _esc(b"<>&'\"")
M["quick_xml::escape::partial_escape"] = _esc(b"<>&")
M["quick_xml::escape::minimal_escape"] = _esc(b"<&")

PRE = {b"lt": 60, b"gt": 62, b"amp": 38, b"apos": 39, b"quot": 34}


def xml_unescape(s):
    """text or None"""
    out = []
    i = 0
    n = len(s)
    while True:
        j = find1(s, i, AMP)
        if j < 0:
            if i == 0:
                return s
            out.extend(s[i:])
            return mks(out)
        out.extend(s[i:j])
        e = find1(s, j + 1, F(b"&;"))
        if e < 0 or not isin(s[e], SEMI):
            return None
        pat = mks(s[j + 1:e])
        if len(pat) and isin(pat[0], F(b"#")):
            num = mks(pat[1:])
            if len(num) and isin(num[0], F(b"x")):
                num, base = mks(num[1:]), 16
            else:
                base = 10
            v = char_ref(num, base)
            if v is None:
                return None
            out.extend(v)
        else:
            if type(pat) is bytes:
                c = PRE.get(pat)
            else:
                c = None
                for k, ch in PRE.items():
                    if EN.br(eqs(pat, k)):
                        c = ch
                        break
            if c is None:
                return None
            out.append(c)
        i = e + 1


def char_ref(num, base):
    """bytes of a character reference or None"""
    if len(num) == 0:
        return None
    digs = F(b"0123456789") if base == 10 else F(b"0123456789abcdefABCDEF")
    for x in num:
        if not isin(x, digs):
            return None
    if type(num) is not bytes:
        if len(num) > 3:
            raise Unsupported("long symbolic character reference")
        num = bytes(EN.conc(x) for x in num)
    code = int(num, base)
    if code > 0xffffffff or code == 0 or code >= 0x110000 or 0xd800 <= code < 0xe000:
        return None
    return chr(code).encode()


def unescape_res(s):
    if valid_utf8(s) is not None:
        return err(Opaque("quick_xml::Error"))
    t = xml_unescape(s)
    if t is None:
        return err(Opaque("quick_xml::Error"))
    if t is s:
        return ok([0, t])
    return ok([1, newstr(t)])


@m("quick_xml::events::BytesText::unescape")
def _(r):
    return unescape_res(get(r).content)


@m("quick_xml::events::BytesText::decode", "quick_xml::events::BytesCData::decode", "quick_xml::events::BytesText::xml_content")
def _(r):
    s = get(r).content
    return ok([0, s]) if valid_utf8(s) is None else err(Opaque("quick_xml::Error"))


@m("quick_xml::events::attributes::Attribute::unescape_value", "quick_xml::events::attributes::Attribute::decode_and_unescape_value")
def _(r, *a):
    return unescape_res(S(get(r)[1]))


@m("quick_xml::escape::unescape")
def _(s):
    return unescape_res(S(s))


@m("quick_xml::encoding::Decoder::decode")
def _(r, b):
    s = S(b)
    return ok([0, s]) if valid_utf8(s) is None else err(Opaque("quick_xml::Error"))


# ---------------------------------------------------------------- scenario primitives
def _prim(name):
    def d(f):
        M[name] = lambda ex, inf: f
        return f
    return d


RNG = [None]     # random generator of concrete runs


def p_int(w):
    if EN.concrete is not None:
        v = EN.concrete.int(w)
        EN.tape.append(('i', v))
        return v
    v = EN.word(w)
    EN.tape.append(('i', v))
    return v


@_prim("vh::sym::u16")
def _():
    return p_int(16)


@_prim("vh::sym::u32")
def _():
    return p_int(32)


@_prim("vh::sym::bool")
def _():
    if EN.concrete is not None:
        v = bool(EN.concrete.int(1))
        EN.tape.append(('i', int(v)))
        return v
    EN.nvar += 1
    v = SB('z', z3.Bool("p%d" % EN.nvar))
    EN.tape.append(('i', v))
    return v


@_prim("vh::sym::choose")
def _(n):
    if EN.concrete is not None:
        v = EN.concrete.choose(n)
        EN.tape.append(('i', v))
        return v
    # choices fork by bisection without the solver
    lo, hi = 0, n
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if EN.fork():
            hi = mid
        else:
            lo = mid
    EN.tape.append(('i', lo))
    return lo


def p_bytes(n, mask):
    n = IDX(n)
    if EN.concrete is not None:
        v = EN.concrete.bytes(n, mask)
        EN.tape.append(('b', list(v)))
        return bytes(v)
    v = tuple(EN.byte(mask) for _ in range(n))
    EN.tape.append(('b', list(v)))
    return v


@_prim("vh::sym::ascii")
def _(n):
    return newstr(p_bytes(n, (1 << 128) - 1))


@_prim("vh::sym::bytes")
def _(n):
    return newstr(p_bytes(n, FULL))


@_prim("vh::sym::text")
def _(n, cs):
    c = S(cs)
    return newstr(p_bytes(n, smask(frozenset(c))))


@_prim("vh::sym::assume")
def _(c):
    if c is True:
        return UNIT
    if c is False or not EN.feasible(c):
        raise AssumeFailed()
    EN.add(c)
    return UNIT


def do_check(c, what):
    EN.checks += 1
    if c is True:
        return
    if c is not False:
        n = b_not(c)
        if n is False or (n is not True and not EN.feasible(n)):
            if EN.concrete is None:
                EN.goals.append(c.z)
            # what is known to hold needs no constraint for later branches when it concerns domains only
            if n is not False and c.k in "ma":
                EN.add(c)
            elif c.k == "z":
                EN.known[c.a.get_id()] = (c.a, True)
            return
    # a violation exists
    if EN.concrete is not None:
        EN.fails.append(what)
        return
    if c is False:
        tape = EN.model()
    else:
        n = b_not(c)
        tape = EN.model(*([] if n is True else [n.z]))
    if tape is None:
        raise Unsupported("check failed without a model: " + what)
    EN.fails.append(what)
    EN.emit(t="viol", what=what, tape=tape)
    # continue on the inputs where it holds, or as it is when it holds for none
    if c is not False and EN.feasible(c):
        EN.add(c)


class Stopped(Exception):
    """the path has reported a violation and ends"""


@_prim("vh::sym::check")
def _(c, what):
    do_check(c, bytes(S(what)).decode())
    return UNIT


@_prim("vh::sym::check_eq_str")
def _(a, b, what):
    x, y = S(a), S(b)
    c = eqs(x, y)
    w = bytes(S(what)).decode()
    if EN.concrete is None and c is True and len(x) == len(y):
        EN.goals.extend([vz(p, 8) == vz(q, 8) for p, q in zip(x, y) if type(p) is not int or type(q) is not int])
    if EN.concrete is not None and c is False:
        w += " (got %s, expected %s)" % (pydbg(x), pydbg(y))
    do_check(c, w)
    return UNIT


def pydbg(s):
    return '"' + bytes(s).decode("utf-8", "replace").replace("\\", "\\\\").replace('"', '\\"') + '"'


@_prim("vh::sym::bound")
def _(q, t):
    return t if EN.deep else q


@_prim("vh::sym::observe")
def _(label, v):
    if EN.concrete is not None:
        EN.obs.append("%s=%s" % (bytes(S(label)).decode(), bytes(S(v)).decode("utf-8", "replace")))
    return UNIT


@_prim("vh::sym::reached")
def _():
    EN.nreached += 1
    return UNIT


@_prim("vh::pkg::path")
def _(n):
    return newstr(b"/S/" + path_text(n))


@_prim("vh::pkg::write")
def _(p, parts):
    w = WORLD[0]
    ents = []
    for e in seq(parts):
        e = deref_all(e)
        ents.append((S(e[0]), S(e[1])))
    tok = b"PK\x03\x04ZIP:%d;" % len(w.zips)
    w.zips[tok] = ents
    w.fs[path_text(p)] = [tok]
    return UNIT


@_prim("vh::pkg::read")
def _(p):
    w = WORLD[0]
    h = w.fs.get(path_text(p))
    ents = w.zips.get(h[0]) if h is not None and type(h[0]) is bytes else None
    if ents is None:
        return none()
    return some(VecObj([[newstr(n), newstr(t)] for n, t in ents]))


@_prim("vh::pkg::mkdir")
def _(p):
    WORLD[0].dirs.add(path_text(p))
    return UNIT


@_prim("vh::pkg::write_raw")
def _(p, b):
    WORLD[0].fs[path_text(p)] = [S(b)]
    return UNIT


@_prim("vh::pkg::read_raw")
def _(p):
    h = WORLD[0].fs.get(path_text(p))
    return none() if h is None else some(newstr(h[0]))


@_prim("vh::pkg::list")
def _():
    w = WORLD[0]
    names = {p[3:].split(b"/")[0] for p in list(w.fs) + list(w.dirs) if p.startswith(b"/S/")}
    return VecObj([newstr(n) for n in sorted(names)])


@_prim("vh::pkg::disk_limit")
def _(n):
    WORLD[0].limit = n[1] if n[0] == 1 else None
    return UNIT


@_prim("vh::pkg::set_dir")
def _(p):
    return UNIT


# --- the oracle XML reader: the same definition as harness/src/xml.rs
XSP = F(b" \t\n\r")
NST = F(list(range(65, 91)) + list(range(97, 123)) + [95, 58] + list(range(128, 256)))
NCH = F(list(NST) + list(range(48, 58)) + [45, 46])
LEGAL = F([9, 10, 13] + list(range(32, 256)))
REFC = F(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)) + [35])


class XBad(Exception):
    pass


def isstr(s):
    """String::from_utf8 succeeded"""
    if valid_utf8(s) is not None:
        raise XBad()
    return newstr(s)


class XP:
    def __init__(self, s):
        self.s = s
        self.i = 0
        self.n = len(s)

    def ws(self):
        s, n = self.s, self.n
        while self.i < n and isin(s[self.i], XSP):
            self.i += 1

    def starts(self, lit):
        return starts_at(self.s, self.i, lit)

    def until(self, lit):
        st = self.i
        first = F(lit[:1])
        j = st
        while True:
            j = find1(self.s, j, first)
            if j < 0:
                raise XBad()
            if starts_at(self.s, j, lit):
                self.i = j + len(lit)
                return mks(self.s[st:j])
            j += 1

    def name(self):
        s, n = self.s, self.n
        st = self.i
        if st >= n or not isin(s[st], NST):
            raise XBad()
        i = st
        while i < n and isin(s[i], NCH):
            i += 1
        self.i = i
        t = mks(s[st:i])
        if valid_utf8(t) is not None:
            raise XBad()
        return t

    def entity(self, out):
        s, n = self.s, self.n
        st = self.i
        i = st
        while i < n and not isin(s[i], SEMI):
            if not isin(s[i], REFC):
                raise XBad()
            i += 1
        if i >= n:
            raise XBad()
        e = mks(s[st:i])
        self.i = i + 1
        for k, ch in PRE.items():
            if EN.br(eqs(e, k)):
                out.append(ch)
                return
        if len(e) > 2 and isin(e[0], F(b"#")) and isin(e[1], F(b"x")):
            v = self.num(mks(e[2:]), 16)
        elif len(e) > 1 and isin(e[0], F(b"#")):
            v = self.num(mks(e[1:]), 10)
        else:
            raise XBad()
        out.extend(v)

    def num(self, t, base):
        v = char_ref0(t, base)
        if v is None or (v < 0x80 and v not in LEGAL):
            raise XBad()
        return chr(v).encode()

    def element(self, depth):
        s, n = self.s, self.n
        self.i += 1
        name = self.name()
        attrs = []
        kids = []
        while True:
            had = self.i < n and isin(s[self.i], XSP)
            self.ws()
            if self.i >= n:
                raise XBad()
            c = s[self.i]
            if isin(c, GT):
                self.i += 1
                break
            if isin(c, SLASH):
                if not self.starts(b"/>"):
                    raise XBad()
                self.i += 2
                return self.node(name, attrs, b"", kids)
            if not had:
                raise XBad()
            an = self.name()
            self.ws()
            if self.i >= n or not isin(s[self.i], EQ):
                raise XBad()
            self.i += 1
            self.ws()
            if self.i >= n or not isin(s[self.i], QUOT):
                raise XBad()
            q = DQ if isin(s[self.i], DQ) else SQ
            self.i += 1
            v = []
            while True:
                if self.i >= n:
                    raise XBad()
                c = s[self.i]
                if isin(c, q):
                    self.i += 1
                    break
                if isin(c, LT):
                    raise XBad()
                if isin(c, AMP):
                    self.i += 1
                    self.entity(v)
                    continue
                if not isin(c, LEGAL):
                    raise XBad()
                self.i += 1
                v.append(32 if isin(c, F(b"\n\t\r")) else c)
            for a in attrs:
                if EN.br(eqs(a[0], an)):
                    raise XBad()
            v = mks(v)
            if valid_utf8(v) is not None:
                raise XBad()
            attrs.append((an, v))
        text = []
        while True:
            if self.i >= n:
                raise XBad()
            c = s[self.i]
            if isin(c, LT):
                if self.starts(b"</"):
                    self.i += 2
                    nm = self.name()
                    self.ws()
                    if self.i >= n or not isin(s[self.i], GT) or not EN.br(eqs(nm, name)):
                        raise XBad()
                    self.i += 1
                    break
                if self.starts(b"<!--"):
                    self.i += 4
                    self.until(b"-->")
                elif self.starts(b"<![CDATA["):
                    self.i += 9
                    text.extend(self.until(b"]]>"))
                elif self.starts(b"<?"):
                    self.i += 2
                    self.until(b"?>")
                else:
                    if depth > 60:
                        raise XBad()
                    kids.append(self.element(depth + 1))
            elif isin(c, AMP):
                self.i += 1
                self.entity(text)
            else:
                if not isin(c, LEGAL):
                    raise XBad()
                self.i += 1
                if isin(c, F(b"\r")):
                    if self.i < n and isin(s[self.i], F(b"\n")):
                        self.i += 1
                    text.append(10)
                else:
                    text.append(c)
        return self.node(name, attrs, mks(text), kids)

    def node(self, name, attrs, text, kids):
        if valid_utf8(text) is not None:
            raise XBad()
        return (name, attrs, text, kids)


def char_ref0(num, base):
    if len(num) == 0:
        return None
    digs = F(b"0123456789") if base == 10 else F(b"0123456789abcdefABCDEF")
    for x in num:
        if not isin(x, digs):
            return None
    if type(num) is not bytes:
        if len(num) > 3:
            raise Unsupported("long symbolic character reference")
        num = bytes(EN.conc(x) for x in num)
    code = int(num, base)
    if code >= 0x110000 or 0xd800 <= code < 0xe000:
        return None
    return code


def xml_parse(s):
    p = XP(s)
    if p.starts(b"\xef\xbb\xbf"):
        p.i = 3
    root = None
    while True:
        p.ws()
        if p.i >= p.n:
            break
        if not isin(s[p.i], LT):
            raise XBad()
        if p.starts(b"<?"):
            p.i += 2
            p.until(b"?>")
        elif p.starts(b"<!--"):
            p.i += 4
            p.until(b"-->")
        else:
            if root is not None:
                raise XBad()
            root = p.element(0)
    return root


def node_val(x):
    return [newstr(x[0]), VecObj([[newstr(a), newstr(b)] for a, b in x[1]]), newstr(x[2]), VecObj([node_val(k) for k in x[3]])]


_XC = {}


@_prim("vh::xml::parse")
def _(b):
    s = S(b)
    if type(s) is bytes:
        r = _XC.get(s, 0)
        if r == 0:
            try:
                r = xml_parse(s)
            except XBad:
                r = None
            if len(_XC) < 3000:
                _XC[s] = r
    else:
        try:
            r = xml_parse(s)
        except XBad:
            r = None
    return none() if r is None else some(node_val(r))


for _n in ("drop",):
    pass
