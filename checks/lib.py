"""Builds, runs and judges scenarios."""
import glob, hashlib, json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, os.path.join(ROOT, "symex"))

NIGHTLY = None


def sysroot():
    global NIGHTLY
    if NIGHTLY is None:
        NIGHTLY = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, check=True).stdout.decode().strip()
    return NIGHTLY


def sh(cmd, cwd, env, log):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(env)
    h = open(log, "wb")
    return subprocess.Popen(cmd, cwd=cwd, env=e, stdout=h, stderr=subprocess.STDOUT), log


class BuildError(Exception):
    pass


def wait(p):
    pr, log = p
    if pr.wait() != 0:
        raise BuildError("build failed:\n" + open(log, errors="replace").read()[-4000:])


FFI = False


def sfx():
    """the foreign interface is built with the harness in a crate of its own"""
    return "_ffi" if FFI else ""


def harness():
    """folder of the harness to build; with the foreign interface: a copy of its sources and of the harness's"""
    h = os.path.join(ROOT, "harness")
    if not FFI:
        return h
    d = os.path.join(BUILD, "ffi")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/rs_ffi/src", os.path.join(d, "src"))
    lib = open(os.path.join(d, "src", "lib.rs")).read()
    os.unlink(os.path.join(d, "src", "lib.rs"))
    shutil.copytree(os.path.join(h, "src"), os.path.join(d, "src"), dirs_exist_ok=True)
    shutil.copy(os.path.join(h, "fbs", "consolidated_generated.rs"), os.path.join(d, "src"))
    main = os.path.join(d, "src", "main.rs")
    with open(os.path.join(h, "src", "main.rs")) as f:
        text = f.read()
    with open(main, "w") as f:
        f.write(lib + "\n" + text)
    with open(os.path.join(h, "Cargo.toml")) as f:
        text = f.read()
    text = text.replace("ffi = []", 'default = ["ffi"]\nffi = []').replace("[features]", 'anyhow = "1"\nflatbuffers = { path = "%s" }\n\n[features]' % os.path.join(h, "flatbuffers"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(text)
    shutil.copy(os.path.join(h, "Cargo.lock"), d)
    return d


def start_native(h, release=False):
    env = {"CARGO_TARGET_DIR": os.path.join(BUILD, "native" + sfx()), "RUSTUP_TOOLCHAIN": "stable", "RUSTFLAGS": "-Awarnings"}
    return sh(["cargo", "build", "--offline", "--quiet"] + (["--release"] if release else []), h, env,
              os.path.join(BUILD, "native%s%s.log" % (sfx(), "_rel" if release else "")))


def tree_hash():
    """content of the library's sources (time stamps say nothing about a tree that was laid out anew)"""
    h = hashlib.sha256()
    for top in ("/repo/rs", "/repo/rs_ffi"):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.isfile(p) and not f.endswith((".xlsx", ".docx", ".pptx")):
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def fresh(now):
    """make cargo look at the library again when its content changed since the last build here"""
    mark = os.path.join(BUILD, "tree" + sfx())
    if os.path.exists(mark) and open(mark).read() == now:
        return
    for t in ("native" + sfx(), "sym" + sfx(), "sym%s_rel" % sfx()):
        for q in ("debug", "release"):
            # the two layouts of cargo's target directory
            for f in glob.glob(os.path.join(BUILD, t, q, ".fingerprint", "draviavemal*")) + glob.glob(os.path.join(BUILD, t, q, "build", "draviavemal*")):
                shutil.rmtree(f, ignore_errors=True)


def build(release=False):
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    now = tree_hash()
    fresh(now)
    h = harness()
    nats = [start_native(h)] + ([start_native(h, True)] if release else [])
    drv = sh(["cargo", "+nightly", "build", "--offline", "--quiet"], os.path.join(ROOT, "driver"),
             {"CARGO_TARGET_DIR": os.path.join(BUILD, "driver")}, os.path.join(BUILD, "driver.log"))
    wait(drv)
    sx = sfx() + ("_rel" if release else "")
    args = os.path.join(BUILD, "harness%s.args" % sx)
    flags = "-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Awarnings"
    if release:
        flags += " -Cdebug-assertions=off -Coverflow-checks=off"
    # the wrapper has to run for the harness itself so that it records its command line
    os.utime(os.path.join(h, "src", "main.rs"))
    env = {"RUSTUP_TOOLCHAIN": "nightly", "CARGO_TARGET_DIR": os.path.join(BUILD, "sym" + sx), "RUSTFLAGS": flags,
           "RUSTC_WRAPPER": os.path.join(BUILD, "driver", "debug", "mirsrv"), "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
           "MIRSRV_RECORD": args, "MIRSRV_CRATE": "vh"}
    sym = sh(["cargo", "check", "--offline", "--quiet"], h, env, os.path.join(BUILD, "sym%s.log" % sx))
    wait(sym)
    for n in nats:
        wait(n)
    with open(os.path.join(BUILD, "tree" + sfx()), "w") as h:
        h.write(now)
    return args, time.time() - t


def binary(release=False):
    return os.path.join(BUILD, "native" + sfx(), "release" if release else "debug", "vh")


class Session:
    """a running MIR server and an executor on it"""

    def __init__(self, args):
        import mir, engine
        self.engine = engine
        self.sock = os.path.join("/tmp", "mirsrv.%d.sock" % os.getpid())
        self.proc = mir.start(args, self.sock)
        self.R = engine.Runner(self.sock)
        self.scratch = os.path.join("/tmp", "vh.%d" % os.getpid())
        os.makedirs(self.scratch, exist_ok=True)

    def close(self):
        self.proc.kill()
        shutil.rmtree(self.scratch, ignore_errors=True)
        try:
            os.unlink(self.sock)
        except OSError:
            pass

    def compare(self, scen, n, seed):
        """the executor against the compiled code on random inputs; list of disagreements"""
        got = [self.R.concrete(scen, self.engine.Tape(seed * 1000 + i)) for i in range(n)]
        nat = self.engine.native(binary(), scen, [g[3] for g in got], self.scratch)
        bad = []
        for g, v in zip(got, nat):
            if not same(g, v):
                bad.append((g[3], g[:3], v))
        return bad, got

    def confirm(self, scen, what, tapes, release=False, tries=4):
        """the tape on which the compiled code shows the violation too"""
        for t in tapes:
            for v in self.engine.native(binary(release), scen, [t] * tries, self.scratch):
                if shows(v, what):
                    return t
        return None


def panic_text(s):
    return s[6:].strip()


def same(g, v):
    if g[0].split(" ")[0] != v[0].split(" ")[0]:
        return False
    if g[0].startswith("PANIC"):
        return g[1] == v[1]
    return g[1] == v[1] and g[2] == v[2]


def shows(v, what):
    if what.startswith("panic: "):
        return v[0].startswith("PANIC") or v[0].startswith("DIED") or v[0] == "TIMEOUT"
    return any(f == what or f.startswith(what + " (got ") for f in v[1])
