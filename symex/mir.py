"""Client of the MIR server (driver/)."""
import json, os, re, socket, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.path.join(ROOT, "build")


def strip_generics(p):
    """alloc::vec::Vec::<T, A>::push -> alloc::vec::Vec::push ; <a::B<T> as c::D>::m kept but without args"""
    out = []
    i = 0
    n = len(p)
    depth = 0
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            # skip generic args
            d = 0
            i += 2
            while i < n:
                if p[i] == '<':
                    d += 1
                elif p[i] == '>' and p[i - 1] != '-':
                    d -= 1
                    if d == 0:
                        i += 1
                        break
                i += 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


class Server:
    def __init__(self, sock):
        self.sock = sock
        self.tyc = {}
        self.instc = {}
        self.methc = {}
        self.staticc = {}

    def q(self, **kw):
        b = json.dumps(kw).encode()
        s = socket.socket(socket.AF_UNIX)
        for _ in range(200):
            try:
                s.connect(self.sock)
                break
            except (BlockingIOError, ConnectionRefusedError):
                time.sleep(0.02)
        s.sendall(struct.pack("<I", len(b)) + b)
        ln = b""
        while len(ln) < 4:
            d = s.recv(4 - len(ln))
            if not d:
                raise RuntimeError("mir server died on %r" % (kw,))
            ln += d
        n = struct.unpack("<I", ln)[0]
        parts = []
        while n:
            d = s.recv(min(n, 1 << 20))
            if not d:
                raise RuntimeError("mir server died")
            parts.append(d)
            n -= len(d)
        s.close()
        return json.loads(b"".join(parts))

    def ty(self, i):
        t = self.tyc.get(i)
        if t is None:
            t = self.q(cmd="ty", id=i)
            if t.get("path"):
                t["path"] = strip_generics(t["path"])
            self.tyc[i] = t
        return t

    def inst(self, i):
        t = self.instc.get(i)
        if t is None:
            t = self.q(cmd="inst", id=i)
            t["rpath"] = t["path"]
            t["path"] = strip_generics(t["path"])
            if t.get("titem"):
                t["titem"] = strip_generics(t["titem"])
            self.instc[i] = t
        return t

    def method(self, trait, name, args):
        k = (trait, name, tuple(args))
        r = self.methc.get(k)
        if r is None:
            x = self.q(cmd="method", trait=trait, name=name, args=list(args))
            r = x.get("inst", -1)
            if r == -1:
                self.meth_err = x
            self.methc[k] = r
        return r if r != -1 else None

    def body(self, i):
        return self.q(cmd="body", id=i)


def start(args_file, sock):
    sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    env = dict(os.environ, LD_LIBRARY_PATH=sysroot + "/lib", RUSTUP_TOOLCHAIN="nightly")
    p = subprocess.Popen([os.path.join(BUILD, "driver/debug/mirsrv"), "--serve", sock, args_file], env=env,
                         stdout=subprocess.PIPE, stderr=open(sock + ".err", "w"), text=True)
    while True:
        l = p.stdout.readline()
        if not l:
            raise RuntimeError("mir server did not start: " + open(sock + ".err").read()[-2000:])
        if l.startswith("READY"):
            break
    return p
