"""Runs one scenario: concretely on random tapes (validation of the executor) and symbolically."""
import gc, json, os, random, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vals, core, strs, models, models2, models3, models4, mir
from vals import *
from core import Ex

ROOT = os.path.dirname(HERE)
BUILD = os.path.join(ROOT, "build")


class Tape:
    """random values of a concrete run"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def int(self, w):
        r = self.r
        k = r.randrange(4)
        if w == 1:
            return r.randrange(2)
        if k == 0:
            return r.randrange(1 << w)
        if k == 1:
            return r.choice([0, 1, 2, 15, 16, 255, 16383, 16384, 65535]) % (1 << w)
        return r.randrange(40)

    def choose(self, n):
        return self.r.randrange(n)

    def bytes(self, n, mask):
        c = [i for i in range(256) if mask >> i & 1]
        nice = [i for i in c if 32 < i < 127] or c
        return bytes(self.r.choice(nice if self.r.random() < 0.7 else c) for _ in range(n))


class Replay:
    """values of a recorded tape"""

    def __init__(self, tape):
        self.t = list(tape)
        self.i = 0

    def nx(self):
        if self.i >= len(self.t):
            raise AssumeFailed()
        self.i += 1
        return self.t[self.i - 1]

    def int(self, w):
        return int(self.nx()[2:])

    def choose(self, n):
        return int(self.nx()[2:])

    def bytes(self, n, mask):
        return bytes.fromhex(self.nx()[2:])


def make_ex(sock):
    srv = mir.Server(sock)
    ex = Ex(srv)
    ex.models = models.M
    ex.cmodels = models.CM
    models.EXH[0] = ex
    pf = models._panic_factory
    orig = ex.bind1

    def bind1(inst, inf, path, cargs):
        p = inf["path"]
        if inf["crate"] not in core.LOCAL:
            for x in models.PANIC_PREFIX:
                if p.startswith(x):
                    return pf(ex, inf)
        return orig(inst, inf, path, cargs)
    ex.bind1 = bind1
    return ex


def tape_lines(tape):
    out = []
    for k, v in tape:
        out.append("i %d" % v if k == 'i' else "b " + bytes(v).hex())
    return out


class Runner:
    def __init__(self, sock):
        self.ex = make_ex(sock)
        self.roots = {}

    def root(self, name):
        f = self.roots.get(name)
        if f is None:
            r = self.ex.srv.q(cmd="root", name="vh::scen::" + name)
            if r.get("inst", -1) in (-1, None):
                raise Unsupported("no scenario " + name + " " + str(r))
            f = self.ex.bind(r["inst"])
            self.roots[name] = f
        return f

    def fresh(self):
        cov = EN.covnew
        EN.reset()
        EN.covnew = cov
        self.ex.statics.clear()
        models3.reset_world()

    def concrete(self, name, src):
        """one concrete run; returns the lines vh would print"""
        self.fresh()
        EN.concrete = src
        EN.tokens = None
        f = self.root(name)
        try:
            f()
            st = "END"
        except AssumeFailed:
            st = "ASSUME"
        except RustPanic as e:
            st = "PANIC " + str(e)
        tape = tape_lines(EN.tape)
        r = (st, list(EN.fails), list(EN.obs), tape, EN.nreached)
        EN.concrete = None
        return r

    def explore(self, name, deadline, jobs=8, panics=True, reverse=False, mem=None):
        """symbolic exploration of all paths; returns the summary"""
        f = self.root(name)
        r, w = os.pipe()
        tr, tw = os.pipe()
        os.set_blocking(tr, False)
        os.write(tw, b"x" * (jobs - 1))
        gc.collect()
        gc.freeze()
        t0 = time.time()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                gc.disable()
                self.fresh()
                EN.out = w
                EN.tokens = (tr, tw)
                EN.deadline = deadline
                strs.EN_OPTS["reverse_hash"] = reverse
                self.one(f, panics)
            except BaseException as e:
                try:
                    import traceback
                    EN.emit(t="err", msg="internal: %r %s" % (e, traceback.format_exc()[-1500:]))
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(w)
        os.close(tr)
        os.close(tw)
        res = {"scenario": name, "paths": 0, "assumed": 0, "panics": 0, "reached": 0, "queries": 0, "qtime": 0.0, "branches": 0,
               "checks": 0, "proved": 0, "viol": [], "errors": {}, "incomplete": 0, "cov": set(), "errtapes": []}
        buf = b""
        seen = {}
        import select
        while True:
            if deadline and time.time() > deadline + 20:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                res["incomplete"] += 1
                break
            rd, _, _ = select.select([r], [], [], 1.0)
            if not rd:
                continue
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
            while b"\n" in buf:
                l, buf = buf.split(b"\n", 1)
                try:
                    x = json.loads(l)
                except ValueError:
                    res["errors"]["garbled report"] = res["errors"].get("garbled report", 0) + 1
                    continue
                t = x["t"]
                if t == "stat":
                    for k in ("queries", "qtime", "branches", "checks", "proved"):
                        res[k] += x[k]
                    res["cov"].update(x["cov"])
                elif t == "path":
                    res["paths"] += 1
                    if x["k"] == "assume":
                        res["assumed"] += 1
                    res["reached"] += x["reached"]
                elif t == "viol":
                    k = x["what"]
                    seen[k] = seen.get(k, 0) + 1
                    if seen[k] <= 6:
                        res["viol"].append((k, x["tape"]))
                elif t == "err":
                    m_ = x["msg"]
                    res["errors"][m_] = res["errors"].get(m_, 0) + 1
                    if x.get("tape") is not None and len(res["errtapes"]) < 40:
                        res["errtapes"].append(x["tape"])
                elif t == "inc":
                    res["incomplete"] += 1
        os.close(r)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        res["viol_counts"] = seen
        res["wall"] = time.time() - t0
        res["cov"] = sorted(res["cov"])
        return res

    def one(self, f, panics):
        kind = "end"
        try:
            f()
            EN.discharge()
        except RustPanic as e:
            kind = "panic"
            if panics:
                try:
                    tp = EN.model()
                    if tp is not None:
                        EN.emit(t="viol", what="panic: " + str(e)[:200], tape=tp)
                except Unsupported as u:
                    EN.emit(t="err", msg=str(u))
        except AssumeFailed:
            kind = "assume"
        except models3.Stopped:
            kind = "viol"
        except Stop:
            kind = "inc"
            EN.emit(t="inc")
        except (Unsupported, RecursionError) as e:
            kind = "err"
            tp = None
            try:
                tp = EN.model()
            except BaseException:
                pass
            EN.emit(t="err", msg=str(e)[:400], tape=tp)
        except BaseException as e:
            kind = "err"
            import traceback
            msg = "internal: %r %s" % (e, traceback.format_exc()[-1200:])
            tp = None
            try:
                tp = EN.model()
            except BaseException:
                pass
            EN.emit(t="err", msg=msg, tape=tp)
        EN.emit(t="path", k=kind, reached=EN.nreached)
        EN.finish()
        os._exit(0)


def native(binary, scen, tapes, scratch, timeout=300):
    """run tapes natively; list of (status, fails, obs)"""
    os.makedirs(scratch, exist_ok=True)
    tf = os.path.join(scratch, "tapes")
    with open(tf, "w") as h:
        h.write("\n---\n".join("\n".join(t) for t in tapes) + "\n")
    try:
        p = subprocess.run([binary, scen, tf, scratch], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return [("TIMEOUT", [], [])] * len(tapes)
    out = []
    for l in p.stdout.decode("utf-8", "replace").split("\n"):
        i = max(l.rfind("END\x1f"), 0) if False else 0
        parts = l.split("\x1f")
        st = parts[0]
        # log lines of the library may share stdout
        k = None
        for w in ("END", "ASSUME", "PANIC ", "NOSCENARIO"):
            if st == w or (w == "PANIC " and st.startswith(w)):
                k = st
        if k is None:
            continue
        out.append((k, [x[5:] for x in parts[1:] if x.startswith("FAIL ")], [x[4:] for x in parts[1:] if x.startswith("OBS ")]))
    if len(out) < len(tapes):
        out += [("DIED %d %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-300:]), [], [])] * (len(tapes) - len(out))
    return out
