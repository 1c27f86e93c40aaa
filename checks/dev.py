"""dev.py [-c N] [-t SECONDS] SCENARIO... : run scenarios and print what they find"""
import sys, os, time, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
a = argparse.ArgumentParser()
a.add_argument("-c", type=int, default=8)
a.add_argument("-t", type=float, default=60)
a.add_argument("-b", action="store_true")
a.add_argument("-r", action="store_true")
a.add_argument("-e", action="store_true", help="show tapes of errors")
a.add_argument("scen", nargs="+")
a.add_argument("-f", action="store_true", help="with the foreign interface")
o = a.parse_args()
lib.FFI = o.f
args = os.path.join(lib.BUILD, "harness%s.args" % lib.sfx())
if o.b:
    args, t = lib.build()
    print("build %.1fs" % t)
import subprocess
names = subprocess.run([lib.binary()], stdout=subprocess.PIPE).stdout.decode().split()
s = lib.Session(args)
try:
    for pat in o.scen:
        for n in [x for x in names if x == pat or (pat.endswith("*") and x.startswith(pat[:-1]))]:
            t0 = time.time()
            if o.c:
                try:
                    bad, got = s.compare(n, o.c, 1)
                    st = {}
                    for g in got:
                        st[g[0][:90]] = st.get(g[0][:90], 0) + 1
                    print("==", n, "concrete", st, "%.1fs" % (time.time() - t0))
                    for b in bad[:4]:
                        print("   MISMATCH", b)
                except Exception as e:
                    import traceback
                    print("==", n, "concrete failed:", repr(e)[:600])
                    if os.environ.get("TB"):
                        traceback.print_exc()
            if o.t:
                r = s.R.explore(n, time.time() + o.t, reverse=o.r)
                print("  ", n, {k: r[k] for k in ("paths", "assumed", "reached", "queries", "checks", "proved", "incomplete")}, "qtime %.1f wall %.1f" % (r["qtime"], r["wall"]))
                for k, v in sorted(r["errors"].items(), key=lambda x: -x[1])[:6]:
                    print("     ERROR", v, (k if len(k) < 500 else k[:120] + " ... " + k[-380:]))
                if o.e:
                    for t in r["errtapes"][:3]:
                        print("      errtape", t)
                for w in sorted(r["viol_counts"]):
                    tapes = [t for k, t in r["viol"] if k == w]
                    c = s.confirm(n, w, tapes)
                    print("     VIOL x%d %s: %s %s" % (r["viol_counts"][w], "confirmed" if c else "UNCONFIRMED", w, c or tapes[0]))
            sys.stdout.flush()
finally:
    s.close()
