"""run.py PROPERTY quick|thorough : decides one property by symbolic execution of /repo's current code.

exit 0  the property held on everything explored (what was not explored is listed in the evidence file)
exit 1  a violation, confirmed by running the compiled code on the solver's counterexample
exit 2  no answer (the code or the harness does not build, nothing could be executed)
"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, props

EXEC_CRATES = ("draviavemal_openxml_office",)
# the foreign interface is compiled together with the harness
EXEC_FFI = ("vh::spreadsheet::", "vh::document::", "vh::presentation::", "vh::utils::")


def known(pid):
    """(scenario, what) -> text of the findings recorded for the property"""
    out = {}
    p = os.path.join(lib.ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("fixed:") or l.startswith("#"):
                continue
            k = json.loads(l)
            if k["property"] == pid:
                out[(k["scenario"], k["what"])] = k
    return out


def short(tape):
    return " ".join(tape)[:400]


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    deep = tier == "thorough"
    if deep:
        os.environ["VH_DEEP"] = "1"
    else:
        os.environ.pop("VH_DEEP", None)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = props.PLAN[pid]
    lib.FFI = pid in props.FFI
    rel = deep and pid in props.RELEASE
    try:
        builds = [lib.build()]
        if rel:
            builds.append(lib.build(release=True))
    except lib.BuildError as e:
        print("cannot build: " + str(e))
        return 2
    tb = time.time() - t0
    print("built in %.1f s" % tb)
    budget = props.THOROUGH_S if deep else props.QUICK_S.get(pid, props.QUICK_DEFAULT)
    end = time.time() + budget
    kn = known(pid)
    tot = {k: 0 for k in ("paths", "assumed", "reached", "queries", "branches", "checks", "proved", "incomplete")}
    qtime = 0.0
    cov, per, viol, findings, notes, samples = set(), [], [], [], [], []
    validated = mism = 0
    runs = [(s, b[0], i, rev) for i, b in enumerate(builds) for s in plan for rev in ((False, True) if deep and s in props.HASHED else (False,))]
    cur, sess = None, None
    done = set()

    def judge(scen, what, tape, how):
        key = (scen, what)
        if key in done:
            return
        done.add(key)
        if key in kn:
            findings.append(key)
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[key]["text"]))
            return
        d = os.path.join(lib.BUILD, "replay", pid)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s_%d.tape" % (scen.replace("::", "_"), len(viol)))
        with open(f, "w") as h:
            h.write("\n".join(tape) + "\n")
        viol.append((scen, what, f))
        print("  %s: %s" % (scen, what))
        print("  found by %s, input: %s" % (how, short(tape)))
        print("  replay with: %s %s %s /tmp/replay" % (lib.binary(), scen, f))
        print("VIOLATION property=%s replay=%s" % (pid, f))
        sys.stdout.flush()

    try:
        for n, (scen, args, bi, rev) in enumerate(runs):
            if cur != args:
                if sess:
                    sess.close()
                sess, cur = lib.Session(args), args
            # the executor and the compiled code on the same random inputs
            if not rev and bi == 0:
                try:
                    bad, got = sess.compare(scen, 4 if not deep else 10, seed)
                    validated += len(got)
                    for tape, g, v in bad:
                        ok = False
                        for w in sess.engine.native(lib.binary(), scen, [tape] * 4, sess.scratch):
                            ok = ok or lib.same((g[0], g[1], g[2], tape), w)
                        if not ok:
                            mism += 1
                            notes.append("%s: executor and compiled code differ: %s / %s" % (scen, str(g)[:200], str(v)[:200]))
                        for w in v[1]:
                            judge(scen, w.split(" (got ")[0], tape, "a run of the compiled code")
                        if v[0].startswith(("PANIC", "DIED")) or v[0] == "TIMEOUT":
                            judge(scen, "panic: " + lib.panic_text(v[0]), tape, "a run of the compiled code")
                except Exception as e:
                    notes.append("%s: concrete runs failed: %r" % (scen, str(e)[:300]))
            left = end - time.time()
            share = max(left / (len(runs) - n), 4.0)
            r = sess.R.explore(scen, time.time() + share, reverse=rev)
            for k in tot:
                tot[k] += r[k]
            qtime += r["qtime"]
            cov.update(r["cov"])
            for e, c in sorted(r["errors"].items(), key=lambda x: -x[1])[:5]:
                notes.append("%s: %d path(s) not decided: %s" % (scen, c, e[:300]))
            # paths the executor could not follow: at least the compiled code must not fail on their inputs
            nerr = 0
            if r["errtapes"]:
                for t, v in zip(r["errtapes"], sess.engine.native(lib.binary(), scen, r["errtapes"], sess.scratch)):
                    nerr += v[0] == "END"
                    for w in v[1]:
                        judge(scen, w.split(" (got ")[0], t, "the inputs of a path left undecided")
                    if v[0].startswith(("PANIC", "DIED")) or v[0] == "TIMEOUT":
                        judge(scen, "panic: " + lib.panic_text(v[0]), t, "the inputs of a path left undecided")
            for w in sorted(r["viol_counts"]):
                tapes = [t for k, t in r["viol"] if k == w]
                c = sess.confirm(scen, w, tapes)
                if c is None and bi == 1:
                    c = sess.confirm(scen, w, tapes, release=True)
                if c is not None:
                    judge(scen, w, c, "the solver")
                else:
                    notes.append("%s: counterexample not reproduced by the compiled code, not reported: %s [%s]" % (scen, w, short(tapes[0])))
            if r["incomplete"]:
                notes.append("%s: %d subtree(s) left when the time was up" % (scen, r["incomplete"]))
            if len(samples) < 8 and r["paths"]:
                samples.append("%s: %d paths, %d assertions decided, %d solver queries, %.1f s solver time" % (scen, r["paths"], r["checks"], r["queries"], r["qtime"]))
            per.append({"scenario": scen, "build": "release" if bi else "debug", "reverse_hash_order": rev, "paths": r["paths"], "paths_ended_by_assumption": r["assumed"],
                        "paths_completed": r["reached"], "paths_undecided": sum(r["errors"].values()), "undecided_inputs_run_natively": nerr, "subtrees_unexplored": r["incomplete"],
                        "assertions": r["checks"], "assertions_proved_by_solver": r["proved"], "queries": r["queries"], "solver_s": round(r["qtime"], 2), "wall_s": round(r["wall"], 2), "bound": props.bound_text(scen, deep)})
            print("  %-28s %6d paths %6d completed %7d assertions %6d queries %6.1f s%s" % (
                scen, r["paths"], r["reached"], r["checks"], r["queries"], r["wall"], "  INCOMPLETE" if r["incomplete"] or r["errors"] else ""))
            sys.stdout.flush()
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if sess:
            sess.close()
    for x in notes:
        print("  note: " + x)
    fns = sorted(x for x in cov if any(x.startswith(c) for c in EXEC_CRATES + (EXEC_FFI if lib.FFI else ())))
    samples.append("functions of the library executed symbolically: " + ", ".join(fns[:12]) + (" ..." if len(fns) > 12 else ""))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["paths"], "transitions": tot["branches"], "traces_validated_against_impl": validated, "samples": samples,
                       "paths_completed": tot["reached"], "assertions_decided": tot["checks"], "assertions_proved_by_solver": tot["proved"], "solver_queries": tot["queries"], "solver_s": round(qtime, 2),
                       "exhaustive": not tot["incomplete"] and not any(p["paths_undecided"] for p in per),
                       "functions_encoded": fns, "scenarios": per, "build_s": round(tb, 1), "executor_mismatches": mism,
                       "known_findings_seen": ["%s: %s" % k for k in findings], "not_decided": notes},
          "assumptions": props.ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(lib.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(lib.ROOT, "evidence", pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    print("%s %s: %d paths, %d assertions, %d queries, %.1f s solver, %.1f s wall, %d violation(s)" % (
        pid, tier, tot["paths"], tot["checks"], tot["queries"], qtime, time.time() - t0, len(viol)))
    if viol:
        return 1
    if tot["reached"] == 0 and not any(p["undecided_inputs_run_natively"] for p in per):
        print("nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    r = main()
    sys.stdout.flush()
    os._exit(r)
