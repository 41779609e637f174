"""Collections: TLC writes long histories (ICGen), the driver runs them and all short histories, TLC validates every distinct transition (ICTrace)"""
import json, time, os, re
from vf import *

KINDS = ["unsorted", "sorted", "hash", "static", "rb", "avl"]
GEN = "SPECIFICATION GSpec\nCONSTANTS Keys = {}\n MaxLen = 0\nCHECK_DEADLOCK FALSE\nINVARIANT Write\n"
TRC = "SPECIFICATION TraceSpec\nCONSTANTS Keys = {}\n MaxLen = 0\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n"
MC = "SPECIFICATION Spec\nCONSTANTS Keys <- K\n MaxLen = 2\nCHECK_DEADLOCK FALSE\nINVARIANTS OneOfEach Truthful\nPROPERTY Effective\n"

def gen_histories(work, profiles, seed):
    """profiles: list of (name, dict, number)"""
    def one(a):
        i, (name, p, num) = a
        d = os.path.dirname(work.path("icgen", name, "x"))
        json.dump(p, open(d + "/p.json", "w"))
        out = d + "/out.ndjson"
        rc, so = tlc("ICGen", GEN, d, {"VF_PROFILE": d + "/p.json", "VF_OUT": out}, args=["-simulate", "num=%d" % num, "-depth", str(p["len"] + 2), "-seed", str(seed * 100 + i)])
        if rc != 0 or not os.path.exists(out): raise CheckError("ICGen failed rc=%d\n%s" % (rc, so[-2000:]))
        return [json.loads(l) for l in open(out)], tlc_stats(so)
    return parallel(one, list(enumerate(profiles)))

def text(h):
    r = []
    for o in h["h"]:
        k = o["k"]
        if o["o"] == "K": r.append("K %s %d %d" % (h["kind"], k[0], k[1]))
        elif o["o"] == "x": r.append("x %d %d %s" % (o["f"], len(o["a"]), " ".join("%d %d" % tuple(x) for x in o["a"])))
        elif o["o"] == "e": r.append("e %d" % k[0])
        elif o["o"] == "F": r.append("F")
        else: r.append("%s %d %d %d" % (o["o"], k[0], k[1], o["f"]))
    return "\n".join(r)

def validate(work, module, cfg, lines, tag, env=None, mem="3g"):
    """TLC validates transitions; returns (violations with the transition, states)"""
    k = max(1, min(NCPU, len(lines) // 50 or 1))
    def one(i):
        ch = lines[i::k]
        d = os.path.dirname(work.path("val", tag + str(i), "x"))
        p = d + "/t.ndjson"; open(p, "w").write("\n".join(ch) + "\n")
        out = d + "/bad.txt"
        if os.path.exists(out): os.unlink(out)
        e = {"VF_TRACE": p, "VF_OUT": out}; e.update(env or {})
        rc, so = tlc(module, cfg, d, e, mem=mem)
        bad = [json.loads(l) for l in open(out) if l.strip()] if os.path.exists(out) else []
        if rc != 0: raise CheckError("%s failed rc=%d\n%s" % (module, rc, so[-3000:]))
        for b in bad: b["event"] = ch[b["line"] - 1]
        return bad, tlc_stats(so)[1]
    bad, st = [], 0
    for b, s in parallel(one, range(k)): bad += b; st += s
    return bad, st

def drive(work, exe, cmds, tag, timeout=600):
    """cmds: list of texts, one driver process each; returns (list of distinct lines, transitions, crash)"""
    def one(a):
        i, c = a
        p = work.path("drv", "%s%d.cmd" % (tag, i)); open(p, "w").write(c + "\n")
        rc, so, se = run([exe, p], env=DRV_ENV, timeout=timeout)
        m = re.search(r"DONE (\d+)", se)
        if rc == 0 and m: return so.splitlines(), int(m.group(1)), None
        what = re.findall(r"(ERROR: AddressSanitizer[^\n]*|SUMMARY:[^\n]*)", se)
        return so.splitlines()[:-1], 0, (c, "exit %d %s" % (rc, "; ".join(what)[:300] or ("timeout" if rc == -99 else se[-300:])), se)
    lines, n, crash = {}, 0, None
    for i, (l, m, c) in enumerate(parallel(one, list(enumerate(cmds)))):
        n += m
        for x in l: lines.setdefault(x, i)
        if c and not crash: crash = c
    return lines, n, crash

def run_ic(pid, faults):
    t0 = time.time(); work = Work(pid)
    try:
        exe = build_driver(work, build_lib(work), "ic")
        # the definitions themselves
        d = os.path.dirname(work.path("mc", "x"))
        rc, so = tlc("ICMC", MC, d, workers=4, timeout=300)
        if rc != 0: raise CheckError("the definitions of IC do not satisfy their invariants\n" + so[-2000:])
        mcst = tlc_stats(so)
        # long histories
        pf = 12 if faults else 0
        prof = []
        for i, kd in enumerate(KINDS):
            prof.append((kd + "_s", dict(kinds=[kd], cmps=[0, 1] if faults else [0, 1, 2], nv=6, ni=3, pfail=pf, pindex=4, len=40, maxarr=9, turn=12), 300 if THOROUGH else 40))
            prof.append((kd + "_l", dict(kinds=[kd], cmps=[0, 1] if faults else [0, 1, 2], nv=40, ni=2, pfail=pf // 2, pindex=1, len=200, maxarr=30, turn=50), 60 if THOROUGH else 8))
        res = gen_histories(work, prof, SEED)
        hist = [h for hs, _ in res for h in hs]
        cmds = ["\n".join(text(h) for h in hist[i::NCPU]) for i in range(NCPU)]
        # all short histories
        ex = []
        for kd in KINDS:
            for cm, hm in (([(0, 0), (0, 1), (1, 2)] if faults else [(0, 0), (0, 1), (2, 0)]) if kd == "hash" else [(0, 0)]):
                if faults: ex.append("K %s %d %d\nE %d 2 2 1" % (kd, cm, hm, 4 if THOROUGH else 3))
                else: ex.append("K %s %d %d\nE %d 3 2 0" % (kd, cm, hm, 5 if THOROUGH else 4))
        lines, n, crash = drive(work, exe, cmds + ex, "q")
        keep = list(lines)
        if faults: keep = [l for l in keep if '"failed":1' in l or '"op":"free"' in l] + [l for l in keep if not ('"failed":1' in l or '"op":"free"' in l)]
        bad, st = validate(work, "ICTrace", TRC, keep, "v")
        viol = bad
        if not faults: viol = [b for b in bad if b["kind"] != "oom"]
        cov = {"states": st + mcst[1], "transitions": n, "distinct_transitions": len(keep), "histories_generated": len(hist), "model_states": mcst[1],
               "traces_validated_against_impl": len(hist), "samples": [text(h).replace("\n", "; ")[:300] for h in hist[:3]], "with_allocation_failure": sum('"failed":1' in l for l in keep)}
        if not keep: raise CheckError("nothing was explored")
        evidence(pid, "fault_enumeration" if faults else "model_checking", dict(cov, evaluations=n, distinct_nontrivial=len(keep), rule="distinct (collection before, operation, failed allocation, result, collection after)") if faults else cov, t0, len(viol) + bool(crash))
        if crash:
            p = save_replay(pid, "crash.cmd", crash[0] + "\n# " + crash[1] + "\n"); print("the library crashed: " + crash[1]); print("VIOLATION property=%s replay=%s" % (pid, p)); return 1
        if viol:
            viol.sort(key=lambda b: len(b["event"]))
            p = save_replay(pid, "transition.json", json.dumps(viol[0], indent=1) + "\n")
            print(viol[0]["why"][:800]); print("VIOLATION property=%s replay=%s" % (pid, p)); return 1
        print("%s: held on %d transitions (%d distinct)" % (pid, n, len(keep)))
        return 0
    finally: work.done()

TMC = "SPECIFICATION Spec\nCONSTANT MaxKey = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS AlwaysBalanced AlwaysShallow CanInsert\n"
TTR = "SPECIFICATION TraceSpec\nCONSTANT MaxKey = 0\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n"
def run_tree(pid="C10"):
    t0 = time.time(); work = Work(pid)
    try:
        exe = build_driver(work, build_lib(work), "tree")
        d = os.path.dirname(work.path("mc", "x"))
        rc, so = tlc("Tree", TMC % (5 if THOROUGH else 4), d, workers=4, timeout=600)
        if rc != 0: raise CheckError("the definitions of Tree do not satisfy their invariants\n" + so[-2000:])
        mcst = tlc_stats(so)
        prof = []
        for kd in ("rb", "avl"):
            for j, (nv, ln, num) in enumerate([(24, 120, 12), (150, 350, 2)]):
                prof.append(("%s%d" % (kd, j), dict(kinds=[kd], cmps=[0], nv=nv, ni=1, pfail=0, pindex=0, len=ln, maxarr=5, turn=ln // 3), num * (8 if THOROUGH else 1)))
        res = gen_histories(work, prof, SEED)
        hist = [h for hs, _ in res for h in hs]
        cmds = []
        for h in hist:
            r = ["K " + h["kind"]]
            for i, o in enumerate(h["h"]):
                if o["o"] in "adf": r.append("%s %d" % (o["o"], 2 * o["k"][0]))
                if i % 8 == 0: r.append("n %d" % (2 * o["k"][0]))
            cmds.append("\n".join(r))
        N = 120
        for kd in ("rb", "avl"):
            for order in (range(N), range(N, 0, -1), [i // 2 if i % 2 else N - i // 2 for i in range(N)]):
                for dele in (list(order), list(order)[::-1]):
                    cmds.append("K %s\n" % kd + "\n".join("a %d\nn %d" % (i, i) if n % 9 == 0 else "a %d" % i for n, i in enumerate(order)) + "\n" +
                                "\n".join("d %d\nn %d" % (i, i) if n % 9 == 0 else "d %d" % i for n, i in enumerate(dele)))
            cmds.append("B %s %d 0" % (kd, 9 if THOROUGH else 7))
            cmds.append("B %s %d 1" % (kd, 6 if THOROUGH else 5))
        lines, n, crash = drive(work, exe, cmds, "q")
        keep = list(lines)
        bad, st = validate(work, "TreeTrace", TTR, keep, "v")
        cov = {"states": st + mcst[1], "transitions": n, "distinct_transitions": len(keep), "histories_generated": len(hist), "model_states": mcst[1], "model_transitions": mcst[0],
               "traces_validated_against_impl": len(cmds), "exhaustive_keys": 9 if THOROUGH else 7, "samples": [keep[i][:300] for i in (0, len(keep) // 2, len(keep) - 1)] if keep else []}
        if not keep and not crash: raise CheckError("nothing was explored")
        evidence(pid, "model_checking", cov, t0, len(bad) + bool(crash))
        if crash:
            p = save_replay(pid, "crash.cmd", crash[0] + "\n# " + crash[1] + "\n"); print("the library crashed: " + crash[1]); print("VIOLATION property=%s replay=%s" % (pid, p)); return 1
        if bad:
            bad.sort(key=lambda b: len(b["event"]))
            p = save_replay(pid, "transition.json", json.dumps(bad[0], indent=1) + "\n")
            print(bad[0]["why"] + " " + bad[0]["event"][:800]); print("VIOLATION property=%s replay=%s" % (pid, p)); return 1
        print("%s: held on %d transitions (%d distinct)" % (pid, n, len(keep)))
        return 0
    finally: work.done()
