"""Checks about described objects: TLC builds the objects (spec/HeapGen), the driver runs the library on them,
   TLC validates every reported event against the specification (spec/HeapTrace)."""
import time, json, os, random
import vf
from vf import *
from heaprun import *

TEXT = ["CINIT", "JSON", "SCM", "XML1", "XML2", "YAML"]
FORMATS = {"xml": TEXT + ["XDR"], "ctl": ["CINIT", "JSON", "SCM", "XML1", "YAML", "XDR"], "bytes": ["CINIT", "JSON", "SCM", "XML1", "XDR"]}
ALL = ["in_t", "nd_t", "si_t", "sf_t", "tx_t", "tt_t", "ar_t", "rv_t", "un_t", "bf_t", "en_t", "vd_t", "kw_t", "pp_t", "dl_t", "rt_t", "ex_t", "cr_t", "cx_t", "ve_t", "sz_t", "ud_t"]

def G(roots, num, ops, cls="xml", share=25, mb=10, pnull=10, maxlen=4, odd=0, n=30, rot=0):
    """random objects: num behaviours in each of 8 TLC simulations; rot: only that many of the operations per object, in turn"""
    return dict(roots=roots, num=num, ops=ops, cls=cls, share=share, mb=mb, pnull=pnull, maxlen=maxlen, odd=odd, n=n, rot=rot)
def X(roots, ops, mb=2, maxlen=2, vals=1, rot=0):
    """every object within the bounds"""
    return dict(roots=roots, num=None, ops=ops, cls="xml", share=0, mb=mb, pnull=0, maxlen=maxlen, odd=0, n=3, rot=rot, vals=vals)
def rt(fs): return ["rt " + f for f in fs]

def small(dom, T, vals):
    """few values per leaf, for the exhaustive mode"""
    for k in list(dom): dom[k] = sorted(set(dom[k]), key=lambda x: (len(x), x))[:vals]
    dom["i32"] = ["1", "-5", "7"][:vals]; dom["text"] = ["t:61", "t:", "t:6262"][:vals]
    dom["un_t.k1"] = ["0", "1", "2", "3"]; dom["un_t.k3"] = ["t:78", "t:79", "t:7a"]; dom["e:col_t"] = ["0", "1", "2"]; dom["un_t.k2"] = ["0", "1", "2"]
    return dom

def make(env, groups, seed):
    """scenarios of all groups: list of (id, heap, ops), and counters"""
    jobs, sid, scen, st = [], 0, [], 0
    for gi, g in enumerate(groups):
        rnd = random.Random(seed * 1000 + gi)
        dom, T = domains.domains(g["cls"], rnd, g["n"])
        dom = env.canon(dom, T)
        if g["num"] is None: dom = small(dom, T, g["vals"])
        prof = dict(roots=g["roots"], dom=dom, maxblocks=g["mb"], pnull=g["pnull"], pshare=g["share"], maxlen=g["maxlen"], odd=g["odd"], szmax=env.szmax)
        if g["num"] is None: jobs.append((gi, ("x%d" % gi, prof, None, 1)))
        else:
            for i in range(NCPU): jobs.append((gi, ("g%d_%d" % (gi, i), prof, g["num"], seed * 100000 + gi * 100 + i)))
    res = generate(env, [j for _, j in jobs], "gen")
    cnt = {"objects_random": 0, "objects_exhaustive": 0, "transitions": 0, "states": 0}
    for (gi, j), (heaps, stats) in zip(jobs, res):
        g = groups[gi]
        cnt["transitions"] += stats[0]; cnt["states"] += stats[1]
        cnt["objects_random" if g["num"] else "objects_exhaustive"] += len(heaps)
        for k, h in enumerate(heaps):
            sid += 1
            ops = g["ops"]
            if g["rot"]: ops = [g["ops"][(sid * g["rot"] + i) % len(g["ops"])] for i in range(g["rot"])]
            scen.append((sid, h, ops))
    return scen, cnt

def run_check(pid, groups, kinds, level_note="", variant="asan", events=None, extra=None, rule=None, level="model_checking", docs=None):
    """docs: groups for documents written by the specification (doccheck). kinds: failures of these kinds violate the property. rule(failure) -> key of a known finding or None"""
    t0 = time.time()
    work = Work(pid)
    try:
        env = HeapEnv(work, variant)
        scen, cnt = make(env, groups, SEED) if groups else ([], {})
        if docs:
            import doccheck
            ds, dc, _ = doccheck.documents(env, docs, SEED)
            scen += [(i + len(scen), h, o) for i, h, o in ds]
            for k, v in dc.items(): cnt[k] = cnt.get(k, 0) + v
        by = {s[0]: s for s in scen}
        evs, crashes = drive(env, scen, "d")
        bad, nev, states = validate(env, scen, evs, "v")
        mach = [b for b in bad if b["kind"] == "machinery"]
        if mach: raise CheckError("object was not built as specified: %s" % mach[0])
        fails = [b for b in bad if b["kind"] in kinds] + [{"sc": c[0], "ev": "crash", "fmt": "", "kind": "crash", "why": c[1]} for c in crashes]
        kf = dict(known(pid)); seen = {}
        viol = []
        for b in fails:
            k = b.get("key", "")
            if k and k in kf: seen.setdefault(k, b); continue
            viol.append(b)
        # confirm: the smallest failing objects again, alone
        viol.sort(key=lambda b: len(by[b["sc"]][1]["cells"]))
        conf = None
        for b in viol[:6]:
            s = by[b["sc"]]
            e2, c2 = drive(env, [s], "c")
            b2, _, _ = validate(env, [s], e2, "c")
            r = [x for x in b2 if x["kind"] in kinds and not (x.get("key", "") in kf and x.get("key", ""))] + [{"kind": "crash", "why": c[1], "ev": "crash", "fmt": ""} for c in c2]
            if r: conf = (s, r[0]); break
        cov = dict(cnt); cov.update({"events_validated": nev, "validation_states": states, "traces_validated_against_impl": len(evs), "crashes": len(crashes)})
        cov["states"] += states; cov["transitions"] += nev
        cov["samples"] = ["; ".join(commands(*scen[i]))[:600] for i in sorted({0, len(scen) // 2, len(scen) - 1})]
        kindcount = {}
        for es in evs.values():
            for e in es: kindcount[e["ev"] + (" " + e["fmt"] if "fmt" in e else "")] = kindcount.get(e["ev"] + (" " + e["fmt"] if "fmt" in e else ""), 0) + 1
        cov["events"] = kindcount
        if level == "fault_enumeration":
            rows = hit = base = 0
            for es in evs.values():
                for e in es:
                    if e["ev"] == "fault":
                        base += 1
                        rows += len(e["rows"]); hit += sum(1 for r in e["rows"] if r[2])
            cov.update({"evaluations": base + rows, "distinct_nontrivial": hit, "undisturbed_calls": base,
                        "rule": "objects generated by Heap.tla; each operation is repeated with its k-th allocation failing, for every k, once alone and once with all later ones; non-trivial: an allocation of that call was refused (object, operation, format, k and mode are different for each)"})
            if hit == 0: raise CheckError("no allocation was refused")
        if nev == 0 or not scen: raise CheckError("nothing was explored")
        for k, b in seen.items(): print("KNOWN-FINDING: property=%s %s" % (pid, kf[k]))
        if viol and not conf: raise CheckError("a failure did not reproduce: %s" % viol[0])
        ex_ok, ex_cov = True, {}
        if extra and not conf:
            ex_ok, ex_cov, ex_msg = extra(work, env)
            cov.update(ex_cov)
        ok = not conf and ex_ok
        evidence(pid, level, cov, t0, 0 if ok else max(1, len(viol)))
        if conf:
            s, r = conf
            p = save_replay(pid, "%s_%d.cmd" % (r["kind"], s[0]), "# build the driver: python3 lib/replay.py %s <this file>\n# %s\n" % (pid, json.dumps(r)[:1500]) + "\n".join(commands(*s)) + "\n")
            print("%s: %s" % (r["kind"], r["why"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        if not ex_ok:
            print(ex_msg[0][:1000]); print("VIOLATION property=%s replay=%s" % (pid, ex_msg[1]))
            return 1
        print("%s: held on %d objects, %d events (%s)" % (pid, len(scen), nev, ", ".join("%s: %s" % x for x in sorted(cov.items()) if not isinstance(x[1], dict))))
        return 0
    finally:
        work.done()
