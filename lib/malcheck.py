"""C07: loads of damaged documents. TLC generates the damage (spec/MalGen) and judges what the loads did (spec/MalTrace)."""
import time, json, os, random, re, threading
import vf
from vf import *
from heaprun import *
import heapcheck, domains

COMMON = ["", " ", "0", "1", "-1", "2", "3", "4", "5", "7", "99999", "4294967295", "-4294967296", "18446744073709551616", "1e999", "0x", "08", "null", "x", "a.b", "\x80", "\xff\xfe", "\n", "\t", "\\", "\"", "'"]
WORDS = {
 "CINIT": ["{", "}", "(", ")", "[", "]", ",", ".", "=", "|", "+", "*", "-", "/*", "//", "& ", "\"\"", "\"ref\"", "\"a\\", "'a'", "\"\\x\"", "\"\\777\"", "[ 0 ] = ", "[ 100 ] = ", "(in_t)", "(nd_t*) ", "/* ref */", "/* ref_idx = 1 */", "\"ref\" , ", "\"ref_content\"", "C_RED", "vf_fn_a", "NULL", "{ }", ", ,", "1.5", ".5f", "{ \"ref\" }"],
 "JSON": ["{", "}", "[", "]", ":", ",", "\"\"", "\"ref\" : 1", "\"ref\" : 2 , ", "\"ref_idx\" : 1 , ", "\"ref_content\" : 1", "true", "[]", "{}", "\"a\\", "\"\\u12", "\"v\" : ", "\"next\" : { } , ", "1.5", "\"\\ud800\"", "- 1", "|"],
 "SCM": ["(", ")", "()", "(())", " . ", "'", "#", "#t", "#f", "#x", "#i", "#e", "#\\a", "#\\", "#\\x100", "nil", ";", ";; (ref . 1)\n", ";; (ref . 2)\n", ";; (ref_idx . 1)\n", ";; (ref_content . 1)\n", "(v . 1)", "(next . ())", "\"\"", "\"a\\", "-", "+", "1+1i", "(list 1)", "|"],
 "XML1": ["<", ">", "</", "/>", "/", "=", "<?", "?>", "<?xml?>", "<!--", "-->", "&", ";", "&lt;", "&#1;", "&#x", "&#x110000;", "&aaaaaaaaaaaaaaaaaaaa", "<v>", "</v>", "<v/>", "<next>", "</next>", "<![CDATA[", "]]>", " ref=\"1\"", " ref=\"2\"", " ref=\"99999\"", " ref_idx=\"1\"", " ref_content=\"1\"", " isnull=\"true\"", "ref", "<x ref=\"1\"><v>1</v></x>", "&#0;"],
 "YAML": ["-", "- ", ": ", "? ", "{", "}", "[", "]", ",", "|", ">", "&1 ", "*1 ", "&2 ", "*2", "*99999", "* ", "& ", "!", "!!str ", "!ref ", "%YAML", "---\n", "...\n", "#", "\n  ", "\n- ", "~", "v: 1\n", "next: \n", "\"\\x\"", "'", "ref: 1", "*1: 2", "&1 *1", "!ref_content *1"],
}
WORDS["XML2"] = WORDS["XML1"]
XWORDS = ["00000000", "00000001", "00000002", "00000003", "00000004", "00000005", "00000006", "00000008", "00000009", "0000000c", "00000010", "00000011", "00000014", "00000020", "00000040", "00000080", "000000ff", "00000100", "00001000", "00010000", "7fffffff", "80000000", "ffffffff", "fffffffc", "3fffffff", "40000000", "", "00", "0000", "000000", "61626300", "78000000"]
ALLF = ["CINIT", "JSON", "SCM", "XML1", "XML2", "YAML", "XDR"]

def judged(T, root):
    seen, todo = set(), [root]
    while todo:
        t = todo.pop()
        if t in seen: continue
        seen.add(t); d = T[t]
        if d["k"] in ("union", "rptr", "larr"): return 0
        todo += [d["elem"]] if d["elem"] else []
        todo += [f["t"] for f in d["f"]]
    return 1

CFG = "SPECIFICATION Spec\nCONSTANTS Edits = %d Random = %s\nCHECK_DEADLOCK FALSE\nINVARIANTS Lexemes Lengths Replayed\n"
def gen_scripts(env, jobs):
    """jobs: (name, profile, edits, num or None, seed) -> scripts [[n, [edit, ...]], ...]"""
    def one(a):
        name, prof, edits, num, seed = a
        d = os.path.dirname(env.work.path("mal", name, "x"))
        p = os.path.join(d, "profile.json"); json.dump(prof, open(p, "w"))
        out = os.path.join(d, "out.ndjson")
        e = {"VF_PROFILE": p, "VF_OUT": out}
        if num is None: rc, so = tlc("MalGen", CFG % (edits, "FALSE"), d, e, workers=1, mem="4g")
        else: rc, so = tlc("MalGen", CFG % (edits, "TRUE"), d, e, args=["-simulate", "num=%d" % num, "-depth", str(edits + 1), "-seed", str(seed)], mem="2g")
        if rc or not os.path.exists(out): raise CheckError("MalGen %s rc=%d\n%s" % (name, rc, so[-2000:]))
        return [json.loads(l) for l in open(out) if l.strip()], tlc_stats(so)
    return parallel(one, jobs)

def cmd(s, sf, wf, frm):
    sid, h, f, mode, jd, step, off = s
    return ["S %d" % sid, "M 0"] + build(h) + ["O mal %s %s %s %s %d %d %d" % (f, mode, sf, wf, jd, max(frm, off), step)]

def drive_mal(env, jobs, tag, timeout=900):
    """jobs: list of (scenario, script file, word file, from). Returns events, crashes [(scenario, script index, edits, document, why)]"""
    order = list(jobs)
    k = NCPU
    chunks = [order[i::k] for i in range(k)]
    def one(ci):
        i, rest = ci
        evs, crashes, rnd = [], [], 0
        while rest:
            p = env.work.path("mdrv", "%s_%d_%d.cmd" % (tag, i, rnd)); rnd += 1
            open(p, "w").write("\n".join("\n".join(cmd(*j)) for j in rest) + "\n")
            rc, so, se = run([env.exe, p], env=DRV_ENV, timeout=timeout)
            for l in so.splitlines():
                try: evs.append(json.loads(l))
                except ValueError: pass
            if rc == 0 and "DONE" in se: break
            if rc == 3: raise CheckError("driver rejected a command: " + se[-400:])
            m = re.findall(r"^MAL (\d+) (\S+) (\S) (\S+) (\d+) (\S*) ([0-9a-f]*)$", se, re.M)
            sids = re.findall(r"^SC (\d+)$", se, re.M)
            what = re.findall(r"ERROR: AddressSanitizer: (\S+)", se) or (["hang"] if "MALHANG" in se else ["timeout" if rc == -99 else "exit %d" % rc])
            fr = re.findall(r"^    #\d+ \S+ in (\S+) /\S*/src/(\S+?)[:\s]", se, re.M)
            top = "%s:%s" % (fr[0][1], fr[0][0]) if fr else ""
            sid = int(sids[-1])
            pos = [n for n, j in enumerate(rest) if j[0][0] == sid][0]
            if m:
                x = m[-1]
                crashes.append((rest[pos][0], int(x[4]), x[5], x[6], "%s in %s" % (what[0], top)))
                j = rest[pos]; rest = [(j[0], j[1], j[2], int(x[4]) + j[0][5])] + rest[pos + 1:]
            else:
                crashes.append((rest[pos][0], -1, "", "", "%s in %s: %s" % (what[0], top, se[-300:])))
                rest = rest[pos + 1:]
            if len(crashes) > env.max_crashes: break
        return evs, crashes
    evs, crashes = [], []
    for e, c in parallel(one, list(enumerate(chunks))): evs += e; crashes += c
    return evs, crashes

TR = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n"
def validate_mal(env, evs, tag):
    k = max(1, min(NCPU, len(evs)))
    order = sorted(evs, key=lambda e: -len(e["rows"]))
    def one(i):
        ch = order[i::k]
        d = os.path.dirname(env.work.path("mval", tag + str(i), "x"))
        p, out = os.path.join(d, "trace.ndjson"), os.path.join(d, "bad.txt")
        with open(p, "w") as f:
            for e in ch: f.write(json.dumps(e) + "\n")
        if os.path.exists(out): os.unlink(out)
        rc, so = tlc("MalTrace", TR, d, {"VF_TRACE": p, "VF_OUT": out}, mem="3g")
        if rc: raise CheckError("MalTrace failed rc=%d\n%s" % (rc, so[-3000:]))
        bad = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
        return [(ch[b["line"] - 1], ch[b["line"] - 1]["rows"][b["row"] - 1], b) for b in bad], tlc_stats(so)
    r, st = [], 0
    for b, s in parallel(one, range(k)): r += b; st += s[1]
    return r, st

def explore(work, small, rest, num, rnd, step, byt, max_crashes=3, only=None):
    """small: roots with every single edit; rest: roots with every step-th one; num objects of each; rnd: random scripts of
       each of 6 simulations; byt: roots whose documents are damaged byte by byte as well"""
    env = HeapEnv(work); env.max_crashes = max_crashes
    T = env.schema["types"]
    roots = small + [r for r in rest if r not in small]
    scen, cnt = heapcheck.make(env, [heapcheck.G([r], 1, [], mb=4, share=45, pnull=30, maxlen=2, n=4) for r in roots], SEED)
    byroot = {}
    for s in scen: byroot.setdefault(s[1]["root"], []).append(s[1])
    objs = []
    for r, l in byroot.items():
        l.sort(key=lambda h: len(h["cells"]))
        objs += [(r, h) for h in (l[len(l) // 3: len(l) // 3 + num] or l[:num])] # medium sized objects
    words = {}
    for f in ALLF:
        p = work.path("words_" + f)
        ws = [bytes.fromhex(x) for x in XWORDS] if f == "XDR" else [x.encode("latin1") for x in COMMON + WORDS[f]]
        open(p, "w").write("\n".join(x.hex() for x in ws) + "\n"); words[f] = (p, len(ws))
    W = max(n for _, n in words.values())
    jobs = [("single", {"lens": [90], "ops": [1, 2, 3, 4, 5, 6, 7], "words": W}, 1, None, 1), ("bytes", {"lens": [400], "ops": [1, 2, 4], "words": 12}, 1, None, 1)]
    for k in range(6): jobs.append(("rnd%d" % k, {"lens": list(range(8 + k * 2, 240, 1)), "ops": [2, 3, 4, 5, 6, 7], "words": W}, 3, rnd, SEED * 100 + k))
    res = gen_scripts(env, jobs)
    files, ns = {}, {}
    def put(name, scripts):
        p = work.path("scr_" + name)
        open(p, "w").write("\n".join(script_line(s["n"] if name == "rnd" else 0, s["s"]) for s in scripts) + "\n")
        files[name] = p; ns[name] = len(scripts)
    put("single", res[0][0]); put("bytes", res[1][0]); put("rnd", [s for r in res[2:] for s in r[0]])
    wj, sid = [], 0
    for r, h in objs:
        for f in ALLF:
            if only and f not in only: continue
            for name, mode in (("single", "t"), ("rnd", "t"), ("bytes", "b")):
                if name == "bytes" and r not in byt: continue
                st = 1 if r in small else step
                if name == "rnd" and r not in small: st = max(1, step // 4)
                sid += 1
                wj.append(((sid, h, f, mode, judged(T, r), st, sid % st), files[name], words[f][0], 0))
    random.Random(1).shuffle(wj)
    evs, crashes = drive_mal(env, wj, "d")
    bad, vst = validate_mal(env, evs, "v")
    cov = dict(cnt); cov["states"] += sum(r[1][1] for r in res) + vst; cov["transitions"] += sum(r[1][0] for r in res)
    cov.update({"documents": len(wj), "objects": len(objs), "scripts": ns, "outcomes": sum(len(e["rows"]) for e in evs)})
    return env, wj, evs, crashes, bad, cov

def script_line(n, s): return "%d %s" % (n, " ".join(" ".join(map(str, e)) for e in s))

def deep(work, thorough):
    """lists of N nodes in documents: the stack that a load takes must not depend on what a document says. [(key, text)]"""
    lib = build_lib(work, "plain"); exe = build_driver(work, lib, "deep", "plain")
    jobs = [(f, n) for f in ALLF for n in (100, 3000, 12000, 60000) + ((400000,) if thorough else ()) if f != "YAML" or n <= 3000 or (thorough and n <= 12000)]
    def one(j):
        f, n = j
        rc, so, se = run([exe, f, str(n)], timeout=600, env=DRV_ENV)
        l = so.split("\n")
        if l[0] != "saved": raise CheckError("list of %d nodes was not saved as %s: rc=%d %s" % (n, f, rc, se[-300:]))
        if rc: return ("deep-nesting-%s" % f, "load of a list of %d nodes ended with %s" % (n, "signal %d" % -rc if rc < 0 else "exit code %d" % rc), j)
        if l[1] not in ("0 0 0", "1 %d %d" % (n, n * (n - 1) // 2)): return ("deep-wrong-%s" % f, "load of a list of %d nodes gave %s" % (n, l[1]), j)
        return None
    return [r for r in parallel(one, jobs) if r], len(jobs)

def c07(pid="C07"):
    t0 = time.time(); work = Work(pid)
    try:
        thorough = TIER == "thorough"
        rest = ["nd_t", "tx_t", "ar_t", "si_t", "sf_t", "bf_t", "en_t", "tt_t", "kw_t", "pp_t", "un_t", "rv_t", "dl_t", "vd_t", "ex_t", "cr_t", "oe_t"]
        if thorough: env, wj, evs, crashes, bad, cov = explore(work, ["in_t", "nd_t", "tx_t", "ar_t", "pp_t"], rest, 4, 3000, 7, ["in_t", "nd_t", "sf_t", "tx_t"])
        else: env, wj, evs, crashes, bad, cov = explore(work, ["in_t"], rest, 1, 300, 24, ["in_t", "nd_t", "sf_t", "tx_t"])
        mach = [b for b in bad if b[2]["kind"] == "machinery"]
        if mach: raise CheckError("the driver damaged a document in another way than specified: %s" % json.dumps(mach[0])[:800])
        by = {(j[0][0]): j for j in wj}
        cases = sum(e["cases"] for e in evs)
        if not cases: raise CheckError("nothing was explored")
        fails = [(by[e["sc"]], r["script"], r["doc"], b["why"]) for e, r, b in bad]
        fails += [(by[s[0]], [[int(x) for x in e.split(",")] for e in ed.split(";") if e], doc, why) for s, i, ed, doc, why in crashes]
        fails.sort(key=lambda x: len(x[2]))
        conf = None
        for j, script, doc, why in fails[:8]:
            p = work.path("scr_confirm"); open(p, "w").write(script_line(0, script) + "\n")
            s = j[0]; s1 = (s[0], s[1], s[2], s[3], s[4], 1, 0)
            e2, c2 = drive_mal(env, [(s1, p, j[2], 0)], "c")
            b2, _ = validate_mal(env, e2, "c") if e2 else ([], 0)
            if b2 or c2: conf = (s1, script, doc, b2[0][2]["why"] if b2 else c2[0][4], j[2]); break
        if fails and not conf: raise CheckError("a failure did not reproduce: %s" % str(fails[0][1:])[:800])
        acc = sum(e["accepted"] for e in evs)
        dp, ndeep = deep(work, thorough)
        kf = dict(known(pid)); dnew = [d for d in dp if d[0] not in kf]
        for k in sorted({d[0] for d in dp if d[0] in kf}): print("KNOWN-FINDING: property=%s %s" % (pid, kf[k]))
        cov["deep_documents"] = ndeep; cov["known_findings_seen"] = len(dp) - len(dnew)
        cov.update({"evaluations": cases, "distinct_nontrivial": cases - acc, "accepted": acc, "traces_validated_against_impl": len(evs), "crashes": len(crashes),
                    "rule": "documents of objects generated by Heap.tla, damaged by the scripts of MalGen.tla (every single edit of a token sequence, random sequences of three edits); non-trivial: the damaged document was rejected, or judged as an accepted one (documents of one object, format and script are different)",
                    "samples": [{"root": e["root"], "format": e["fmt"], "script": r["script"], "document": bytes.fromhex(r["doc"]).decode("latin1")[:300], "accepted": r["st"]} for e in evs[:3] for r in e["rows"][:1]]})
        evidence(pid, "exploration", cov, t0, 1 if conf or dnew else 0)
        if dnew and not conf:
            p = save_replay(pid, "deep_%s_%d.txt" % dnew[0][2], "# %s\n# %s: harness/deep.c with arguments %s %d\n" % ((dnew[0][1], dnew[0][2][0]) + dnew[0][2]))
            print("%s: %s" % (dnew[0][2][0], dnew[0][1])); print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        if conf:
            s, script, doc, why, wf = conf
            p = save_replay(pid, "mal_%d.txt" % s[0], "# %s\n# object:\n%s\n# format %s, mode %s, edits %s, word file:\n%s# damaged document (hex):\n%s\n" % (why, "\n".join(cmd(s, "-", "-", 0)), s[2], s[3], json.dumps(script), open(wf).read(), doc))
            print("%s (%s, %s): %s" % (why, s[2], s[1]["root"], repr(bytes.fromhex(doc))[:500]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        print("%s: held on %d damaged documents (%d accepted), %d different outcomes, %s" % (pid, cases, acc, cov["outcomes"], ns_str(cov)))
        return 0
    finally: work.done()
def ns_str(cov): return ", ".join("%s: %s" % (k, cov[k]) for k in ("objects", "documents", "states", "transitions"))
