"""C19: generated type declarations, everything that can be asked about them, validated by RegTrace"""
import json, random, os, time
from vf import *
from unit import gen_lines, mc

POOLS = [["0","1","2","-1","127","-128","5","5"],["1","2","4","8","16","0x80","0","255"],["0","1","5","70000","-70000","-1","3","3"],["0","0x80000000u","1","3","4","0xFFFFFFFFu"],["-1","0x100000000LL","5","-0x100000000LL","0x7FFFFFFFFFFFFFFFLL","(-0x7FFFFFFFFFFFFFFFLL - 1)"],["0xFFFFFFFFFFFFFFFFuLL","0","7","0x8000000000000000uLL"],["0","1","2","3","4","5","6","7","8","9","10","11","12","13"]]
NAMES = "qa qb qab qba qA qa_ qaa q1 q2 qlong_field_name_for_lookups_0123456789 qlong_field_name_for_lookups_012345678 qx1 qx2 qx3 qy1 qy2 qy3 qz qzz q q_ qi qj qk".split()
C = {"BOOL": ["bool", "bool", "bool"], "CHAR": ["char"] * 3, "INT8": ["int8_t", "signed char", "int8_t"], "UINT8": ["uint8_t", "unsigned char", "uint8_t"], "INT16": ["int16_t", "short", "signed short int"],
     "UINT16": ["uint16_t", "unsigned short", "unsigned short int"], "INT32": ["int32_t", "int", "signed int"], "UINT32": ["uint32_t", "unsigned", "unsigned int"], "INT64": ["int64_t", "long", "long long int"],
     "UINT64": ["uint64_t", "unsigned long", "size_t"], "INT128": ["mr_int128_t"] * 3, "UINT128": ["mr_uint128_t"] * 3, "FLOAT": ["float"] * 3, "DOUBLE": ["double"] * 3, "LONG_DOUBLE": ["long double", "long_double_t", "long double"],
     "COMPLEX_FLOAT": ["complex float"] * 3, "COMPLEX_DOUBLE": ["complex double"] * 3, "COMPLEX_LONG_DOUBLE": ["complex long double"] * 3, "STRING": ["string_t"] * 3, "VOID": ["void"] * 3, "UNKNOWN": ["q_unknown_t"] * 3}
PLAIN = set(C) - {"INT128", "UINT128", "VOID", "UNKNOWN"}

class Render:
    def __init__(self, decls, kinds): self.kinds = kinds; self.out = []
    def base(self, f):
        t = f["t"]
        if t in C: return "qal_%s" % t if f["al"] == 3 and f["form"] in ("par", "bf") and f["p"] < 2 and t not in ("VOID", "UNKNOWN", "STRING", "CHAR") else C[t][f["al"] % 3]
        kw = {"struct": "struct ", "union": "union ", "enum": "enum "}.get(self.kinds[t], "") if f["al"] == 1 or (t == self.self and self.kinds[t] == "union") else ""
        return kw + t
    def ctype(self, f, cv=True):
        q = {3: "const ", 4: "volatile ", 5: "const volatile "}.get(f["cv"], "") if cv else ""
        if f["form"] in ("bf", "fn", "sarr", "vbf", "vfn") or (q and f["t"] == "VOID" and not f["p"]): q = "volatile " if f["cv"] == 4 and f["form"] == "bf" else ""
        return q + self.base(f) + (" " + "*" * f["p"] if f["p"] else "")
    def arg(self, a): return (C[a["t"]][0 if a["d"] else 1] if a["t"] in C else a["t"]) + (" *" if a["p"] else "") + "".join(" [%d]" % d for d in a["d"])
    def field(self, f):
        n, form = f["n"], f["form"]
        dims = "".join("[%d]" % d for d in f["d"]); args = "(" + ", ".join(self.arg(a) for a in f["args"]) + ")"
        if form == "anon": return "ANON_UNION (%s), %s, END_ANON_UNION (%s)" % (n, ", ".join(self.field(m) for m in f["m"]), '"qdisc"' if f["al"] == 0 else "")
        if form == "plain":
            return "%s %s" % (self.ctype(f), n) if f["t"] in PLAIN else "(%s, %s)" % (self.ctype(f), n)
        if form == "par": return "(%s, %s%s)" % (self.ctype(f), n, ", " + dims if dims else ', , "meta"' if f["al"] == 2 else "")
        if form == "fn": return "(%s, %s, %s)" % (self.ctype(f), n, args)
        if form == "sarr": return '(char, %s, %s, "", .stype.mr_type = MR_TYPE_CHAR_ARRAY, .stype.is_array = false)' % (n, dims)
        if form == "bf": return "(%s, %s, : %d)" % (self.ctype(f), n, f["w"])
        if form == "void": return "VOID (%s, %s)" % (self.ctype(f), n)
        if form == "vfn": return "VOID (%s, %s, %s)" % (self.ctype(f), n, args)
        if form == "varr": return "VOID (%s, %s, %s)" % (self.ctype(f), n, dims)
        if form == "vbf": return "VOID (%s, %s, : %d)" % (self.ctype(f), n, f["w"])
        raise CheckError("form " + form)
    def decl(self, d):
        self.self = d["n"]
        at = "ATTRIBUTES (__attribute__ ((packed)))" if d["at"] else ""
        if d["k"] in ("struct", "union"):
            return "TYPEDEF_%s (%s)" % (d["k"].upper(), ", ".join([d["n"]] + ([at] if at else []) + [self.field(f) for f in d["f"]]))
        if d["k"] == "enum":
            cs = []
            for i, c in enumerate(d["f"]):
                v = c["v"]
                if not v: cs.append("(%s)" % c["n"] if c["form"] == 0 else '(%s, , "m")' % c["n"] if c["form"] == 1 else c["n"])
                else: cs.append("(%s, = %s%s)" % (c["n"], v, ', "m"' if c["form"] == 1 else ""))
            return "TYPEDEF_ENUM (%s)" % ", ".join([d["n"]] + ([at] if at else []) + cs)
        return "TYPEDEF_FUNC (%s, %s, (%s))" % (C[d["r"]][1], d["n"], ", ".join(self.arg(a) for a in d["f"]))

def leaves(fs, via=()):
    """(field, via) of every field, members of anonymous unions included"""
    for f in fs:
        yield f, via
        if f["form"] == "anon": yield from leaves(f["m"], via + (f["m"][0]["n"],))
def prepare(decls, rnd):
    """adds the second translation unit and makes the enumerations compile"""
    for d in decls:
        if d["k"] == "enum":
            big = any("LL" in c["v"] or "0x80000000u" in c["v"] or "FFFFu" in c["v"] for c in d["f"])
            for c in d["f"]:
                if not c["v"] and big: c["v"] = "3"
        d["tu"] = 1
    n = len(decls) // 3
    both = decls[:n]; b = []
    for d in decls[n:]:
        if d["k"] == "enum" and rnd.random() < 0.6:
            e = json.loads(json.dumps(d)); e["tu"] = 2; e["at"] = ""
            if rnd.random() < 0.7: e["n"] += "_b"
            e["f"] = [c for c in e["f"] if rnd.random() < 0.7] or e["f"][:1]
            for c in e["f"]: c["v"] = str(rnd.choice([-3, 0, 1, 2, 77, 5000]))
            b.append(e)
        elif d["k"] == "struct" and rnd.random() < 0.15:
            b.append({"k": "struct", "n": d["n"], "at": "", "tu": 2, "f": [{"form": "par", "n": x, "t": "INT32", "p": 0, "d": [], "w": 0, "m": [], "args": [], "cv": 0, "al": 0} for x in rnd.sample(NAMES, rnd.randint(1, 4))]})
    return decls, n, b
def tu(no, decls, idx, shared, extra_types, R):
    """C source of one translation unit"""
    o = ["#include <metaresc.h>", "#include <stdio.h>", "#include <string.h>", "#include <stddef.h>", "typedef struct q_unknown { int x; } q_unknown_t;"]
    o += ["typedef %s qal_%s;" % (C[t][0], t) for t in C if t not in ("VOID", "UNKNOWN", "STRING")]
    for d in decls:
        o.append(R.decl(d))
    o.append("static void bits (char * n, void * p, size_t z, char * c) { unsigned char * b = p; long f = -1, w = 0; for (size_t i = 0; i < z * 8; ++i) if (b[i / 8] >> (i % 8) & 1) { if (f < 0) f = i; ++w; } printf (\"%s\\\"%s\\\":{\\\"off\\\":0,\\\"sz\\\":0,\\\"bit\\\":%ld,\\\"w\\\":%ld}\", c, n, f, w); }")
    for i, d in zip(idx, decls):
        o.append("static void fact_%d (void) {" % i)
        if d["k"] in ("struct", "union"):
            o.append('printf ("{\\"k\\":\\"fact\\",\\"i\\":%d,\\"sz\\":%%zu,\\"f\\":{", sizeof (%s));' % (i, d["n"]))
            c = ""
            for f, via in leaves(d["f"]):
                if f["form"] in ("anon",): continue
                if f["form"] == "vbf": o.append('printf ("%s\\"%s\\":{\\"off\\":0,\\"sz\\":0,\\"bit\\":-1,\\"w\\":0}");' % (c, f["n"]))
                elif f["form"] == "bf": o.append('{ %s x; memset (&x, 0, sizeof x); x.%s = %s; bits ("%s", &x, sizeof x, "%s"); }' % (d["n"], f["n"], "-1" if f["t"] != "BOOL" else "1", f["n"], c))
                else: o.append('printf ("%s\\"%s\\":{\\"off\\":%%zu,\\"sz\\":%%zu,\\"bit\\":0,\\"w\\":0}", offsetof (%s, %s), sizeof (((%s*)0)->%s));' % (c, f["n"], d["n"], f["n"], d["n"], f["n"]))
                c = ","
            o.append('puts ("%s}}");' % ("" if c else '\\"-\\":0'))
        elif d["k"] == "enum":
            o.append('printf ("{\\"k\\":\\"fact\\",\\"i\\":%d,\\"sz\\":%%zu,\\"v\\":[", sizeof (%s));' % (i, d["n"]))
            for j, c in enumerate(d["f"]): o.append('printf ("%s\\"%%llu\\"", (unsigned long long)%s);' % ("," if j else "", c["n"]))
            o.append('puts ("]}");')
        else: o.append('printf ("{\\"k\\":\\"fact\\",\\"i\\":%d,\\"sz\\":%%zu}\\n", sizeof (%s));' % (i, d["n"]))
        o.append("}")
    own = [i for i in idx if no == 1 or i >= shared]
    o.append("void tu%d_facts (void) { %s }" % (no, " ".join("fact_%d ();" % i for i in idx if no == 1 or i in extra_types)))
    o.append("int tu%d_ev (char * type, void (*f) (char *, char *, void *)) {" % no)
    for i, d in zip(idx, decls):
        if d["k"] == "enum":
            o.append('if (!strcmp (type, "%s")) { %s }' % (d["n"], " ".join('{ static %s v = %s; f (type, "%s", &v); }' % (d["n"], c["n"], c["n"]) for c in d["f"])))
    o.append("return 0; }")
    return "\n".join(o) + "\n"
def commands(decls, rnd, n):
    """n histories of questions"""
    amb = {d["n"] for d in decls if sum(e["n"] == d["n"] for e in decls) > 1}
    ns = [d["n"] for d in decls]
    def wrong(x): return rnd.choice([x[:-1] or "-", x + "_", x + x[-1], x.swapcase(), "_" + x, x[1:] or "-", x + "0", x[::-1], x * 40])
    qs = []
    for d in decls:
        qs += ["T " + d["n"]] * 2 + ["T " + wrong(d["n"]) for _ in range(2)] + ["A " + d["n"], "F mr_ptr_t - " + d["n"], "B %s %s" % (d["n"], d["n"])]
        if d["n"] in amb: continue
        if d["k"] in ("struct", "union"):
            lv = list(leaves(d["f"])); vias = {v for _, v in lv} | {()}
            for f, via in lv:
                if f["n"]: qs += ["F %s %s %s" % (d["n"], ",".join(via) or "-", f["n"])] * 2 + ["A " + f["n"]]
                if f["n"] and f["t"] in ns: qs += ["B %s %s" % (f["n"], f["t"])] * 2
                if f["n"]: qs.append("B %s %s" % (f["n"], rnd.choice(ns)))
            for v in vias:
                for x in rnd.sample(NAMES, 5): qs.append("F %s %s %s" % (d["n"], ",".join(v) or "-", x))
                qs.append("F %s %s %s" % (d["n"], ",".join(v) or "-", wrong(rnd.choice(NAMES))))
        elif d["k"] == "enum":
            qs.append("G %s %d" % (d["n"], d["tu"]))
            vals = [0, 1, 2, 3, 5, 77, 127, 128, 255, 256, 5000, 70000, 2**31, 2**32, 2**32 - 1, 2**63, 2**63 - 1, 2**64 - 1, 2**64 - 2, 2**64 - 3, 2**64 - 128, 2**64 - 70000, 2**64 - 2**32, 2**64 - 127]
            qs += ["V %s %d" % (d["n"], v) for v in vals for _ in (0, 1)]
        qs.append("F %s - qa" % d["n"])
    for d in decls:
        if d["k"] == "enum":
            for c in d["f"]: qs += ["C " + c["n"]] * 2 + ["C " + wrong(c["n"]), "T " + c["n"], "A " + c["n"]]
    qs += ["T -", "A -", "C -", "T qnope", "C qnope", "A qnope", "F mr_ptr_t - qnope"] + ["A " + wrong(x) for x in NAMES] + ["C " + d["n"] for d in decls]
    out = []
    for i in range(n):
        k = list(qs); rnd.shuffle(k)
        first = [q for q in k if q[0] == "CAFVBT"[i % 6]][:1]
        out.append(first + k)
    return out

def c19():
    t0 = time.time(); work = Work("C19"); pid = "C19"
    try:
        st = list(mc(work, "RegMC", "SPECIFICATION Spec\nCONSTANTS MaxF = %d\n MaxDepth = 3\n Names = {}\nCHECK_DEADLOCK FALSE\nINVARIANTS TakenApart Faithful KindsClosed\nPROPERTY Stable\n" % (6 if THOROUGH else 5)))
        lib = build_lib(work)
        q = 40 if THOROUGH else 8
        gens = parallel(lambda i: gen_lines(work, "RegGen", dict(n=[12, 20, 28, 36][i % 4], anon=[10, 25, 40][i % 3], packable=2, names=NAMES, pools=POOLS), 1, 40, SEED * 100 + i)[0], range(q))
        def one(a):
            i, decls = a; rnd = random.Random(SEED * 1000 + i)
            a_, n, b = prepare(decls, rnd)
            alld = a_ + b; kinds = {d["n"]: d["k"] for d in a_}
            R = Render(alld, kinds); dd = os.path.dirname(work.path("g%d" % i, "x"))
            ib = list(range(n)) + list(range(len(a_), len(alld)))
            open(dd + "/tu1.c", "w").write(tu(1, a_, list(range(len(a_))), n, [], R))
            open(dd + "/tu2.c", "w").write(tu(2, a_[:n] + b, ib, n, set(range(len(a_), len(alld))), R))
            json.dump(alld, open(dd + "/schema.json", "w"))
            order = [dd + "/tu1.c", dd + "/tu2.c"]
            exe = build_driver_as(work, lib, "reg", dd + "/reg", order if i % 2 else order[::-1])
            res = []
            for j, cmds in enumerate(commands(alld, rnd, 6 if THOROUGH else 3)):
                p = dd + "/q%d.cmd" % j; open(p, "w").write("\n".join(cmds) + "\n")
                rc, so, se = run([exe, p], env=DRV_ENV, timeout=120)
                if rc != 0 or "DONE" not in se: res.append(("crash", p, "exit %d %s" % (rc, se[:600]))); break
                tr = dd + "/t%d.json" % j; open(tr, "w").write(so); out = dd + "/o%d.json" % j
                rc, to = tlc("RegTrace", "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n", os.path.dirname(work.path("v%d_%d" % (i, j), "x")), {"VF_TRACE": tr, "VF_SCHEMA": dd + "/schema.json", "VF_OUT": out})
                ev = so.splitlines()
                if rc != 0: raise CheckError("RegTrace failed\n" + to[-3000:])
                bad = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
                res.append(("ok", len(ev), ev[len(ev) // 2], [(b, ev[b["line"] - 1], dd) for b in bad], tlc_stats(to)[1]))
            return res
        allr = parallel(one, list(enumerate(gens)))
        viol = None; ne = nt = ns = 0; samples = []
        for r in allr:
            for x in r:
                if x[0] == "crash": viol = viol or ("crash.txt", x[2] + "\n" + open(x[1]).read()[:3000], "crash: " + x[2])
                else:
                    ne += x[1]; nt += 1; ns += x[4]; samples.append(x[2][:300])
                    for b, e, dd in x[3]:
                        if not viol: viol = (b["kind"] + ".txt", json.dumps({"event": e, "why": b["why"], "tu1": open(dd + "/tu1.c").read(), "tu2": open(dd + "/tu2.c").read()}, indent=1), b["why"][:800])
        evidence(pid, "model_checking", {"states": st[1] + ns, "transitions": st[0] + ne, "traces_validated_against_impl": nt, "programs": len(gens), "events_validated": ne, "samples": samples[:3]}, t0, 1 if viol else 0)
        if viol:
            p = save_replay(pid, viol[0], viol[1]); print(viol[2]); print("VIOLATION property=%s replay=%s" % (pid, p)); return 1
        print("C19: held on %d answers about the types of %d programs" % (ne, len(gens))); return 0
    finally: work.done()
