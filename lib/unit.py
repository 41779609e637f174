"""Checks whose driver reports self-contained events, one line each, that TLC validates one by one."""
import json, time, random, os
from vf import *
import iccheck

TRACE = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n"
def mc(work, module, cfg, workers=8, mem="4g"):
    """model-checks a module of definitions; returns (generated, distinct)"""
    d = os.path.dirname(work.path("mc_" + module, "x"))
    rc, so = tlc(module, cfg, d, workers=workers, timeout=800, mem=mem)
    if rc != 0: raise CheckError("%s does not satisfy its invariants\n%s" % (module, so[-3000:]))
    return tlc_stats(so)

def run_unit(pid, driver, cmds, module, models=(), kinds=None, variant="asan", cfg=TRACE, env=None, extra_cov=None, extra=(), level="model_checking", prep=None):
    """cmds: list of command texts (one driver process each, 8 at a time)"""
    t0 = time.time(); work = Work(pid)
    try:
        st = [0, 0]
        for m, c in models:
            a, b = mc(work, m, c); st[0] += b; st[1] += a
        inc = prep(work) if prep else ()
        exe = build_driver(work, build_lib(work, variant), driver, variant, inc=inc, extra=extra)
        if callable(cmds): cmds = cmds(work, exe)
        lines, n, crash = iccheck.drive(work, exe, cmds, driver)
        if crash:
            p = save_replay(pid, "crash.cmd", crash[0] + "\n")
            evidence(pid, level, {"states": st[0], "transitions": st[1], "traces_validated_against_impl": n, "samples": [crash[0][:500]], "events_validated": 0}, t0, 1)
            print("crash: " + crash[1]); print("VIOLATION property=%s replay=%s" % (pid, p)); return 1
        ls = [l for l in lines if l.startswith("{")]
        if not ls: raise CheckError("nothing was explored")
        bad, states = iccheck.validate(work, module, cfg, ls, "v", env=env)
        if kinds: bad = [b for b in bad if b["kind"] in kinds or b["kind"] == "machinery"]
        if [b for b in bad if b["kind"] == "machinery"]: raise CheckError("machinery: %s" % [b for b in bad if b["kind"] == "machinery"][0])
        kf = dict(known(pid)); seen = {}
        viol = []
        for b in bad:
            k = b.get("key", "")
            if k and k in kf: seen.setdefault(k, b)
            else: viol.append(b)
        cov = {"states": st[0] + states, "transitions": st[1] + len(ls), "traces_validated_against_impl": n, "events_validated": len(ls), "samples": [l[:400] for l in (ls[0], ls[len(ls) // 2], ls[-1])]}
        cov.update(extra_cov or {})
        evidence(pid, level, cov, t0, len(viol))
        for k in seen: print("KNOWN-FINDING: property=%s %s" % (pid, kf[k]))
        if viol:
            viol.sort(key=lambda b: len(b["event"]))
            b = viol[0]; p = save_replay(pid, b["kind"] + ".txt", json.dumps({"event": b["event"], "why": b["why"], "commands": cmds[lines[b["event"]]][:20000]}, indent=1))
            print("%s: %s" % (b["kind"], b["why"][:800])); print("VIOLATION property=%s replay=%s" % (pid, p)); return 1
        print("%s: held on %d events (%d runs), %d states" % (pid, len(ls), n, st[0] + states))
        return 0
    finally: work.done()

# ------------------------------------------------------------------------------------------------- C17
def sort_cmds():
    rnd = random.Random(SEED); out = []
    q = 8 if THOROUGH else 1
    sizes = [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 31, 32, 33, 48, 64, 65, 100, 128, 200, 255, 256, 257]
    for i, s in enumerate([2, 3, 8, 16] if not THOROUGH else sizes[1:12]):
        out.append("a %d %d 3 %d" % (s, i % 4, 6 if not THOROUGH else 7))
    out.append("a 1 0 2 8"); out.append("a 4 2 4 5"); out.append("a 1 1 3 6")
    for s in sizes:
        for n in [2, 3, 4, 5, 7, 8, 9, 15, 16, 17] + [rnd.randint(18, 120) for _ in range(3 * q)]:
            nk = rnd.choice([1, 2, 3, 10, 256])
            k = [rnd.randrange(nk) for _ in range(n)]
            m = rnd.randrange(4)
            if m == 0: k.sort()
            elif m == 1: k.sort(reverse=True)
            out.append("h %d %d %d %s" % (s, rnd.randrange(4), n, " ".join(map(str, k))))
    for n in [255, 256, 257, 511, 512, 513, 1000] + ([5000] if THOROUGH else []): out.append("h %d 0 %d %s" % (rnd.choice([3, 8, 12]), n, " ".join(str(rnd.randrange(256)) for _ in range(n))))
    for i, n in enumerate([65536, 65537, 70001] + ([131073, 300000] if THOROUGH else [])): out.append("B %d %d %d %d" % ([4, 7, 16, 33, 8][i], i % 4, n, SEED * 10 + i))
    TY = {"bool": 2, "char": 5, "i8": 7, "u8": 6, "i16": 8, "u16": 7, "i32": 7, "u32": 6, "i64": 7, "u64": 6, "i128": 7, "u128": 5, "f32": 9, "f64": 9, "f80": 9, "str": 8, "ca": 8}
    for t, m in TY.items():
        for a in range(m):
            for b in range(m): out.append("b %s 2 %d %d" % (t, a, b))
        for _ in range(40 * q):
            n = rnd.randint(0, 40); out.append("b %s %d %s" % (t, n, " ".join(str(rnd.randrange(m)) for _ in range(n))))
    for t, top in (("so", 3 * 6 * 3 * 6 * 3 * 5), ("su", 90)):
        for _ in range(150 * q):
            n = rnd.randint(0, 14); sub = [rnd.randrange(top) for _ in range(rnd.randint(1, 14))]
            out.append("g %s %d %s" % (t, n, " ".join(str(rnd.choice(sub)) for _ in range(n))))
    rnd.shuffle(out)
    return ["\n".join(out[i::NCPU]) for i in range(NCPU)]
def c17():
    return run_unit("C17", "sort", sort_cmds(), "SortTrace",
                    models=[("SortMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n Keys = {0, 1, 2}\nCHECK_DEADLOCK FALSE\nINVARIANTS InBounds Correct\nPROPERTY Terminates\n" % (8 if THOROUGH else 6))])

# ------------------------------------------------------------------------------------------------- C18
def gen_lines(work, module, profile, num, depth, seed):
    """histories written by a generator module in -simulate mode"""
    d = os.path.dirname(work.path("gen_%s_%d" % (module, seed), "x")); json.dump(profile, open(d + "/p.json", "w")); out = d + "/out.ndjson"
    rc, so = tlc(module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Write\n", d, {"VF_PROFILE": d + "/p.json", "VF_OUT": out}, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    if rc != 0 or not os.path.exists(out): raise CheckError("%s failed rc=%d\n%s" % (module, rc, so[-2000:]))
    return [json.loads(l) for l in open(out)]
def ra_cmds(work, exe):
    q = 8 if THOROUGH else 1
    hs = parallel(lambda i: gen_lines(work, "RaGen", dict(len=30, pfail=12, maxn=[40, 200, 600, 20][i % 4]), 50 * q, 34, SEED * 50 + i), range(NCPU))
    return ["E %d" % (4 if THOROUGH else 3)] + ["\n".join("H\n" + "\n".join("%s %d %d" % (o["o"], o["n"], o["f"]) for o in h["h"]) for h in l) for l in hs]
def c18():
    return run_unit("C18", "ra", ra_cmds, "RaTrace", cfg="SPECIFICATION TraceSpec\nCONSTANTS Chunks = {}\n Limit = 0\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n",
                    models=[("RaMC", "SPECIFICATION Spec\nCONSTANTS Chunks <- C\n Limit = 6\nCHECK_DEADLOCK FALSE\nINVARIANT NoneEmpty\nPROPERTY Prefix\n")])

# ------------------------------------------------------------------------------------------------- C20
def _norm(d):
    n, e = d
    if n == 0: return [0, 0]
    while n % 2 == 0: n //= 2; e -= 1
    return [n, e]
def _num(s, k, re, im=(0, 0)):
    re, im = _norm(re), _norm(im)
    return {"t": "num", "s": s, "k": k, "re": list(re), "im": list(im), "kw": False}
def _id(s, v, kw=False):
    d = _num(s, "int" if v is not None else "err", (v or 0, 0)); d["t"] = "id"; d["kw"] = kw; return d
INTS = [_num(s, "int", (v, 0)) for s, v in [("0", 0), ("1", 1), ("2", 2), ("3", 3), ("5", 5), ("7", 7), ("10", 10), ("13", 13), ("64", 64), ("100", 100), ("255", 255), ("1000", 1000), ("65535", 65535), ("0x1F", 31), ("0XfF", 255), ("017", 15), ("0777", 511), ("00", 0), ("0x0", 0), ("300000", 300000),
    (str(1 << 40), 1 << 40), ("0x30000000", 3 << 28), (str(5 << 62), 5 << 62), ("0x7000000000000000000000000", 7 << 96), (str(3 << 33), 3 << 33), (str(7 << 61), 7 << 61), ("0x100000000", 1 << 32), ("0x28000000000000000", 5 << 63)]]
FLTS = [_num(s, "flt", v) for s, v in [("0.5", (1, 1)), ("1.25", (5, 2)), ("2.", (2, 0)), ("1e2", (100, 0)), ("25E-2", (1, 2)), ("0.0", (0, 0)), ("3.75", (15, 2)), ("1e+1", (10, 0)), ("007.5", (15, 1)), ("1.5e1", (15, 0)), ("0e5", (0, 0)), ("1099511627776.0", (1 << 40, 0)), ("0.0009765625", (1, 10)), ("75557863725914323419136e0", (1 << 76, 0))]]
CPXS = [_num(s, "cpx", (0, 0), v) for s, v in [("I", (1, 0)), ("i", (1, 0)), ("2I", (2, 0)), ("1.5i", (3, 1)), ("0I", (0, 0)), ("2e1I", (20, 0)), ("0.25I", (1, 2))]]
NAMES = [_id(n, v) for n, v in [("VF_ZERO", 0), ("VF_ONE", 1), ("VF_SEVEN", 7), ("VF_NEG", -5), ("VF_BIG", 100000), ("VF_A_RATHER_LONG_CONSTANT_NAME_FOR_LIMITS", 12), ("VF_NARROW", 200), ("VF_MASK", 85), ("VF_NNEG", -128), ("VF_NPOS", 3)]]
WORDS = [_id(n, v, True) for n, v in [("true", 1), ("false", 0), ("TRUE", 1), ("FALSE", 0)]]
UNKNOWN = [_id(n, None) for n in ["VF_NOPE", "VF_ON", "VF_ONEX", "vf_one", "_VF_ONE", "True", "e5", "VF_A_RATHER_LONG_CONSTANT_NAME_FOR_LIMITS_AND_MORE_THAN_THAT", "x1F", "III"]]
OPS = ["+", "-", "*", "/", "%", "|", "&", "^"]
KINDS = "i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 bool chr f32 f64 f80 c32 c64 c80 enm bs5 bu3 bu11".split()
def _op(s): return {"t": "op", "s": s, "k": "err", "re": [0, 0], "im": [0, 0], "kw": False}
def _par(c): return {"t": "lp" if c == "(" else "rp", "s": c, "k": "err", "re": [0, 0], "im": [0, 0], "kw": False}
def expr_text(rnd, ts):
    out = ""
    for i, t in enumerate(ts):
        if out:
            a, b = out[-1], t["s"][0]
            need = (a.isalnum() or a in "_.") and (b.isalnum() or b in "_.")
            r = rnd.random()
            sep = "" if r < 0.45 else " " if r < 0.8 else rnd.choice(["\1", "  ", "/* c */", " /* * ( + */ ", "\1 \1"])
            if (a == "/" and (sep + b)[0] in "*/") or (need and not sep): sep = " "
            out += sep
        out += t["s"]
    return out
def expr_cmds(work, exe):
    rnd = random.Random(SEED); out = []
    def add(kind, ts): out.append("%s\t%s\t%s" % (kind, json.dumps(ts, separators=(",", ":")), expr_text(rnd, ts)))
    # every pair and triple of operators, every way to group them
    n = lambda v: [_num(str(v), "int", (v, 0))]
    opnd = [[2, 3, 5, 7], [100, 7, 3, 2], [255, 12, 10, 6], [6, 5, 3, 1], [9, 9, 4, 2]][:5 if THOROUGH else 2]
    L, R = [_par("(")], [_par(")")]
    for v in opnd:
        a, b, c, d = map(n, v)
        for x in OPS:
            for y in OPS:
                X, Y = [_op(x)], [_op(y)]
                for ts in (a + X + b + Y + c, L + a + X + b + R + Y + c, a + X + L + b + Y + c + R, [_op("-")] + a + X + b + Y + c, a + X + [_op("-")] + b + Y + c, a + X + b + Y + [_op("-")] + c, [_op("-")] + L + a + X + b + R + Y + c): add("i64", ts)
                for z in OPS:
                    Z = [_op(z)]
                    if rnd.random() < (1 if THOROUGH else 0.6): add("i32", a + X + b + Y + c + Z + d)
    BIG = [t for t in INTS if t["re"][1] < -20]
    for _ in range(1500 * (4 if THOROUGH else 1)):
        m = lambda: rnd.randint(1, 60) << rnd.choice(b)
        b = rnd.choice([[30, 31, 32, 33], [60, 62, 63, 64, 66], [90, 95, 96, 100]]); v = [m() for _ in range(3)]
        t = [[_num(rnd.choice([str, hex])(x), "int", (x, 0))] for x in v]; x, y = [_op(rnd.choice(OPS))], [_op(rnd.choice(OPS))]
        add(rnd.choice(["i128", "i128", "u128", "f80", "i64", "c80"]), rnd.choice([t[0] + x + t[1] + y + t[2], L + t[0] + x + t[1] + R + y + t[2], [_op("-")] + t[0] + x + t[1]]))
    leaf = INTS + FLTS + CPXS + NAMES + WORDS
    # every value in every kind of field, alone and signed
    for k in KINDS:
        for t in leaf + UNKNOWN:
            add(k, [t])
            if rnd.random() < 0.3: add(k, [_op("-"), t])
            if rnd.random() < 0.1: add(k, [_op("+"), t])
            if rnd.random() < 0.1: add(k, L + [_op("-"), t] + R)
    # every operator on every pair of value classes
    for x in OPS:
        for A in (INTS, FLTS, CPXS, NAMES, WORDS, UNKNOWN, INTS[:1], FLTS[5:6], CPXS[4:5]):
            for B in (INTS, FLTS, CPXS, NAMES, WORDS, UNKNOWN, INTS[:1], FLTS[5:6], CPXS[4:5], NAMES[:1]):
                for _ in range(4 if THOROUGH else 2): add(rnd.choice(["i64", "f80", "c80", "c64", "f64"]), [rnd.choice(A), _op(x), rnd.choice(B)])
    # texts written by the specification
    q = 10 if THOROUGH else 1
    prof = [dict(leaves=INTS * 2 + NAMES + WORDS, ops=OPS, depth=4, damage=0), dict(leaves=[_num(str(i), "int", (i, 0)) for i in range(1, 40)], ops=OPS, depth=5, damage=0), dict(leaves=INTS[1:9] + FLTS + NAMES, ops=["+", "-", "*", "/"], depth=4, damage=5),
            dict(leaves=INTS[1:9] + FLTS + CPXS * 2, ops=["+", "-", "*", "/"], depth=3, damage=5), dict(leaves=leaf + UNKNOWN[:3], ops=OPS, depth=3, damage=40), dict(leaves=leaf, ops=OPS, depth=2, damage=100),
            dict(leaves=INTS[1:12], ops=["|", "&", "^", "+", "-", "%"], depth=5, damage=0), dict(leaves=leaf, ops=["+", "-", "*", "*", "/", "%"], depth=5, damage=0), dict(leaves=BIG, ops=OPS, depth=3, damage=0)]
    for i, l in enumerate(parallel(lambda i: gen_lines(work, "ExprGen", dict(prof[i], len=40), 15 * q, 42, SEED * 70 + i), range(len(prof)))):
        for h in l:
            if h["t"]: add(rnd.choice(KINDS if i in (0, 4, 5) else ["i64", "i128", "i32"] if i in (1, 6) else ["f80", "f64", "c64", "c80", "f32", "c32", "i32"]), h["t"])
    return ["\n".join(out[i::NCPU]) for i in range(NCPU)]
def c20():
    return run_unit("C20", "expr", expr_cmds, "ExprTrace", models=[("ExprMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT SameValue\n")])

# ------------------------------------------------------------------------------------------------- C23
LOG_DOCS = {
 "CINIT": ["{ .x = 1 }", "{ .x = 1 / 0 }", "{ .x = 5 % 0 }", "{ .x = 1.5 % 2 }", "{ .x = NOPE }", "{ .nope = 1 }", "{ .x = 1", "{ .x = }", "{ .arr = { 1, 2, 3, 4 } }", "{ .ca = \"too long text\" }", "{ .c = 'abc' }", "{ .c = \"long\" }", "{ .next = (nope_t) { .x = 1 } }",
    "{ .next = /* ref = 17 */ NULL }", "{ .s = /* ref = 3 */ \"\" }", "{ .un = { .nope = 1 } }", "{ .un = { .ui = NOPE } }", "{ .x = \"12z\" }", "{ .x = \"LG_B | 4 | \" }", "{ .f = \"1.5q\" }", "{ .z = \"1 + 2\" }", "{ .z = \"1 + 2I z\" }", "{ .e = LG_C }", "{ .b = LG_X | LG_Y | NOPE }", "{ .bf = 'a' }",
    "/* ref_idx = 1 */ { .x = 1, .next = /* ref_idx = 1 */ { .x = 2 } }", "{ .x = { 1 } }", "$", "", "{ .x = 1 } }", "{ .dyn = { 1, 2, 3 }, .dyn_size = 8 }", "{ .x = -\"1\" }", "{ .x = VERY_LONG_NAME_THAT_IS_LONGER_THAN_ANY_CONSTANT_THAT_HAS_EVER_BEEN_DECLARED_HERE_OR_ELSEWHERE }"],
 "JSON": ["{ \"x\" : 1 }", "{ \"nope\" : 1 }", "{ \"x\" : \"NOPE\" }", "{ \"x\" : 1", "{ \"arr\" : [ 1, 2, 3 ] }", "{ \"e\" : \"LG_Z\" }", "[ 1, 2 ]", "{ \"next\" : { \"ref\" : 7 } }", "", "{ \"c\" : \"ab\" }", "{ \"f\" : \"x\" }", "{,}"],
 "SCM": ["((x . 1))", "((nope . 1))", "((x . NOPE))", "((x . 1)", "((e . \"LG_Q\"))", "", "((arr . (1 2 3)))", "((f . \"x\"))"],
 "XML1": ["<lg_t><x>1</x></lg_t>", "<lg_t><x>1</y></lg_t>", "<lg_t><nope>1</nope></lg_t>", "<lg_t><x>NOPE</x></lg_t>", "<lg_t><s>&bogus;</s></lg_t>", "<lg_t><s>&#xyz;</s></lg_t>", "<lg_t><x>1</x></lg_t> tail", "<lg_t><x>1</x>", "<lg_t><x a=\"1\">1</x></lg_t>", "<lg_t ref_idx=\"z\"><x>1</x></lg_t>", "<lg_t><arr>1</arr><arr>2</arr><arr>3</arr></lg_t>", "", "<lg_t><f>1.5x</f></lg_t>", "<lg_t><c>ab</c></lg_t>"],
 "XML2": ["<lg_t><x>1</x></lg_t>", "<lg_t><x>NOPE</x></lg_t>", "<lg_t><nope>1</nope></lg_t>", "<lg_t ref_idx=\"z\"><x>1</x></lg_t>", "<lg_t><e>LG_Q</e></lg_t>", "<lg_t><f>1.5x</f></lg_t>"],
 "YAML": ["x: 1", "nope: 1", "x: NOPE", "x: [", "e: LG_Z", "next: *nowhere", "&bad x: 1", "arr: [1, 2, 3]", "f: x", "- 1\n- 2", "x: \"1 |\""],
}
def log_cmds(nid):
    out = ["m %d %d" % (l, i) for i in range(nid + 3) for l in ([4] if i % 8 else range(10))] + ["m %d 1000000" % l for l in (0, 4, 100)] + ["m 7 0", "m 8 1", "m 9 1", "m 65536 2"]
    for f, ds in LOG_DOCS.items(): out += ["o %s %s" % (f, d.replace("\n", "\\n")) for d in ds]
    for f in ("CINIT", "JSON", "SCM", "XML1", "YAML"): out += ["o save%s %d" % (f, v) for v in (0, 1, 2, 3, 5, 8)]
    out += ["o copyneg x", "o null x", "o enum LG_A", "o enum LG_NOPE", "o type lg_t", "o type nope", "o xmldoc <a><b>1</b></a>", "o xmldoc <?xml?><a><b>1</a>", "o xmldoc x<a></a>", "o xmldoc <?xml?><a>1</a></b>", "o xmldoc "]
    rnd = random.Random(SEED); rnd.shuffle(out)
    return ["\n".join(out[i::NCPU]) for i in range(NCPU)]
def c23():
    nid = len([1 for l in open(os.path.join(REPO, "src", "mr_protos.h")) if "(MR_MESSAGE_" in l])
    return run_unit("C23", "log", log_cmds(nid), "LogTrace", models=[("LogMC", "SPECIFICATION Spec\nCONSTANT MaxLen = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Delivered Exact OnePlace\n" % (4 if THOROUGH else 3))])

# ------------------------------------------------------------------------------------------------- C22
def xml_token(rnd, k, z, sizes):
    name = lambda: rnd.choice("abXYz_") + "".join(rnd.choice("abcXYZ019_-.:") for _ in range(rnd.choice([0, 1, 3, 10])))
    def attrs():
        out = ""
        for _ in range(rnd.choice([0, 0, 0, 1, 2])):
            q = rnd.choice("'\""); out += rnd.choice([" ", "\n ", "\t"]) + name() + rnd.choice(["=", " = "]) + q + "".join(rnd.choice("ab /?=;&-" + ("'" if q == '"' else '"')) for _ in range(rnd.choice([0, 1, 5, 20]))) + q
        return out
    sp = rnd.choice(["", "", " ", "\n"])
    if k == "decl": return rnd.choice(['<?xml version="1.0"?>', "<?xml version='1.0' encoding=\"UTF-8\" ?>", '<?xml version="1.0" standalone="yes"?>'])
    if k == "open": return "<" + name() + attrs() + sp + ">"
    if k == "close": return "</" + name() + sp + ">"
    if k == "empty": return "<" + name() + attrs() + sp + "/>"
    if k == "ws": return "".join(rnd.choice(" \n\t\r") for _ in range(rnd.choice([1, 1, 2, 5])))
    if k == "nul": return "\0"
    if k == "junk": return rnd.choice("a0/?=!&;\"x\xc3-]>")
    n = rnd.choice(sizes[z % len(sizes)])
    t = "".join(rnd.choice("ab c/?='\"&;\n-]\xc3\xa4!") for _ in range(n - 1))
    return (rnd.choice("ab/?=&") + t) if n else "t"
def xmldoc_cmds(work, exe):
    rnd = random.Random(SEED); q = 10 if THOROUGH else 1; out = []
    prof = [dict(damage=0, len=5, depth=3, docs=1, sizes=1), dict(damage=0, len=14, depth=4, docs=2, sizes=2), dict(damage=0, len=12, depth=3, docs=3, sizes=3), dict(damage=60, len=12, depth=3, docs=2, sizes=2),
            dict(damage=150, len=8, depth=3, docs=2, sizes=1), dict(damage=0, len=60, depth=12, docs=2, sizes=3), dict(damage=0, len=30, depth=30, docs=1, sizes=2), dict(damage=0, len=8, depth=2, docs=2, sizes=4)]
    szs = [[1, 2, 3], [5, 17, 40], [100, 300, 700], [2000, 5000, 9000]]
    for i, l in enumerate(parallel(lambda i: gen_lines(work, "XmlDocGen", prof[i], 12 * q, 400, SEED * 90 + i), range(len(prof)))):
        for h in l:
            ts = [(k, xml_token(rnd, k, z, szs)) for k, z in h["t"]]
            if rnd.random() < 0.3 and i in (0, 1, 2, 7):   # a document that ends near the sizes at which the buffer grows
                tx = [j for j, t in enumerate(ts) if t[0] == "text"]
                if tx:
                    j = rnd.choice(tx); want = rnd.choice([2048, 4096, 8192]) + rnd.randint(-3, 3); tot = sum(len(t[1]) for t in ts)
                    if want > tot: ts[j] = ("text", ts[j][1] + "y" * (want - tot))
            b = "".join(t[1] for t in ts).encode("latin-1")
            out.append("D %d %d %d %s %s" % (rnd.choice([0, 0, 1, 2]) if len(b) < 20000 else 0, 2 if len(b) < 150 else 1 if rnd.random() < 0.7 else 0, 2 if len(b) < 100 else 1, ",".join("%s:%d" % (k, len(t)) for k, t in ts), b.hex()))
    for i in range(60 * q): out.append("L %d %d %d %d" % (i % 2, rnd.choice([1, 2, 3, 8, 30]), SEED * 1000 + i, i % 3))
    rnd.shuffle(out)
    return ["\n".join(out[i::NCPU]) for i in range(NCPU)]
def c22():
    return run_unit("C22", "xmldoc", xmldoc_cmds, "XmlDocTrace", models=[("XmlDocMC", "SPECIFICATION Spec\nCONSTANT MaxToks = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Agrees Whole\n" % (9 if THOROUGH else 7))])

# ------------------------------------------------------------------------------------------------- C14: every bit-field
BFT = [("bool", 1), ("i8", 8), ("u8", 8), ("i16", 16), ("u16", 16), ("i32", 32), ("u32", 32), ("i64", 64), ("u64", 64), ("i128", 128), ("u128", 128), ("ea", 32), ("eb", 8), ("ec", 64), ("ed", 8)]
def bitfields(work, lib):
    """(ok, coverage, message, replay text) of all types, widths and offsets of bit-fields"""
    st = mc(work, "BitFieldMC", "SPECIFICATION Spec\nCONSTANTS VBits = 3\n Size = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Holds Kept SignKept Decimal\n" % (6 if THOROUGH else 5))
    def gen(i):
        d = os.path.dirname(work.path("gen_bf%d" % i, "x")); json.dump({"types": [{"name": n, "bits": b} for n, b in BFT], "parts": NCPU, "part": i, "all": THOROUGH}, open(d + "/p.json", "w"))
        out = d + "/o.ndjson"
        rc, so = tlc("BitFieldGen", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Write\n", d, {"VF_PROFILE": d + "/p.json", "VF_OUT": out}, args=["-seed", str(SEED + i), "-fp", "1"])
        if rc != 0: raise CheckError("BitFieldGen failed rc=%d\n%s" % (rc, so[-2000:]))
        return "\n".join("%s %d %d %s %s" % (c["ty"], c["s"], c["w"], bytes(c["m"]).hex(), bytes(c["v"]).hex()) for c in map(json.loads, open(out)))
    exe = build_driver(work, lib, "bf")
    cmds = parallel(gen, range(NCPU))
    lines, n, crash = iccheck.drive(work, exe, cmds, "bf")
    cov = {"bitfield_cases": n, "bitfield_states": st[1]}
    if crash: return False, cov, "crash: " + crash[1], crash[0][:20000]
    ls = list(lines)
    if len(ls) < 15000: raise CheckError("bit-fields: too few cases")
    bad, s2 = iccheck.validate(work, "BitFieldTrace", "SPECIFICATION TraceSpec\nCONSTANT VBits = 128\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n", ls, "bf")
    cov["bitfield_states"] += s2
    if bad: b = min(bad, key=lambda b: len(b["event"])); return False, cov, "bit-field: " + b["why"][:800], b["event"]
    return True, cov, "", ""
