"""Comparison and hashing (C11): objects that differ in little, and the same objects again at other addresses with other padding; TLC validates the
matrix of comparison results as an order on their meanings (spec/OrderTrace)."""
import random, json, time, copy
from vf import *
from heaprun import *
import heapcheck, domains
from heapcheck import G, X

ZERO = {"f32", "f64", "f80"}; CZERO = {"c32", "c64", "c80"}
def cell_types(env, h, kinds=("v",)):
    """leaf type and dom key of every value cell"""
    T = env.schema["types"]; r = {}
    for i, c in enumerate(h["cells"]):
        if c["c"]["k"] not in kinds: continue
        t = h["blocks"][c["b"] - 1]["t"]; st = None; f = None
        for s in c["p"].split(".")[1:]:
            td = T[t]
            if td["k"] in ("arr", "larr"): t = td["elem"]; f = None
            else:
                f = [x for x in td["f"] if x["n"] == s][0]; st = t if td["k"] == "struct" else None; t = f["t"]
        r[i] = (t, st, f)
    return r
def fixed(env, st, f):
    """sizes and discriminators stay as they are"""
    return st and f and any(x["sz"] == f["n"] or x["disc"] == f["n"] for x in env.schema["types"][st]["f"])

def raw_forms(t, v, rnd):
    """other representations of the same value"""
    if t in ZERO and v in ("0", "0x0p+0"): return rnd.choice(["0", "-0"])
    if t in CZERO and v == "nan": return rnd.choice(["nan_nan", "nan_1", "1_nan", "-inf_nan", "nan_0", "nan_inf"])
    if t in CZERO:
        a, b = v.split("_")
        z = lambda x: rnd.choice(["0", "-0"]) if x in ("0", "0x0p+0") else x
        return z(a) + "_" + z(b)
    return None

def disguise(env, h, rnd):
    h = copy.deepcopy(h); ct = cell_types(env, h)
    for i, (t, st, f) in ct.items():
        r = raw_forms(t, h["cells"][i]["c"]["v"], rnd)
        if r: h["cells"][i]["c"]["raw"] = r
    h["fill"] = rnd.choice([0, 165, 255, 90])
    return h
def near(t, v, rnd):
    """a value that differs in one bit or one character"""
    b = t
    if t.startswith("bf:"): b, w = t[3:].rsplit(":", 1); b = "int%s:%s" % ("u" if b[0] == "u" or b == "bool" else "i", w)
    elif t.startswith("e:"): b = domains.schema.ENUMS[t[2:]][2]
    lo, hi = domains.BITS[b] if b in domains.BITS else (None, None)
    if b.startswith("int"):
        w = int(b.split(":")[1]); lo, hi = (0, 2**w - 1) if b[3] == "u" else (-2**(w-1), 2**(w-1) - 1)
    if lo is not None:
        w = (hi - lo).bit_length(); x = (int(v)) % (1 << w) ^ (1 << rnd.randrange(w))
        return str(x - (1 << w) if x > hi else x)
    if t.startswith("ca:") or t.startswith("ct:"):
        n = int(t[3:]); c = bytearray(bytes.fromhex(v[2:]))
        if c and rnd.random() < 0.7: j = rnd.randrange(len(c)); c[j] = c[j] % 127 + 1
        elif len(c) < n: c.append(rnd.randint(65, 70))
        return "t:" + bytes(c).hex()
    if t in ("f32", "f64", "f80"): return rnd.choice(["-" + v if v[0] != "-" and v not in ("nan", "0") else v.lstrip("-"), v])
    if t in ("c32", "c64", "c80") and "nan" not in v:
        x, y = v.split("_"); return rnd.choice([y + "_" + x, x + "_" + x, y + "_" + y, x + "_0"])
    return v
def mutate(env, h, dom, rnd):
    """another object: one value, text or pointer changed"""
    h = copy.deepcopy(h); ct = cell_types(env, h)
    pd = [i for i, (t, st, f) in cell_types(env, h, ("p",)).items() if fixed(env, st, f)]    # pointers that discriminate
    at = {(h["cells"][i]["c"]["b"], h["cells"][i]["c"]["p"]) for i in pd}                     # and what they designate
    opts = [("v", i) for i, (t, st, f) in ct.items() if not fixed(env, st, f) and (h["cells"][i]["b"], h["cells"][i]["p"]) not in at]
    opts += [("t", i) for i, b in enumerate(h["blocks"]) if b["t"] == "text"] * 3
    ptr = [i for i, c in enumerate(h["cells"]) if c["c"]["k"] == "p" and c["c"]["b"] and i not in pd]
    opts += [("n", i) for i in ptr if True]
    if not opts: return h
    disc = lambda b: True
    k, i = rnd.choice(opts)
    if k == "v":
        t, st, f = ct[i]
        d = dom.get("%s.%s" % (st, f["n"])) if st and f else None
        h["cells"][i]["c"]["v"] = near(t, h["cells"][i]["c"]["v"], rnd) if not d and rnd.random() < 0.6 else rnd.choice(d or dom[t])
    elif k == "t":
        b = bytes.fromhex(h["blocks"][i]["v"][2:])
        j = rnd.randrange(len(b) + 1)
        b = rnd.choice([b[:j] + b[j + 1:], b[:j] + bytes([rnd.randint(1, 255)]) + b[j:], b[:j] + bytes([rnd.randint(1, 255)]) + b[j + 1:]])
        h["blocks"][i]["v"] = "t:" + b.hex()
    else:
        c = h["cells"][i]
        c["c"]["b"] = 0; c["c"]["p"] = ""
    return h

def text_discriminates(env, h): return any(c["c"]["k"] == "u" for c in h["cells"])

def groups(env, scen, doms, rnd, size, num):
    """scen: by root type, lists of heaps"""
    by = {}
    for sid, h, gi in scen: by.setdefault((h["root"], gi), []).append(h)
    out = []
    keys = sorted(by)
    for _ in range(num):
        for key in keys:
            pool = by[key]; dom = doms[key[1]]
            base = rnd.choice(pool); objs = [base]
            while len(objs) < size // 2:
                r = rnd.random()
                if r < 0.3: objs.append(rnd.choice(pool))
                elif text_discriminates(env, base): 
                    m = mutate(env, base, dom, rnd) if rnd.random() < 0.5 else rnd.choice(pool)
                    # a discriminating text must keep selecting the branch the object was built with
                    if m is not base and any(m["blocks"][i]["v"] != b["v"] for i, b in enumerate(base["blocks"][:len(m["blocks"])]) if i < len(m["blocks"])): m = rnd.choice(pool)
                    objs.append(m)
                else: objs.append(mutate(env, rnd.choice(objs), dom, rnd))
            objs = [disguise(env, o, rnd) for o in objs + objs]
            rnd.shuffle(objs)
            out.append(objs)
    return out

def run_order(pid="C11"):
    t0 = time.time(); work = Work(pid)
    try:
        env = HeapEnv(work)
        ALL = heapcheck.ALL + ["ov_t"]
        q = 1 if not THOROUGH else 8
        gs = [G(ALL, 60 * q, [], share=30, mb=8, n=20), G(["tx_t", "tt_t", "nd_t", "ar_t"], 20 * q, [], cls="bytes", share=30, mb=8),
              X(["ex_t"], [], mb=2), X(["pp_t"], [], mb=3), X(["nd_t"], [], mb=2), X(["oe_t"], [], mb=2, maxlen=3)]
        rnd = random.Random(SEED * 77)
        scen, cnt = heapcheck.make(env, gs, SEED)
        # which group an object came from decides the values it may be changed to
        doms = []
        for gi, g in enumerate(gs):
            d, T = domains.domains(g["cls"], random.Random(SEED * 1000 + gi), g["n"]); doms.append(env.canon(d, T))
        n1 = len([1 for s in scen])
        tagged = []
        for sid, h, ops in scen: tagged.append((sid, h, 0))
        grp = groups(env, tagged, doms, rnd, 12, 12 * q)
        sc = [(i + 1, g, ["pairs"]) for i, g in enumerate(grp)]
        evs, crashes = drive(env, sc, "d")
        bad, nev, states = validate(env, sc, evs, "v", "OrderTrace")
        mach = [b for b in bad if b["kind"] == "machinery"]
        if mach: raise CheckError("objects missing: %s" % mach[0])
        by = {s[0]: s for s in sc}
        viol = bad + [{"sc": c[0], "kind": "crash", "why": c[1], "ev": "crash"} for c in crashes]
        conf = None
        viol.sort(key=lambda b: sum(len(h["cells"]) for h in by[b["sc"]][1]))
        for b in viol[:4]:
            s = by[b["sc"]]
            e2, c2 = drive(env, [s], "c"); b2, _, _ = validate(env, [s], e2, "c", "OrderTrace")
            r = b2 + [{"kind": "crash", "why": c[1], "ev": "crash"} for c in c2]
            if r: conf = (s, r[0]); break
        if viol and not conf: raise CheckError("a failure did not reproduce: %s" % viol[0])
        if nev == 0: raise CheckError("nothing was explored")
        comparisons = sum(len(g) ** 2 for g in grp)
        cov = dict(cnt); cov.update({"groups": len(grp), "objects_built": sum(len(g) for g in grp), "comparisons": comparisons, "events_validated": nev, "traces_validated_against_impl": len(evs), "crashes": len(crashes)})
        cov["states"] += states; cov["transitions"] += nev
        cov["samples"] = ["; ".join(commands(*sc[i]))[:600] for i in sorted({0, len(sc) // 2, len(sc) - 1})]
        evidence(pid, "model_checking", cov, t0, len(viol) if conf else 0)
        if conf:
            s, r = conf
            p = save_replay(pid, "%s_%d.cmd" % (r["kind"], s[0]), "# %s\n" % json.dumps(r)[:1500] + "\n".join(commands(*s)) + "\n")
            print("%s: %s" % (r["kind"], r["why"][:600])); print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        print("%s: held on %d groups, %d comparisons" % (pid, len(grp), comparisons))
        return 0
    finally: work.done()
