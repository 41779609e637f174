"""C24: documents that mean a given object (spec/Doc.tla writes them) are loaded into that object."""
import json, os, random, re
from vf import *
from heaprun import *
import domains, schema, heapcheck

# exactly representable magnitudes and ways of writing them
MAGS = [["0", "0.0", "0e0", ".0", "0x0p0", "00.00"], ["1", "1.0", "1e0", "10e-1", "0x1p0", "1.", "01.0"], ["0.5", ".5", "5e-1", "0x1p-1", "0.50", "0x.8p0"], ["1.5", "1.50", "15e-1", "0x1.8p0", "0.15E1", "0X1.8P+0"],
        ["3", "3.0", "0.3e1", "0x3p0", "3e+0"], ["100", "1e2", "1E+2", "100.0", "0x64p0", "0x1.9p6"], ["0.015625", "1.5625e-2", "0x1p-6", "15625E-6"], ["123456.75", "1.2345675e5", "12345675e-2", "0x1.e240cp+16"],
        ["65536", "65536.0", "6.5536e4", "0x1p16", "0x1P+16"], ["10000000000", "1e10", "1E10", "10000000000.0", "0x2540be4p8"], ["16777215", "16777215.0", "1.6777215e7", "0xffffffp0"],
        ["1.52587890625e-05", "0x1p-16", "0.0000152587890625", "152587890625e-16"]]
WORDS = [["inf", "INF", "infinity", "INFINITY"], ["nan", "NAN", "NaN"]]
FT = {"c32": "f32", "c64": "f64", "c80": "f80"}

def lexed(m): return [x for x in m if re.fullmatch(r"\d+(\.\d*)?([eE][+-]?\d+)?|(?i:nan|inf)", x)]
def tables(env, dom, T, rnd):
    """replaces floating point domains by values with known notations; returns the tables of notations"""
    fl, co = {}, {}
    for ft in ("f32", "f64", "f80"):
        rows = [(sg, m) for m in MAGS for sg in ("", "-") if not (sg and m[0] == "0")] + [("", WORDS[0]), ("-", WORDS[0]), ("", WORDS[1])]
        can = env.canon({ft: [s + m[0] for s, m in rows]}, T)[ft] if ft in T.t else []
        fl[ft] = {c: [s, lexed(m), m] for c, (s, m) in zip(can, rows)}
        dom[ft] = list(fl[ft])
    for ct, ft in FT.items():
        fin = [c for c in fl[ft] if fl[ft][c][2] not in WORDS]
        pairs = [(a, b) for a in fin for b in fin]
        rnd.shuffle(pairs)
        pairs = [("0", "0"), (fin[1], "0"), ("0", fin[2])] + pairs[:40]
        can = env.canon({ct: [a + "_" + b for a, b in pairs]}, T)[ct]
        co[ct] = {c: [ft, a, b] for c, (a, b) in zip(can, pairs)}
        dom[ct] = list(co[ct])
    return fl, co

def profile(env, dom, T, rnd, **o):
    fl, co = tables(env, dom, T, rnd)
    enums, flags = {}, {}
    for n, (at, cs, u) in schema.ENUMS.items():
        enums["e:" + n] = [[c[0], str(int(c[1].rstrip("L"), 0))] for c in cs]
        if n.startswith("fl"): flags["e:" + n] = 1
    bfbase = {t: t[3:].rsplit(":", 1)[0] for t in T.t if t.startswith("bf:")}
    dom["fn"] = ["null"]
    p = dict(dom=dom, latin=[chr(i) for i in range(256)], floats=fl, complexes=co, enums=enums, flags=flags, bfbase=bfbase,
             omit=50, unnamed=50, layout=30, rown=1, szmax=env.szmax, odd=0)
    p.update(o)
    return p

def documents(env, groups, seed, per=1):
    """groups: dicts roots, num, cls, fmts, share, mb. Scenarios (id, object, doc operations) and the texts of the documents"""
    jobs, st = [], {"objects_random": 0, "documents": 0, "transitions": 0, "states": 0}
    for gi, g in enumerate(groups):
        rnd = random.Random(seed * 1000 + gi)
        dom, T = domains.domains(g["cls"], rnd, g.get("n", 12))
        dom = env.canon(dom, T)
        prof = profile(env, dom, T, rnd, roots=g["roots"], maxblocks=g.get("mb", 8), pnull=g.get("pnull", 15), pshare=g.get("share", 25), maxlen=g.get("maxlen", 3))
        for i in range(NCPU): jobs.append((gi, ("d%d_%d" % (gi, i), prof, g["num"], seed * 100000 + gi * 100 + i)))
    res = generate(env, [j for _, j in jobs], "gen")
    scen, objs, per_job = [], {}, []
    sid = 0
    for (gi, j), (heaps, stats) in zip(jobs, res):
        st["transitions"] += stats[0]; st["states"] += stats[1]
        rows = []
        for h in heaps:
            sid += 1; objs[sid] = h; st["objects_random"] += 1
            rows.append({"id": sid, "root": h["root"], "blocks": h["blocks"], "cells": h["cells"], "fmts": groups[gi]["fmts"] * groups[gi].get("per", 1)})
        per_job.append((j, rows))
    def one(a):
        j, rows = a
        d = os.path.dirname(env.work.path("doc", j[0], "x"))
        p = os.path.join(d, "profile.json"); json.dump(j[1], open(p, "w"))
        ip = os.path.join(d, "objs.ndjson"); open(ip, "w").write("".join(json.dumps(r) + "\n" for r in rows))
        out = os.path.join(d, "docs.ndjson")
        n = sum(len(r["fmts"]) for r in rows)
        e = {"VF_SCHEMA": env.schema_path, "VF_PROFILE": p, "VF_OUT": out, "VF_OBJS": ip}
        rc, so = tlc("DocGen", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", d, e, args=["-simulate", "num=1", "-depth", str(n + 5), "-seed", str(j[3])], mem="3g")
        ls = [json.loads(l) for l in open(out) if l.strip()] if os.path.exists(out) else []
        if rc != 0 or len(ls) != n: raise CheckError("DocGen %s failed rc=%d, %d of %d documents\n%s" % (j[0], rc, len(ls), n, so[-3000:]))
        return ls
    docs = {}
    for ls in parallel(one, [x for x in per_job if x[1]]):
        for l in ls:
            docs.setdefault(l["id"], []).append((l["fmt"], l["doc"].encode("latin-1")))
            st["documents"] += 1
    scen = [(i, objs[i], ["doc %s %s" % (f, d.hex()) for f, d in docs[i]]) for i in objs]
    return scen, st, docs
