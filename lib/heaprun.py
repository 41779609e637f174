"""Object-graph checks: TLC builds objects (HeapGen), the driver runs the library on them, TLC validates the events (HeapTrace)."""
import random, json, os, re, time
from vf import *
import domains, schema

def tlc_error(so):
    k = so.find("Error:")
    return so[k:k + 2500] if k >= 0 else so[-2500:]

class HeapEnv:
    def __init__(self, work, variant="asan"):
        self.work = work
        self.lib = build_lib(work, variant)
        gen = os.path.dirname(work.path("gen", "x"))
        import subprocess
        schema.main(gen)
        self.gen = gen
        self.exe = build_driver(work, self.lib, "heap", variant, inc=[gen])
        rc, so, se = run([self.exe, "--sizes"], env=DRV_ENV)
        if rc: raise CheckError("driver --sizes: " + se[-500:])
        sizes = dict(l.rsplit(" ", 1) for l in so.splitlines())
        sc = json.load(open(gen + "/schema.json"))
        for t in sc["types"]: sc["types"][t]["size"] = max(1, int(sizes[t]))
        self.sizes = {t: int(v) for t, v in sizes.items()}
        rc, so, se = run([self.exe, "--layout"], env=DRV_ENV)
        if rc: raise CheckError("driver --layout: " + se[-500:])
        for l in so.splitlines():
            t, f, off = l.split()
            for k in ("f", "all"):
                for x in sc["types"][t][k]:
                    if x["n"] == f: x["off"] = int(off)
        self.schema = sc
        self.schema_path = gen + "/schema.json"
        json.dump(sc, open(self.schema_path, "w"))
        self.szmax = {}
        for s, td in sc["types"].items():
            if td["k"] == "struct":
                fl = {f["n"]: f["t"] for f in td["f"]}
                for f in td["f"]:
                    if f["sz"]: self.szmax[s + "." + f["sz"]] = min(domains.size_max(fl[f["sz"]]), 2**31 - 1)
    def canon(self, dom, T):
        """replaces the texts of leaf values by the canonical ones"""
        p = self.work.path("canon.txt")
        with open(p, "w") as f:
            idx = []
            for t in dom:
                td = T.t.get(t)
                if td and td["k"] == "leaf" and not t.startswith("bf:"):
                    for i, x in enumerate(dom[t]):
                        f.write("%s %s\n" % (t, x)); idx.append((t, i))
        rc, so, se = run([self.exe, "--canon", p], env=DRV_ENV)
        if rc: raise CheckError("driver --canon: " + se[-500:])
        ls = so.splitlines()
        if len(ls) != len(idx): raise CheckError("canon count %d %d" % (len(ls), len(idx)))
        for (t, i), l in zip(idx, ls): dom[t][i] = l.split(" ", 1)[1]
        for t in dom: dom[t] = list(dom[t])
        if "e:col_t" in dom: dom["un_t.k2"] = dom["e:col_t"]
        return dom

GEN_CFG = "SPECIFICATION Spec\nCONSTANT Random = %s\nCHECK_DEADLOCK FALSE\nINVARIANT MeaningDefined\n"

def generate(env, profiles, workdir):
    """profiles: list of (name, profile dict, number of behaviours or None for exhaustive, seed)"""
    def one(a):
        name, prof, num, seed = a
        d = env.work.path(workdir, name, "x"); d = os.path.dirname(d)
        p = os.path.join(d, "profile.json"); json.dump(prof, open(p, "w"))
        out = os.path.join(d, "out.ndjson")
        e = {"VF_SCHEMA": env.schema_path, "VF_PROFILE": p, "VF_OUT": out}
        if num is None: rc, so = tlc("HeapGen", GEN_CFG % "FALSE", d, e, workers=1, mem="4g")
        else: rc, so = tlc("HeapGen", GEN_CFG % "TRUE", d, e, args=["-simulate", "num=%d" % num, "-depth", "3000", "-seed", str(seed)])
        if not os.path.exists(out) or (rc not in (0,)): raise CheckError("HeapGen %s failed rc=%d\n%s" % (name, rc, tlc_error(so)))
        return [json.loads(l) for l in open(out) if l.strip()], tlc_stats(so)
    return parallel(one, profiles)

def commands(sc_id, h, ops):
    if isinstance(h, list):   # several objects, kept side by side
        r = ["S %d" % sc_id]
        for k, x in enumerate(h): r += ["N", "M %d" % x.get("fill", 0)] + build(x) + ["O keep"]
    else: r = ["S %d" % sc_id, "M %d" % h.get("fill", 165 if sc_id % 2 else 0)] + build(h) + ["D"]
    return r + ["O " + o for o in ops]

def build(h):
    r = []
    for i, b in enumerate(h["blocks"], 1):
        if b["t"] == "text": r.append("X %d %s" % (i, b["v"][2:]))
        else: r.append("B %d %s %d" % (i, b["t"], b["n"]))
    # discriminators and sizes are ordinary leaves; order of writes does not matter except that bit-fields share words
    for c in h["cells"]:
        k = c["c"]["k"]
        if k == "v": r.append("L %d %s %s" % (c["b"], c["p"], c["c"].get("raw", c["c"]["v"])))
        elif k == "p": r.append("P %d %s %d %s" % (c["b"], c["p"], c["c"]["b"], c["c"]["p"] or "0"))
        elif k == "r": r.append("P %d %s %d %s" % (c["b"], c["p"], c["c"]["b"], c["c"]["pre"] + str(c["c"]["i"]) if c["c"]["b"] else "0"))
    return r

def drive(env, scen, tag, timeout=600):
    """scen: list of (id, heap, ops). Returns (events by scenario, crashes)"""
    k = max(1, min(NCPU, len(scen) // 4 or 1))
    chunks = [scen[i::k] for i in range(k)]
    def one(ci):
        i, ch = ci
        evs, crashes = {}, []
        rest = ch
        rnd = 0
        while rest:
            p = env.work.path("drv", "%s_%d_%d.cmd" % (tag, i, rnd)); rnd += 1
            open(p, "w").write("\n".join("\n".join(commands(a, h, o)) for a, h, o in rest) + "\n")
            rc, so, se = run([env.exe, p], env=DRV_ENV, timeout=timeout)
            for l in so.splitlines():
                try: e = json.loads(l)
                except ValueError: continue
                evs.setdefault(e["sc"], []).append(e)
            if rc == 0 and "DONE" in se: break
            ids = re.findall(r"^SC (\d+)$", se, re.M)
            bad = int(ids[-1]) if ids else rest[0][0]
            what = re.findall(r"(ERROR: AddressSanitizer[^\n]*|SUMMARY:[^\n]*)", se)
            at = re.findall(r"^FAULT [^\n]*", se, re.M)
            if at: what.append("at " + at[-1])
            crashes.append((bad, "exit %d %s" % (rc, "; ".join(what)[:400] if what else ("timeout" if rc == -99 else se[-300:]))))
            if rc == 3: raise CheckError("driver rejected a command: " + se[-400:])
            pos = [n for n, s in enumerate(rest) if s[0] == bad][0]
            rest = rest[pos + 1:]
            if len(crashes) > 5: break
        return evs, crashes
    evs, crashes = {}, []
    for e, c in parallel(one, list(enumerate(chunks))):
        evs.update(e); crashes += c
    return evs, crashes

TR_CFG = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n"
def validate(env, scen, evs, tag, module="HeapTrace"):
    """TLC checks every event; returns list of (scenario id, property, event name, reason) and counters"""
    lines = []
    for a, h, o in scen:
        if a not in evs: continue
        if isinstance(h, list):
            lines.append((a, [{"ev": "objs", "sc": a, "o": [{"root": x["root"], "blocks": x["blocks"], "cells": x["cells"]} for x in h]}] + evs[a])); continue
        lines.append((a, [{"ev": "sc", "sc": a, "root": h["root"], "blocks": h["blocks"], "cells": h["cells"]}] + evs[a]))
    k = max(1, min(NCPU, len(lines)))
    def one(i):
        ch = lines[i::k]
        d = os.path.dirname(env.work.path("val", tag + str(i), "x"))
        p = os.path.join(d, "trace.ndjson")
        n = 0
        with open(p, "w") as f:
            for a, es in ch:
                for e in es: f.write(json.dumps(e) + "\n"); n += 1
        out = os.path.join(d, "bad.txt")
        if os.path.exists(out): os.unlink(out)
        rc, so = tlc(module, TR_CFG, d, {"VF_SCHEMA": env.schema_path, "VF_TRACE": p, "VF_OUT": out}, mem="3g")
        bad = []
        if os.path.exists(out):
            for l in open(out):
                if l.strip(): bad.append(json.loads(l))
        if rc != 0: raise CheckError("%s failed rc=%d\n%s" % (module, rc, so[-3000:]))
        return bad, n, tlc_stats(so)
    bad, n, st = [], 0, 0
    for b, m, s in parallel(one, range(k)): bad += b; n += m; st += s[1]
    return bad, n, st
