"""C16: concurrent first use. TLC enumerates the schedules of Conc, the controlled scheduler of harness/conc.c follows them."""
import json, os, random
from vf import *
import unit

OPS = "td ed fd anyfd reg init dt vt saveCINIT saveJSON saveSCM saveXML1 saveXML2 saveYAML loadCINIT loadJSON loadSCM loadXML1 loadXML2 loadYAML xdr copy hash cmp enumtext enumxml msg func print ovr desc".split()
CONST = "CONSTANTS Threads = {%s}\nParts = %d\nEntries = %d\nLazy = \"idempotent\"\n"
def schedules(work, threads, switches, sim=0):
    d = os.path.dirname(work.path("concgen%d%d" % (threads, switches), "x")); out = d + "/out"
    if os.path.exists(out): os.unlink(out)
    rc, so = tlc("ConcGen", "SPECIFICATION GSpec\n" + CONST % (",".join(map(str, range(1, threads + 1))), 6, 3) + "MaxSwitch = %d\nCHECK_DEADLOCK FALSE\n" % switches, d, {"VF_OUT": out},
                 args=["-simulate", "num=%d" % sim, "-depth", "200", "-seed", str(SEED)] if sim else [], workers=1 if sim else 8)
    if rc != 0 or not os.path.exists(out): raise CheckError("ConcGen failed rc=%d\n%s" % (rc, so[-2000:]))
    return [" ".join("%d:%s:%d:%d" % (x["t"], x["at"], x["k"], x["b"]) for x in json.loads(l)["s"]) for l in sorted(set(open(out)))]
def cmds(work, exe):
    rnd = random.Random(SEED); q = 10 if THOROUGH else 1
    two = schedules(work, 2, 3 if THOROUGH else 2); three = schedules(work, 3, 4, 6000 * q)
    out = ["base " + o for o in OPS]
    def use(s, ops): out.append("R %d %s %s" % (rnd.randrange(1 << 30), ",".join(ops), s))
    heavy = [o for o in OPS if o.startswith(("load", "enum", "msg", "func"))]
    late = [s for s in two if ":build:" not in s and ":publish:" not in s]    # preemptions after initialization
    for a in OPS:
        for b in OPS:
            for s in rnd.sample(two, 2 * q): use(s, (a, b))
    for a in heavy:
        for s in rnd.sample(late, min(len(late), 40)) * q: use(s, (a, a))
        for b in heavy:
            for s in rnd.sample(late, 3) * q: use(s, (a, b))
    for s in two: use(s, (rnd.choice(OPS), rnd.choice(OPS)))
    for s in two: use(s, ("td", "reg"))
    for s in rnd.sample(three, min(len(three), 1200 * q)): use(s, [rnd.choice(OPS) for _ in range(3)])
    for s in rnd.sample(three, min(len(three), 300 * q)): o = rnd.choice(heavy); use(s, [o, o, rnd.choice(OPS)])
    print("C16: %d schedules of two threads, %d of three, %d runs" % (len(two), len(three), len(out)))
    rnd.shuffle(out)
    return ["\n".join(out[i::4 * NCPU]) for i in range(4 * NCPU)]
def c16():
    inv = "CHECK_DEADLOCK FALSE\nINVARIANTS Once NotEarly Right\nPROPERTY Returns\n"
    return unit.run_unit("C16", "conc", cmds, "ConcTrace", variant="sched", extra=["-rdynamic", "-Wl,--wrap=sched_yield,--wrap=usleep,--wrap=nanosleep"],
                         cfg=CONST % ("1", 1, 1) + "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n",
                         models=[("Conc", "SPECIFICATION Spec\n" + CONST % ("1,2,3" if not THOROUGH else "1,2,3,4", 4, 3) + inv)])
