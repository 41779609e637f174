"""The checks, one per property."""
from vf import *
from heapcheck import *
import iccheck, ordercheck, unit

def T(q, t): return t if THOROUGH else q
OWN = {"own", "free"}

def c01():
    n = T(30, 400)
    return run_check("C01", [
        G(["si_t", "sf_t", "en_t", "bf_t", "kw_t"], T(40, 600), rt(TEXT), share=0, n=T(40, 80)),
        G(["tx_t", "tt_t"], T(20, 300), rt(TEXT), cls="xml", share=0),
        G(["tx_t", "tt_t"], T(20, 300), rt([f for f in FORMATS["ctl"] if f != "XDR"]), cls="ctl", share=0),
        G(["tx_t", "tt_t"], T(20, 300), rt([f for f in FORMATS["bytes"] if f != "XDR"]), cls="bytes", share=0),
        G(["in_t", "nd_t", "ar_t", "rv_t", "un_t", "vd_t", "pp_t", "dl_t", "rt_t"], n, rt(TEXT), share=0, mb=12),
        X(["in_t", "ex_t", "pp_t"], rt(TEXT), mb=2, vals=2),
    ], {"rt", "same"})
def c02():
    return run_check("C02", [
        G(["nd_t", "rt_t", "pp_t", "tx_t", "ar_t", "un_t", "rv_t", "ex_t", "dl_t", "cr_t", "cx_t", "cy_t"], T(40, 600), rt(TEXT), share=50, mb=12, n=6),
        X(["ex_t"], rt(TEXT), mb=T(2, 3)),
        X(["nd_t"], rt(TEXT), mb=2, rot=T(1, 6)), X(["cx_t"], rt(TEXT), mb=T(2, 3), rot=T(2, 6)),
        X(["pp_t"], rt(TEXT), mb=T(3, 4)),
    ], {"rt", "same"})
def c03():
    return run_check("C03", [
        G(ALL, T(200, 3000), ["rt XDR"], cls="xml", share=25, mb=12),
        G(["tx_t", "tt_t", "si_t", "nd_t"], T(40, 600), ["rt XDR"], cls="bytes", share=40),
        G(["ov_t", "rv_t", "dl_t"], T(40, 600), ["rt XDR"], share=0, odd=1),
        X(["ex_t"], ["rt XDR"], mb=T(2, 3)), X(["cx_t"], ["rt XDR"], mb=T(2, 3)), X(["nd_t"], ["rt XDR"], mb=2), X(["pp_t"], ["rt XDR"], mb=T(3, 4)),
    ], {"rt", "same"})
def c04():
    return run_check("C04", [
        G(ALL + ["ov_t"], T(200, 3000), ["copy"], share=30, mb=12),
        G(ALL + ["ov_t"], T(60, 800), ["copy"], cls="bytes", share=10, mb=6, odd=1),
        X(["ex_t"], ["copy"], mb=T(2, 3)), X(["cx_t"], ["copy"], mb=T(2, 3)), X(["nd_t"], ["copy"], mb=2), X(["oe_t"], ["copy"], mb=T(2, 3), maxlen=3), X(["pp_t"], ["copy"], mb=T(3, 4)),
    ], {"copy", "copysrc", "own"})
def c05():
    ops = rt(TEXT + ["XDR"]) + ["copy"]
    return run_check("C05", [
        G(ALL, T(120, 1500), ops, share=35, mb=12, rot=T(2, 8)),
        G(["ov_t", "rv_t"], T(40, 400), ops, share=25, mb=8, odd=1, rot=T(2, 8)),
        X(["ex_t"], ops, mb=T(2, 3), rot=T(2, 8)), X(["cx_t"], ops, mb=T(2, 3), rot=T(1, 8)), X(["nd_t"], ops, mb=2, rot=1), X(["pp_t"], ops, mb=T(3, 4)),
    ], {"own", "free", "leak"})
def c12():
    ops = rt(TEXT + ["XDR"]) + ["copy"]
    return run_check("C12", [
        G(["rv_t", "dl_t"], T(60, 800), ops, share=10, mb=8, odd=1, rot=T(4, 8)),
        G(["ov_t"], T(60, 800), ops, share=45, mb=8, rot=T(4, 8)),
        G(["sz_t"], T(15, 300), rt(TEXT + ["XDR"]), share=0, mb=8, odd=1, rot=T(3, 7)), G(["sz_t", "sc_t"], T(10, 300), ["copy", "rt XDR"], share=40, mb=8, odd=1),
        G(["sc_t"], T(8, 100), rt([f for f in TEXT if f != "XML2"]), share=0, odd=1),
        X(["oe_t"], ops, mb=2, maxlen=3, rot=T(1, 8)), X(["oe_t"], ops, mb=3, maxlen=2, rot=T(1, 8)),
    ], {"rt", "copy", "doc"}, docs=[D(["sz_t", "rv_t", "dl_t", "ov_t"], T(15, 200)), D(["sc_t"], T(8, 100), fmts=[f for f in TEXT if f != "XML2"])])
def c13():
    ops = rt(TEXT + ["XDR"]) + ["copy"]
    return run_check("C13", [
        G(["un_t"], T(100, 1200), ops, share=25, mb=8, rot=T(4, 8)),
        G(["rt_t"], T(10, 200), ops, share=10, mb=16, pnull=5, rot=T(4, 8)),
        X(["un_t"], ops, mb=1, rot=T(2, 8)),
        G(["ud_t"], T(40, 600), ops, share=25, mb=8, rot=T(3, 8)),
    ], {"rt", "copy", "hash", "cmp", "doc"}, docs=[D(["un_t", "ud_t"], T(20, 300))])
def c14():
    ops = rt(TEXT + ["XDR"]) + ["copy"]
    def bits(work, env):
        ok, cov, why, ev = unit.bitfields(work, env.lib)
        return ok, cov, (why, "" if ok else save_replay("C14", "bits.txt", ev + "\n"))
    return run_check("C14", [G(["en_t", "bf_t"], T(120, 1500), ops, share=10, n=T(60, 200), rot=T(4, 8))], {"rt", "copy"}, extra=bits)
def c21():
    ops = rt(TEXT + ["XDR"]) + ["copy"]
    return run_check("C21", [G(["vd_t"], T(60, 800), ops, share=30, mb=8), X(["vd_t"], ops, mb=T(2, 3)), G(["ve_t", "vn_t", "vo_t"], T(15, 300), ops, share=30, mb=8)], {"rt", "copy", "own", "free", "hash", "cmp"})

def c15():
    return run_check("C15", [
        G(ALL + ["ov_t", "ve_t", "vn_t", "vo_t"], T(120, 1500), ["graph"], share=30, mb=12),
        G(["ov_t", "rv_t", "oe_t", "un_t", "rt_t", "ex_t", "tx_t", "pp_t", "nd_t", "cr_t", "cx_t", "cy_t"], T(80, 1500), ["graph"], share=60, mb=14, n=6, odd=1),
        X(["ex_t"], ["graph"], mb=T(2, 3)), X(["nd_t"], ["graph"], mb=2), X(["oe_t"], ["graph"], mb=2, maxlen=3), X(["pp_t"], ["graph"], mb=T(3, 4)), X(["ve_t"], ["graph"], mb=2), X(["cx_t"], ["graph"], mb=T(2, 3)), X(["vd_t"], ["graph"], mb=T(2, 3)),
    ], {"graph", "dfs", "prune", "reorder", "leak"})

def D(roots, num, cls="xml", fmts=TEXT, mb=8, per=1, **o):
    """documents written by the specification for random objects, per of each format"""
    return dict(roots=roots, num=num, cls=cls, fmts=fmts, n=5, mb=mb, per=per, **o)
def c24():
    plain = ["in_t", "si_t", "sf_t", "en_t", "bf_t", "kw_t", "tx_t", "tt_t", "ar_t"]
    return run_check("C24", [], {"doc", "own", "free", "leak"}, docs=[
        D(plain, T(60, 1000)), D(["nd_t", "rv_t", "un_t", "ud_t", "sz_t", "vd_t", "pp_t", "dl_t", "rt_t", "ex_t", "cr_t", "cx_t", "ve_t"], T(60, 1000)),
        D(["tx_t", "tt_t", "nd_t", "un_t"], T(20, 300), "ctl", [f for f in FORMATS["ctl"] if f != "XDR"]),
        D(["tx_t", "tt_t", "nd_t"], T(20, 300), "bytes", [f for f in FORMATS["bytes"] if f != "XDR"]),
        D(["sc_t"], T(5, 100), fmts=[f for f in TEXT if f != "XML2"]),
    ])
def c06():
    ops = ["fault %s %s" % (w, f) for f in TEXT + ["XDR"] for w in ("save", "load")] + ["fault copy", "fault free"]
    return run_check("C06", [
        G(ALL + ["ov_t", "rv_t"], T(20, 300), ops, share=30, mb=10, rot=T(3, 16)),
        X(["ex_t"], ops, mb=2, rot=T(1, 4)), X(["cx_t"], ops, mb=2, rot=T(1, 4)), X(["pp_t"], ops, mb=T(3, 4), rot=T(1, 4)), X(["oe_t"], ops, mb=2, maxlen=3, rot=T(1, 3)), X(["vd_t"], ops, mb=T(2, 3), rot=T(4, 16)),
    ], {"fault"}, level="fault_enumeration")
def c08(): return iccheck.run_ic("C08", False)
def c09(): return iccheck.run_ic("C09", True)

def c11(): return ordercheck.run_order()
def c10(): return iccheck.run_tree()

import regcheck, conccheck, malcheck
CHECKS = {"C24": c24, "C07": malcheck.c07, "C06": c06, "C15": c15, "C16": conccheck.c16, "C19": regcheck.c19, "C22": unit.c22, "C23": unit.c23, "C20": unit.c20, "C18": unit.c18, "C17": unit.c17, "C11": c11, "C10": c10, "C08": c08, "C09": c09, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C12": c12, "C13": c13, "C14": c14, "C21": c21}
