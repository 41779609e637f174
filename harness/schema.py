"""Single source of the described types used by the object-graph checks.

From the table below this generates
  types.gen.h   - the Metaresc declarations and, independently of them, offset tables that the driver's own walker uses
  schema.json   - the same types for the TLA+ modules
"""
import json, sys, os

LEAF = {  # kind -> C type
 "bool": "bool", "char": "char",
 "i8": "int8_t", "u8": "uint8_t", "i16": "int16_t", "u16": "uint16_t", "i32": "int32_t", "u32": "uint32_t",
 "i64": "int64_t", "u64": "uint64_t", "i128": "mr_int128_t", "u128": "mr_uint128_t",
 "f32": "float", "f64": "double", "f80": "long double",
 "c32": "complex float", "c64": "complex double", "c80": "complex long double",
 "fn": "vf_fn_t",
}
INTS = ["bool","char","i8","u8","i16","u16","i32","u32","i64","u64","i128","u128"]
ENUMS = {  # name -> (attributes, [(const, value, meta)], underlying leaf kind)
 "col_t": ("", [("C_RED","0","vi"),("C_GREEN","1","vp"),("C_BLUE","2","vs"),("C_NEG","-7",""),("C_BIG","1000000","")], "i32"),
 "e8_t": ("packed", [("E8_A","0",""),("E8_B","1",""),("E8_C","127",""),("E8_D","-128","")], "i8"),
 "e16_t": ("packed", [("E16_A","0",""),("E16_B","300",""),("E16_C","65535","")], "u16"),
 "e64_t": ("", [("E64_A","0",""),("E64_B","0x100000001LL",""),("E64_C","-5000000000LL","")], "i64"),
 "flg_t": ("", [("F_NONE","0",""),("F_A","1",""),("F_B","2",""),("F_C","4",""),("F_D","0x40000000","")], "u32"),
 "fl8_t": ("packed", [("F8_NONE","0",""),("F8_A","1",""),("F8_B","2",""),("F8_H","0x80","")], "u8"),
}
# ("name", type, {options}); sz: name of the size field, disc: discriminator field, br: [(value text, branch)]
UNIONS = {
 "ui_t": [("ui_a","i32"),("ui_b","str"),("ui_c","p:nd_t"),("ui_d","s:in_t")],
 "ue_t": [("vi","i64"),("vp","p:in_t"),("vs","str")],
 "us_t": [("x","f64"),("y","p:nd_t"),("z","a:3:u16")],
 "ux_t": [("xa","i32"),("xb","str"),("xc","s:in_t")],
 "uo_t": [("oa","u8"),("ob","p:in_t"),("oc","f64")],
 "uc_t": [("x","str"),("yz","p:i32"),("abcd","i16")],
}
OVERRIDES = {"uo_t": [("5","oc"),("-1","ob"),("0","ob")]}   # values that select a branch of their own
BR = {
 "ui_t": [["0","ui_a"],["1","ui_b"],["2","ui_c"],["3","ui_d"]],
 "ue_t": [["0","vi"],["1","vp"],["2","vs"]],
 "us_t": [["t:78","x"],["t:79","y"],["t:7a","z"]],
 "ux_t": [["0","xa"],["1","xb"],["2","xc"]],
 "uo_t": [["5","oc"],["-1","ob"],["0","ob"],["1","ob"],["2","oc"]],
 "uc_t": [["t:78","x"],["t:797a","yz"],["t:61626364","abcd"]],
}
STRUCTS = {
 "in_t": [("iv","i32"),("is","str")],
 "nd_t": [("v","i32"),("next","p:nd_t"),("other","p:nd_t"),("pv","p:i32"),("inl","s:in_t"),("pin","p:in_t"),("name","str")],
 "si_t": [("b0","bool"),("ch","char"),("x8","i8"),("y8","u8"),("x16","i16"),("y16","u16"),("x32","i32"),("y32","u32"),
          ("x64","i64"),("y64","u64"),("x128","i128"),("y128","u128")],
 "sf_t": [("f","f32"),("d","f64"),("ld","f80"),("cf","c32"),("cd","c64"),("cl","c80"),("func","fn")],
 "tx_t": [("s1","str"),("s2","str"),("c8","ca:8"),("c","char"),("sa","a:2:str"),("ca2","a:2:ca:4"),("s3","str")],
 "ar_t": [("ai","a:3:s:in_t"),("ap","a:3:p:nd_t"),("m2","a:2:a:3:i32"),("m3","a:2:a:3:a:2:u8"),("ae","a:2:e:col_t"),("pe","p:i32"),("ab","a:3:bool"),("pm","p:u8")],
 "rv_t": [("ri","r:i32",{"sz":"nri"}),("nri","i32"),("rs","r:s:in_t",{"sz":"nrs"}),("nrs","u16"),("rt","r:str",{"sz":"nrt"}),("nrt","i64"),
          ("rd","r:f64",{"sz":"nrd"}),("nrd","u8"),("rp","r:p:in_t",{"sz":"nrp"}),("nrp","u32"),("rn","r:s:nd_t",{"sz":"nrn"}),("nrn","i16"),("pi","p:i32")],
 "ov_t": [("na","i32"),("a","r:i32",{"sz":"na"}),("b","r:i32",{"sz":"nb"}),("nb","u64"),("c","r:i32",{"sz":"nc"}),("nc","i16"),("p","p:i32"),
          ("sa","r:s:in_t",{"sz":"nsa"}),("nsa","i32"),("sb","r:s:in_t",{"sz":"nsb"}),("nsb","i32"),("ps","p:in_t"),("nx","p:ov_t")],
 "un_t": [("k1","i32"),("u1","u:ui_t",{"disc":"k1"}),("u2","u:ue_t",{"disc":"k2"}),("k2","e:col_t"),("u3","u:us_t",{"disc":"k3"}),("k3","str"),
          ("u4","u:ue_t",{"disc":"k2"}),("q","p:un_t")],
 "bf_t": [("a1","bf:u8:1"),("a3","bf:i8:3"),("a7","bf:u16:7"),("a11","bf:i16:11"),("a13","bf:u32:13"),("a29","bf:i32:29"),("a33","bf:u64:33"),("a61","bf:i64:61"),("ae","bf:e:col_t:21"),("ab","bf:bool:1"),("z","u8"),("a5","bf:i32:5")],
 "en_t": [("e1","e:col_t"),("e2","e:e8_t"),("e3","e:e16_t"),("e4","e:e64_t"),("m1","e:flg_t"),("m2","e:fl8_t"),("pe","p:e8_t"),("pm","p:flg_t")],
 "vd_t": [("v1","i32"),("hid","void:i32"),("hp","void:p:nd_t"),("n","p:vd_t"),("hs","void:str"),("v2","str")],
 "kw_t": [("i","i32"),("t","i32"),("nan","i32"),("inf","i32"),("e","i32"),("null","str"),("nil","i32"),("infinity","p:i32"),("NULL_","bool"),("ref","i32"),("ref_idx","i32"),("f","f32"),("L","f64")],
 "pp_t": [("pp","p:p:i32"),("ps","p:str"),("pi","p:i32"),("pps","p:p:in_t"),("p2","p:p:i32"),("p64","p:f80"),("pb","p:bool"),("s","str")],
 "dl_t": [("la","la:4:i32",{"sz":"nla"}),("nla","i32"),("ls","la:3:s:in_t",{"sz":"nls"}),("nls","u8")],
 "rt_t": [("n1","p:nd_t"),("n2","p:in_t"),("n3","p:i32"),("n4","s:nd_t"),("n5","p:rv_t"),("n7","p:un_t"),("n8","p:ar_t"),("n9","p:nd_t"),("na","p:rt_t"),("nb","str"),("nc","p:pp_t"),("nd","p:tx_t"),("ne","p:dl_t")],
}
STRUCTS["tt_t"] = [("t8","ct:8"),("a5","a:2:ct:5"),("c5","ca:5"),("s","str"),("t1","ct:1")]
STRUCTS["vo_t"] = [("h","void:i32"),("g","void:p:nd_t")]
STRUCTS["vn_t"] = [("in","s:vo_t"),("h2","void:i32")]
STRUCTS["ve_t"] = [("a","i32"),("e","s:vo_t"),("n","s:vn_t"),("la","la:2:i32",{"sz":"nla"}),("nla","u16"),("ea","a:2:s:vo_t"),("pe","p:vo_t"),("pn","p:vn_t"),("x","p:ve_t"),("z","i32")]
STRUCTS["ci_t"] = [("w","i32"),("up","p:cy_t"),("s","str")]
STRUCTS["cy_t"] = [("v","i32"),("in","s:ci_t"),("ia","a:2:s:ci_t"),("pa","p:ci_t")]
STRUCTS["cr_t"] = [("pi","p:ci_t"),("pc","p:cy_t"),("n","i32"),("ri","r:s:ci_t",{"sz":"n"}),("c","s:cy_t")]
STRUCTS["cx_t"] = [("in","s:cu_t"),("p","p:cu_t")]
STRUCTS["cu_t"] = [("up","p:cx_t"),("self","p:cu_t")]
STRUCTS["ex_t"] = [("l","p:ex_t"),("r","p:ex_t"),("p","p:i32"),("v","i32"),("s","str")]
STRUCTS["oe_t"] = [("na","i32"),("a","r:i32",{"sz":"na"}),("b","r:i32",{"sz":"nb"}),("nb","i32"),("c","r:i32",{"sz":"nc"}),("nc","i32"),("p","p:i32")]
STRUCTS["sz_t"] = [("a","r:i32",{"sz":"na"}),("na","i8"),("b","r:str",{"sz":"nb"}),("nb","u64"),("c","r:s:in_t",{"sz":"nc"}),("nc","i128"),("d","r:u8",{"sz":"nd"}),("nd","e:col_t"),
  ("e","r:i32",{"sz":"ne"}),("ne","bf:u16:7"),("f","r:u8",{"sz":"nf"}),("nf","bf:i32:5"),("g","la:4:i32",{"sz":"ng"}),("ng","bf:u32:9"),("h","r:i32",{"szo":"nh"}),("nh","u32"),("i","r:u8",{"sz":"ni"}),("ni","e:e8_t"),("j","r:u8",{"sz":"nj"}),("nj","u128")]
STRUCTS["sc_t"] = [("a","r:i32",{"sz":"na"}),("na","char"),("nb","char"),("b","r:u8",{"szo":"nb"}),("c","la:3:i16",{"sz":"nc"}),("nc","char")]
STRUCTS["ud_t"] = [("d8","u8"),("v8","u:ux_t",{"disc":"d8"}),("v64","u:ux_t",{"disc":"d64"}),("d64","i64"),("du","u64"),("vu","u:ux_t",{"disc":"du"}),("dx","i128"),("vx","u:ux_t",{"disc":"dx"}),
  ("db","bool"),("vb","u:ux_t",{"disc":"db"}),("df","bf:u16:3"),("vf","u:ux_t",{"disc":"df"}),("vs","u:ux_t",{"disc":"ds"}),("ds","bf:i32:5"),("de","bf:e:col_t:21"),("ve","u:ue_t",{"disc":"de"}),
  ("dc","ct:4"),("fill","i32"),("vc","u:uc_t",{"disc":"dc"}),("dn","i32"),("vo","u:uo_t",{"disc":"dn"}),("vq","u:uo_t",{"disc":"dq"}),("dq","i8"),("dp","p:i32"),("vp","u:ux_t",{"disc":"dp"}),("nx","p:ud_t")]
ROOTS = [s for s in STRUCTS]
FNS = ["vf_fn_a","vf_fn_b"]

def ctype(t):
    """C type text usable before a field name (arrays excluded)"""
    if t in LEAF: return LEAF[t]
    if t == "str": return "char *"
    if t.startswith("ct:"): return "ct%s_t" % t[3:]
    if t.startswith("s:") or t.startswith("u:") or t.startswith("e:"): return t[2:]
    if t in STRUCTS: return t
    if t in ENUMS: return t
    if t.startswith("p:") or t.startswith("r:"):
        e = ctype(t[2:])
        return e + ("*" if e.endswith("*") else " *")
    raise Exception(t)

def norm(t):
    """strip the s:/e: tags of pointer targets"""
    return t

def arr(t):
    dims = ""
    while t.startswith("a:") or t.startswith("la:"):
        _, n, t = t.split(":", 2)
        dims += "[%s]" % n
    if t.startswith("ca:"):
        dims += "[%s]" % t[3:]; t = "char"
    return t, dims

def field_decl(f, st=""):
    name, t = f[0], f[1]; o = f[2] if len(f) > 2 else {}
    if t.startswith("void:"):
        return "VOID (%s, %s)" % (ctype(t[5:]), name)
    if t.startswith("bf:"):
        b, w = t[3:].rsplit(":", 1)
        return "(%s, %s, : %s)" % (ctype(b), name, w)
    if t.startswith("u:"):
        if t[2:] in OVERRIDES: return '(%s, %s, , "%s", { OVR_%s }, "mr_ud_override_t", sizeof (OVR_%s))' % (ctype(t), name, o["disc"], t[2:], t[2:])
        return '(%s, %s, , "%s")' % (ctype(t), name, o["disc"])
    if t.startswith("a:") or t.startswith("ca:") or t.startswith("la:"):
        b, d = arr(t)
        meta = ', , { "%s" }, "string"' % o["sz"] if "sz" in o else ""
        return "(%s, %s, %s%s)" % (ctype(b), name, d, meta)
    if t.startswith("r:"):
        if "szo" in o: return '(%s, %s, , , { .offset = offsetof (%s, %s) }, "offset")' % (ctype(t), name, st, o["szo"])
        return '(%s, %s, , , { "%s" }, "string")' % (ctype(t), name, o["sz"])
    return "(%s, %s)" % (ctype(t), name)

MR = {"bool":"BOOL","char":"CHAR","i8":"INT8","u8":"UINT8","i16":"INT16","u16":"UINT16","i32":"INT32","u32":"UINT32","i64":"INT64","u64":"UINT64","i128":"INT128","u128":"UINT128",
 "f32":"FLOAT","f64":"DOUBLE","f80":"LONG_DOUBLE","c32":"COMPLEX_FLOAT","c64":"COMPLEX_DOUBLE","c80":"COMPLEX_LONG_DOUBLE","fn":"FUNC_TYPE","str":"STRING","text":"CHAR_ARRAY"}
def mrtype(t):
    """library's kind of a location, and the kind of what it points to, consists of or is stored as"""
    if t in MR: return MR[t], ""
    if t in STRUCTS or t.startswith("s:"): return "STRUCT", ""
    if t in ENUMS or t.startswith("e:"): return "ENUM", MR[ENUMS[t[2:] if t.startswith("e:") else t][2]]
    if t.startswith("u:"): return "UNION", ""
    if t.startswith("ca:"): return "ARRAY", "CHAR"
    if t.startswith("ct:"): return "CHAR_ARRAY", ""
    if t.startswith("bf:"): return "BITFIELD", mrtype(t[3:].rsplit(":", 1)[0])[0]
    if t.startswith("p:") or t.startswith("r:"): return "POINTER", mrtype(t[2:])[0]
    if t.startswith("a:") or t.startswith("la:"): return "ARRAY", mrtype(arr(t)[0])[0]
    raise Exception(t)

class Types:
    def __init__(self):
        self.t = {}
        self.order = []
    def add(self, t):
        """t: location type; returns its canonical name, fills self.t[name] = dict"""
        if t.startswith("s:") : t = t[2:]
        if t in self.t: return t
        if t in LEAF:
            self.t[t] = {"k":"leaf","ty":t,"elem":"","n":0,"f":[]}
        elif t.startswith("e:") or t in ENUMS:
            n = t[2:] if t.startswith("e:") else t
            t = "e:"+n
            if t in self.t: return t
            self.t[t] = {"k":"leaf","ty":t,"elem":"","n":0,"f":[]}
        elif t == "text":
            self.t[t] = {"k":"text","ty":t,"elem":"","n":0,"f":[]}
        elif t == "str":
            self.t[t] = {"k":"str","ty":t,"elem":"text","n":0,"f":[]}
            self.add("text")
        elif t.startswith("ca:") or t.startswith("ct:"):
            self.t[t] = {"k":"leaf","ty":t,"elem":"","n":int(t[3:]),"f":[]}
        elif t.startswith("bf:"):
            self.t[t] = {"k":"leaf","ty":t,"elem":"","n":0,"f":[]}
        elif t.startswith("a:") or t.startswith("la:"):
            _, n, e = t.split(":", 2)
            self.t[t] = None
            self.t[t] = {"k":"arr" if t[0]=="a" else "larr","ty":t,"elem":self.add(e),"n":int(n),"f":[]}
        elif t.startswith("p:") or t.startswith("r:"):
            self.t[t] = {"k":"ptr" if t[0]=="p" else "rptr","ty":t,"elem":"","n":0,"f":[]}
            self.t[t]["elem"] = self.add(t[2:])
        elif t.startswith("u:"):
            n = t[2:]
            self.t[t] = {"k":"union","ty":t,"elem":"","n":0,"f":[]}
            self.t[t]["f"] = [{"n":b[0],"t":self.add(b[1]),"sz":"","disc":""} for b in UNIONS[n]]
            self.t[t]["br"] = BR[n]
        elif t in STRUCTS:
            self.t[t] = {"k":"struct","ty":t,"elem":"","n":0,"f":[]}
            fs = []
            for f in STRUCTS[t]:
                if f[1].startswith("void:"): continue
                o = f[2] if len(f) > 2 else {}
                fs.append({"n":f[0],"t":self.add(f[1]),"sz":o.get("sz",o.get("szo","")),"disc":o.get("disc","")})
            self.t[t]["f"] = fs
        else: raise Exception("type "+t)
        if "br" not in self.t[t]: self.t[t]["br"] = []
        self.t[t]["bf"] = int(t.startswith("bf:"))
        self.t[t]["size"] = 1
        self.t[t]["mt"], self.t[t]["aux"] = mrtype(t)
        self.t[t]["tn"] = t[2:] if t[:2] in ("u:", "e:") else t if t in STRUCTS else ""
        if t in STRUCTS: self.t[t]["all"] = [{"n": f[0], "t": "void" if f[1].startswith("void:") else self.t[t]["f"][[x["n"] for x in self.t[t]["f"]].index(f[0])]["t"], "off": 0} for f in STRUCTS[t]]
        else: self.t[t]["all"] = []
        self.order.append(t)
        return t

def cid(t): return "T_" + "".join(c if c.isalnum() else "_" for c in t)

def sizeof(t):
    if t.startswith("a:") or t.startswith("la:"):
        _, n, e = t.split(":", 2); return "%s * %s" % (n, sizeof(e))
    if t.startswith("ca:") or t.startswith("ct:"): return t[3:]
    if t.startswith("bf:"): return "0"
    if t == "text": return "1"
    if t in ENUMS: return "sizeof (%s)" % t
    return "sizeof (%s)" % ctype(t)

def main(out):
    T = Types()
    for s in STRUCTS: T.add(s)
    h = ["/* generated by schema.py */", "#include <metaresc.h>", "#include <stddef.h>"]
    h.append("TYPEDEF_FUNC (int, vf_fn_t, (int))")
    for n,(at,cs,_) in ENUMS.items():
        a = " ATTRIBUTES (__attribute__ ((packed)))," if at else ""
        h.append("TYPEDEF_ENUM (%s,%s %s)" % (n, a, ", ".join('(%s, = %s%s)' % (c, v, ', "%s"'%m if m else "") for c,v,m in cs)))
    for u, ov in OVERRIDES.items(): h.append("#define OVR_%s (mr_ud_override_t[]) { %s }" % (u, ", ".join('{ %s, "%s" }' % x for x in ov)))
    order = []
    def emit(s, stack=()):
        if s in order: return
        for f in (STRUCTS.get(s) or UNIONS[s]):
            t = f[1]
            if t.startswith("void:"): t = t[5:]
            b = t
            while b.startswith("a:") or b.startswith("la:"): b = b.split(":",2)[2]
            if b.startswith("s:") or b.startswith("u:"):
                emit(b[2:])
        order.append(s)
        if s in STRUCTS: h.append("TYPEDEF_STRUCT (%s, %s)" % (s, ", ".join(field_decl(f, s) for f in STRUCTS[s])))
        else: h.append("TYPEDEF_UNION (%s, %s)" % (s, ", ".join(field_decl(f) for f in UNIONS[s])))
    for n in sorted({t[3:] for t in T.order if t.startswith("ct:")}): h.append("typedef char ct%s_t[%s];" % (n, n))
    # forward declarations for pointers
    for s in STRUCTS: h.append("typedef struct %s %s;" % (s, s))
    for s in STRUCTS: emit(s)
    h.append("#ifdef VF_TABLES")
    for t in T.order: h.append("static vt_t %s;" % cid(t))
    for s in STRUCTS:   # bit-field accessors
        for f in STRUCTS[s]:
            if f[1].startswith("bf:"):
                h.append("static __int128 bfg_%s_%s (void*p) { return ((%s*)p)->%s; } static void bfs_%s_%s (void*p, __int128 v) { ((%s*)p)->%s = v; }" % (s,f[0],s,f[0],s,f[0],s,f[0]))
    for t in T.order:
        d = T.t[t]
        if d["f"]:
            base = t if d["k"]=="struct" else t[2:]
            src = STRUCTS[base] if d["k"]=="struct" else UNIONS[base]
            names = [f["n"] for f in d["f"]]
            rows = []
            for f in d["f"]:
                bf = f["t"].startswith("bf:")
                rows.append('{"%s", &%s, %s, %d, %d, %s, %s}' % (f["n"], cid(f["t"]),
                    "0" if bf else "offsetof (%s, %s)" % (base, f["n"]),
                    names.index(f["sz"]) if f["sz"] else -1, names.index(f["disc"]) if f["disc"] else -1,
                    "bfg_%s_%s"%(base,f["n"]) if bf else "0", "bfs_%s_%s"%(base,f["n"]) if bf else "0"))
            h.append("static vf_t F_%s[] = { %s };" % (cid(t), ", ".join(rows)))
            if d["br"]:
                h.append("static char const * B_%s[][2] = { %s };" % (cid(t), ", ".join('{"%s","%s"}'%tuple(b) for b in d["br"])))
    KIND = {"leaf":"K_LEAF","text":"K_TEXT","str":"K_STR","arr":"K_ARR","larr":"K_LARR","ptr":"K_PTR","rptr":"K_RPTR","union":"K_UNION","struct":"K_STRUCT"}
    for t in T.order:
        d = T.t[t]
        lk = "0"
        if d["k"]=="leaf":
            b = t
            if b.startswith("bf:"): b = b[3:].rsplit(":",1)[0]
            if b.startswith("e:"): b = ENUMS[b[2:]][2]
            if b.startswith("ca:") or b.startswith("ct:"): b = b[:2]
            lk = "L_"+b
        h.append('static vt_t %s = {"%s", %s, %s, %s, %d, %s, %d, %s, %s, %d};' % (cid(t), t, KIND[d["k"]], sizeof(t),
            "&"+cid(d["elem"]) if d["elem"] else "0", d["n"], "F_"+cid(t) if d["f"] else "0", len(d["f"]), lk,
            "B_"+cid(t) if d["br"] else "0", len(d["br"])))
    h.append("static vt_t * all_types[] = { %s, 0 };" % ", ".join("&"+cid(t) for t in T.order))
    h.append("static struct { char const * s, * f; long off; } all_layout[] = { %s {0} };" % " ".join('{"%s","%s",%s},' % (n, f[0], "0" if f[1].startswith("bf:") else "offsetof (%s, %s)" % (b, f[0]))
        for n, b, fs in [(x, x, STRUCTS[x]) for x in STRUCTS] + [("u:" + x, x, UNIONS[x]) for x in UNIONS if "u:" + x in T.t] for f in fs))
    h.append("#define FOR_ROOTS(X) " + " ".join("X(%s)" % r for r in ROOTS))
    h.append("#endif")
    open(os.path.join(out,"types.gen.h"),"w").write("\n".join(h)+"\n")
    json.dump({"types":T.t,"roots":ROOTS}, open(os.path.join(out,"schema.json"),"w"))

if __name__ == "__main__": main(sys.argv[1])
