"""Leaf values from which the generator builds objects (texts in the notation of the driver's leaf_set)."""
import random, sys, os, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import schema

BITS = {"bool": (0, 1), "i8": (-2**7, 2**7-1), "u8": (0, 2**8-1), "i16": (-2**15, 2**15-1), "u16": (0, 2**16-1), "i32": (-2**31, 2**31-1),
        "u32": (0, 2**32-1), "i64": (-2**63, 2**63-1), "u64": (0, 2**64-1), "i128": (-2**127, 2**127-1), "u128": (0, 2**128-1)}

def size_max(t):
    """greatest number a size field of the type holds"""
    if t == "char": return 127
    if t.startswith("bf:"):
        b, w = t[3:].rsplit(":", 1)
        return 2 ** (int(w) - (b[0] != "u")) - 1
    if t.startswith("e:"): return BITS[schema.ENUMS[t[2:]][2]][1]
    return BITS[t][1]
def ints(lo, hi, rnd, n):
    s = {lo, hi, 0, 1, lo + 1, hi - 1} | ({-1} if lo < 0 else set())
    b = (hi - lo).bit_length()
    for _ in range(n):
        k = rnd.randint(1, b)
        v = rnd.getrandbits(k)
        if lo < 0 and rnd.random() < 0.5: v = -v
        s.add(v)
        s.add(rnd.randint(lo, hi))
        s.add((1 << k) + rnd.randint(-1, 1))
    return [str(v) for v in sorted(s) if lo <= v <= hi]

def f_random(kind, rnd):
    if kind == "f32": return "%.9g" % struct.unpack("<f", struct.pack("<I", rnd.getrandbits(32)))[0]
    if kind == "f64": return "%.17g" % struct.unpack("<d", struct.pack("<Q", rnd.getrandbits(64)))[0]
    m = rnd.getrandbits(64) | (1 << 63); e = rnd.choice([rnd.randint(-16440, 16300), rnd.randint(-70, 10), -63])
    return "%s0x%xp%d" % (rnd.choice(["", "-"]), m, e)
def floats(kind, rnd, n):
    mx = {"f32": ["3.40282347e+38", "1.17549435e-38", "1.40129846e-45", "16777217", "0.1"],
          "f64": ["1.7976931348623157e+308", "2.2250738585072014e-308", "4.9406564584124654e-324", "9007199254740993", "0.1"],
          "f80": ["1.18973149535723176502e+4932", "3.36210314311209350626e-4932", "3.6e-4951", "0x1.123456789abcdefp+3", "0.1", "18446744073709551617"]}[kind]
    r = ["0", "1", "-1", "0.5", "-2.75", "123456789", "1e10", "inf", "-inf", "nan", "3", "100000", "1e15", "1e16", "1e17", "12345678901234567"] + mx + ["-" + m for m in mx]
    return r + [f_random(kind, rnd) for _ in range(n)]
def complexes(kind, rnd, n):
    k = {"c32": "f32", "c64": "f64", "c80": "f80"}[kind]
    base = [x for x in floats(k, rnd, 4) if x != "nan"]
    r = ["nan_nan", "0_0", "1_0", "0_1", "-1_-1", "inf_0", "0_inf", "-inf_inf", "1.5_-inf", "0_-1", "inf_-inf"]
    for _ in range(n): r.append(rnd.choice(base + [f_random(k, rnd).replace("nan", "2")]) + "_" + rnd.choice(base + [f_random(k, rnd).replace("nan", "2")]))
    return r

def hexs(b): return "t:" + bytes(b).hex()
SAFE = [c for c in range(32, 127)]
U8 = ["\u00e9", "\u0436", "\u4e2d", "\U0001f600", "\u00a0", "\u07ff", "\u0800", "\uffee"]
FIXED = ["", "a", "0", "null", "NULL", "true", "false", "nan", "-1", "1.5", "~", "'", "\"", "\\", "\\n", "\\x41", "\\101", "&amp;", "<a>", "]]>", "<![CDATA[", "%s%n", "a b", "#c", ";",
         ": ", "- a", "[1]", "{}", "(x)", "0x10", "(int)\"a\"", ",", "?", "@", "!", "|", ">", "*", "&", "x", "y", "z", "\"\"", "'a'", "\\\\", "\\\"", "\\", "a\\", "//", "/* */", "1e5", "#t", "#f", "()", "$", "`", "key: v", "vf_fn_a", "C_RED", "--"]
WS = [" ", "  ", " a", "a ", " a ", "a  b", "\t", "\n", "a\nb", "\na", "a\n", "\r", "a\rb", "a\r\nb", "\t\n ", "a\tb", "\n\n"]
def texts(cls, rnd, n):
    r = [s.encode() for s in FIXED] + [s.encode() for s in U8] + [s.encode() for s in WS]
    if cls in ("ctl", "bytes"):
        r += [bytes([c]) for c in list(range(1, 32)) + [127]]
        r += [bytes([c]) + d for c in (1, 7, 27, 31, 127) for d in (b"0", b"7", b"8", b"1", b"a")]
    if cls == "bytes":
        r += [bytes([c]) for c in range(128, 256)] + [bytes([c]) + d for c in (128, 200, 255) for d in (b"0", b"7", b"8", b"1a")]
    for _ in range(n):
        l = rnd.choice([1, 2, 3, 5, 9, 30, 70])
        if cls == "xml": t = "".join(rnd.choice([chr(rnd.choice(SAFE)), rnd.choice(U8), rnd.choice("<>&'\"\\ \t\n;#{}()[]:,-")]) for _ in range(l)).encode()
        elif cls == "ctl": t = "".join(rnd.choice([chr(rnd.randint(1, 127)), rnd.choice(U8), rnd.choice("\\\"'01277abfnrtuvxx")]) for _ in range(l)).encode()
        else: t = bytes(rnd.choice([rnd.randint(1, 255), rnd.choice(b"\\\"'0127789abfnrtvx"), rnd.randint(1, 31)]) for _ in range(l))
        r.append(t)
    if n > 20: r.append(b"long " + bytes(rnd.choice(SAFE) for _ in range(1500)))
    return [hexs(t) for t in r]
def chararr(cls, size, rnd, n, zeros=False, ascii=False):
    r = []
    for t in texts(cls, rnd, n):
        b = bytes.fromhex(t[2:])[:size]
        if zeros and len(b) > 2 and rnd.random() < 0.2: b = b[:1] + b"\0" + b[2:]
        if ascii: b = bytes(c for c in b if c < 128)
        if cls != "bytes": b = b.decode("utf-8", "ignore").encode()
        r.append(hexs(b))
    return r
def chars(cls):
    if cls == "xml": return [str(c) for c in range(33, 127)] + ["32"]
    if cls == "ctl": return [str(c) for c in range(1, 128)]
    return [str(c) for c in range(0, 256)]

def domains(cls, rnd, n):
    T = schema.Types()
    for s in schema.STRUCTS: T.add(s)
    d = {}
    for t in T.t:
        k = T.t[t]["k"]
        if k == "text": d[t] = texts(cls, rnd, n)
        if k != "leaf": continue
        if t == "char": d[t] = chars(cls)
        elif t in BITS: d[t] = ints(*BITS[t], rnd, n)
        elif t in ("f32", "f64", "f80"): d[t] = floats(t, rnd, n)
        elif t in ("c32", "c64", "c80"): d[t] = complexes(t, rnd, n)
        elif t == "fn": d[t] = ["null", "vf_fn_a", "vf_fn_b"]
        elif t.startswith("ca:"): d[t] = chararr(cls, int(t[3:]), rnd, n, zeros=True, ascii=(cls == "xml"))   # characters one by one
        elif t.startswith("ct:"): d[t] = chararr(cls, int(t[3:]), rnd, n)
        elif t.startswith("e:"):
            at, cs, u = schema.ENUMS[t[2:]]
            v = [str(int(c[1].rstrip("L"), 0)) for c in cs]
            fl = t[2:] in ("flg_t", "fl8_t")
            vals = [int(x) for x in v]
            d[t] = v * 3 + ints(*BITS[u], rnd, 3)
            if fl:
                for m in range(1, 16):
                    x = 0
                    for i, b in enumerate(vals[1:]):
                        if m >> i & 1: x |= b
                    d[t] += [str(x), str(x | (8 if u == "u32" else 16))]
            # neighbours of the declared values
            d[t] += [str(x + s) for x in vals for s in (-1, 1) if BITS[u][0] <= x + s <= BITS[u][1]]
        elif t.startswith("bf:"):
            b, w = t[3:].rsplit(":", 1); w = int(w)
            if b == "bool": d[t] = ["0", "1"]
            elif b.startswith("e:"):
                d[t] = [str(int(c[1], 0)) for c in schema.ENUMS[b[2:]][1]] + ints(-2**(w-1), 2**(w-1)-1, rnd, n)
            elif b[0] == "u": d[t] = ints(0, 2**w-1, rnd, n)
            else: d[t] = ints(-2**(w-1), 2**(w-1)-1, rnd, n)
    d["un_t.k1"] = ["0", "1", "2", "3", "-1", "4", "7", "2147483647"] + ["0", "1", "2", "3"]
    d["un_t.k2"] = d["e:col_t"]
    d["un_t.k3"] = [hexs(x.encode()) for x in ["x", "y", "z", "x", "y", "z", "", "xx", "Z", "y "]]
    disc = ["0", "1", "2", "3"] * 3
    d["ud_t.d8"] = disc + ["255", "128"]
    d["ud_t.d64"] = disc + ["4294967297", "-4294967295", "-1", "9223372036854775807"]
    d["ud_t.du"] = disc + ["4294967297", "18446744073709551615", "4294967298"]
    d["ud_t.dx"] = disc + ["18446744073709551617", "-1", "-18446744073709551614"]
    d["ud_t.df"] = ["0", "1", "2", "3", "7"]
    d["ud_t.ds"] = ["0", "1", "2", "3", "-1", "-15", "15"]
    d["ud_t.de"] = ["0", "1", "2", "3", "-7"]
    d["ud_t.dc"] = [hexs(x) for x in [b"", b"x", b"yz", b"abcd", b"abc", b"x ", b"xx", b"abcd", b"yzx"]]
    d["ud_t.dn"] = ["0", "1", "2", "3", "5", "-1", "-1", "6", "4294967"]
    d["ud_t.dq"] = ["0", "1", "2", "3", "5", "-1", "-1", "127"]
    return d, T
