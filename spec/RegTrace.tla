------------------------------ MODULE RegTrace ------------------------------
(* Validation of the answers of one process, in the order they were given. The facts come first: what the compiler made of each declaration. *)
EXTENDS Reg, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
Schema == JsonDeserialize(IOEnv.VF_SCHEMA)
VARIABLES l, ans, facts
E == Trace[l]
D == {[i |-> i, k |-> Schema[i].k, n |-> Schema[i].n, f |-> Schema[i].f] : i \in 1..Len(Schema)}
Users == [n \in {Schema[i].n : i \in 1..Len(Schema)} |->
             LET d == CHOOSE d \in D : d.n = n IN CASE d.k = "struct" -> "STRUCT" [] d.k = "union" -> "UNION" [] d.k = "enum" -> "ENUM" [] OTHER -> "FUNC_TYPE"]
Report(k, why) == Serialize(ToJson([line |-> l, kind |-> k, why |-> why \o " " \o ToString(E)]) \o "\n",
                            IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Need(ok, why) == IF ok THEN TRUE ELSE Report(E.k, why)
Sz(d) == facts[d.i].sz
Fact(d, n) == facts[d.i].f[n]
(* the question; the answer may not change *)
Q(e) == CASE e.k = "fd" -> <<"fd", e.t, e.via, e.q>> [] e.k \in {"ev", "gv", "anyt"} -> <<e.k, e.t, e.q>> [] OTHER -> <<e.k, e.q>>
Same == Q(E) \in DOMAIN ans => ans[Q(E)] = E
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
(* an argument that is an array of characters is a text of limited length *)
ArgKind(a) == LET k == IF a.t = "CHAR" /\ a.p = 0 /\ Len(a.d) = 1 THEN [mt |-> "CHAR_ARRAY", aux |-> ""] ELSE Kind(KindOf(a.t, Users), a.p, Len(a.d) > 0) IN
              <<k.mt, IF k.mt \in {"POINTER", "ARRAY"} THEN k.aux ELSE "", IF k.mt = "ARRAY" THEN Dims(a.d) ELSE <<>>>>
ArgKinds(r, as) == <<(<<r, "", <<>>>>)>> \o [i \in 1..Len(as) |-> ArgKind(as[i])]
(* ---- types *)
Describes(d) == /\ E.nm = d.n
                /\ E.mt = Users[d.n]
                /\ E.sz = Sz(d)
                /\ CASE d.k = "func" -> E.args = ArgKinds(Schema[d.i].r, d.f)
                     [] OTHER -> SameBag([j \in 1..Len(d.f) |-> d.f[j].n], E.fs)
Td == LET c == Named(D, E.q) IN
      IF c = {} THEN Need(E.id = 0, "a type that was not declared was found")
      ELSE /\ Need(E.id # 0, "a declared type was not found")
           /\ Need(E.id # 0 => \E d \in c : Describes(d), "the descriptor differs from the declaration")
(* ---- fields *)
RECURSIVE Descend(_, _), LeafNames(_)
Descend(fs, via) == IF via = <<>> THEN fs ELSE LET i == CHOOSE i \in 1..Len(fs) : fs[i].form = "anon" /\ fs[i].m[1].n = Head(via) IN Descend(fs[i].m, Tail(via))
LeafNames(fs) == UNION {IF fs[i].form = "anon" THEN LeafNames(fs[i].m) ELSE {fs[i]} : i \in 1..Len(fs)}
AnonOff(d, f) == LET c == {x \in LeafNames(f.m) : x.form # "vbf"} IN
                 IF c = {} THEN {} ELSE {LET x == CHOOSE x \in c : TRUE IN IF x.form = "bf" THEN Fact(d, x.n).bit \div 8 ELSE Fact(d, x.n).off}
FieldTd(f) == IF f.form \in {"par", "bf"} /\ f.t \in DOMAIN Users THEN f.t ELSE ""
MatchField(d, f) == LET k == FieldKind(f, Users) IN
    /\ Need(E.nm = f.n, "another field was found")
    /\ Need(E.mt = k.mt /\ E.aux = k.aux, "wrong kind, expected " \o ToString(k))
    /\ Need(f.form # "anon" => E.base = k.base, "wrong base kind, expected " \o k.base)
    /\ Need(f.form = "par" /\ f.t \in DOMAIN Users => E.td = f.t, "wrong type")
    /\ Need(E.mt = "ARRAY" => E.dims = Dims(f.d), "wrong dimensions")
    /\ Need(E.mt = "FUNC" => E.args = ArgKinds(f.t, f.args), "wrong arguments, expected " \o ToString(ArgKinds(f.t, f.args)))
    /\ CASE f.form = "anon" -> Need(\A o \in AnonOff(d, f) : E.off = o, "wrong offset, expected " \o ToString(AnonOff(d, f)))
         [] f.form = "vbf"  -> TRUE
         [] f.form = "bf"   -> Need(E.off * 8 + E.s = Fact(d, f.n).bit /\ E.w = Fact(d, f.n).w /\ E.w = f.w, "wrong bits, expected " \o ToString(Fact(d, f.n)))
         [] OTHER -> Need(E.off = Fact(d, f.n).off /\ (f.form \notin {"varr", "vfn"} => E.sz = Fact(d, f.n).sz), "wrong offset or size, expected " \o ToString(Fact(d, f.n)))
Fd == IF E.t = "mr_ptr_t"
      THEN IF Named(D, E.q) = {} THEN Need(E.id = 0, "a pointer to a type that was not declared")
           ELSE Need(E.id # 0 /\ E.nm = E.q /\ E.mt = "POINTER" /\ E.td = E.q /\ E.aux = Users[E.q] /\ E.off = 0, "the pointer to a declared type")
      ELSE LET d == CHOOSE d \in D : d.n = E.t IN
           IF d.k \notin {"struct", "union"} THEN Need(E.id = 0, "a field of something without fields")
           ELSE LET fs == Descend(d.f, E.via) c == {i \in 1..Len(fs) : fs[i].n = E.q /\ E.q # ""} IN
                IF c = {} THEN Need(E.reach = 1 /\ E.id = 0, "a field that was not declared was found")
                ELSE /\ Need(E.reach = 1 /\ E.id # 0, "a declared field was not found")
                     /\ E.id # 0 => MatchField(d, fs[CHOOSE i \in c : TRUE])
RECURSIVE AllFields(_)
AllFields(fs) == UNION {{fs[i]} \cup (IF fs[i].form = "anon" THEN AllFields(fs[i].m) ELSE {}) : i \in 1..Len(fs)}
AnyFields == UNION {IF d.k \in {"struct", "union"} THEN AllFields(d.f) ELSE {} : d \in D}
AnyF == IF E.q # "" /\ (Named(D, E.q) # {} \/ \E f \in AnyFields : f.n = E.q) THEN Need(E.id # 0 /\ E.nm = E.q, "no field of that name was found")
       ELSE Need(E.id = 0, "a field that was not declared was found")
Singles == {d \in D : d.k \in {"struct", "union"} /\ Cardinality(Named(D, d.n)) = 1}
AnyT == LET sure == \E d \in Singles : \E f \in AllFields(d.f) : f.n = E.q /\ FieldTd(f) = E.t
            may  == \E f \in AnyFields : f.n = E.q /\ FieldTd(f) = E.t IN
        IF sure \/ E.q = E.t THEN Need(E.id # 0 /\ E.nm = E.q /\ E.td = E.t, "no field of that name and type was found")
        ELSE Need(~may => E.id = 0, "a field that was not declared was found")
(* ---- enumerations; facts[i].v are the values of the constants of declaration i *)
ConstFacts(n) == UNION {{[i |-> d.i, v |-> facts[d.i].v[j]] : j \in {j \in 1..Len(d.f) : d.f[j].n = n}} : d \in {d \in D : d.k = "enum"}}
(* a declaration shadowed by another one of the same name is not registered *)
En == LET c == ConstFacts(E.q)
          sure == \E x \in c : Cardinality(Named(D, Schema[x.i].n)) = 1 IN
      IF c = {} THEN Need(E.id = 0, "a constant that was not declared was found")
      ELSE /\ Need(sure => E.id # 0, "a declared constant was not found")
           /\ Need(E.id # 0 => E.nm = E.q /\ \E x \in c : E.v = x.v, "another constant or value")
Ev == LET d == CHOOSE d \in D : d.n = E.t
          c == {j \in 1..Len(d.f) : facts[d.i].v[j] = E.q} IN
      IF c = {} THEN Need(E.id = 0, "a value that was not declared was found")
      ELSE Need(E.id # 0 /\ E.v = E.q /\ \E j \in c : E.nm = d.f[j].n, "a declared value was not found")
Gv == LET d == CHOOSE d \in D : d.n = E.t
          j == CHOOSE j \in 1..Len(d.f) : d.f[j].n = E.q IN
      Need(E.v = facts[d.i].v[j] /\ E.id # 0 /\ facts[d.i].v[CHOOSE k \in 1..Len(d.f) : d.f[k].n = E.nm] = E.v, "a variable holding the constant reads as another value")
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF E.k = "fact" THEN /\ facts' = [i \in DOMAIN facts \cup {E.i + 1} |-> IF i = E.i + 1 THEN E ELSE facts[i]] /\ ans' = ans
           ELSE /\ facts' = facts
                /\ Need(Same, "the same question was answered differently before")
                /\ ans' = (Q(E) :> E) @@ ans
                /\ CASE E.k = "td" -> Td [] E.k = "fd" -> Fd [] E.k = "any" -> AnyF [] E.k = "anyt" -> AnyT [] E.k = "en" -> En [] E.k = "ev" -> Ev [] E.k = "gv" -> Gv
TraceInit == l = 1 /\ ans = <<>> /\ facts = <<>>
TraceSpec == TraceInit /\ [][Step]_<<l, ans, facts>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
