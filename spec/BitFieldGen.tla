----------------------------- MODULE BitFieldGen -----------------------------
(* Every type, width and offset of a bit-field, with several contents of the memory around it and values to store. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
P == JsonDeserialize(IOEnv.VF_PROFILE)
Pat == {"zero", "ones", "alt", "rnd", "rnd2"}
VPat == {"zero", "ones", "min", "max", "rnd", "rnd2"}
Byte(p, i) == CASE p = "zero" -> 0 [] p = "ones" -> 255 [] p = "alt" -> IF i % 2 = 0 THEN 170 ELSE 85 [] OTHER -> RandomElement(0..255)
(* the bits of the value at and above the width are arbitrary *)
VBit(p, i, w) == CASE p = "zero" -> 0 [] p = "ones" -> 1 [] p = "min" -> IF i = w THEN 1 ELSE IF i < w THEN 0 ELSE RandomElement(0..1) [] p = "max" -> IF i < w THEN 1 ELSE IF i = w THEN 0 ELSE RandomElement(0..1) [] OTHER -> RandomElement(0..1)
RECURSIVE Sum8(_, _, _, _)
Sum8(p, w, b, k) == IF k = 8 THEN 0 ELSE VBit(p, 8 * b + k + 1, w) * 2^k + Sum8(p, w, b, k + 1)
VARIABLE c
Pats == IF P.all THEN Pat \X VPat ELSE {<<"ones", "min">>, <<"ones", "zero">>, <<"zero", "ones">>, <<"rnd", "rnd">>, <<"alt", "max">>, <<"rnd2", "rnd2">>}
Cases == {t \in (1..Len(P.types)) \X (0..7) \X (1..128) : t[3] <= P.types[t[1]].bits /\ t[2] % P.parts = P.part}
Init == \E t \in Cases, p \in Pats : c = [ty |-> P.types[t[1]].name, s |-> t[2], w |-> t[3], m |-> [i \in 1..24 |-> Byte(p[1], i)], v |-> [i \in 1..16 |-> Sum8(p[2], t[3], i - 1, 0)]]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Write == Serialize(ToJson(c) \o "\n", IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
