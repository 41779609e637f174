----------------------------- MODULE BitFieldMC -----------------------------
(* Two disjoint fields of a small memory are written in turn; each always holds what was written to it last, and the bits of neither never change. *)
EXTENDS BitField, FiniteSets
CONSTANT Size
VARIABLES mem, fields, last, start
vars == <<mem, fields, last, start>>
Mems == [1..Size -> {0, 1}]
Vals == [1..VBits -> {0, 1}]
Ranges == {<<p, w>> \in (0..(Size - 1)) \X (1..VBits) : p + w <= Size}
Low(v, w) == [i \in 1..VBits |-> IF i <= w THEN v[i] ELSE 0]
Next == \E i \in {1, 2}, v \in Vals : /\ mem' = Write(mem, fields[i][1], fields[i][2], v)
                                       /\ last' = [last EXCEPT ![i] = Low(v, fields[i][2])]
                                       /\ UNCHANGED <<fields, start>>
Init == \E m \in Mems, f \in {<<a, b>> \in Ranges \X Ranges : a[1] + a[2] <= b[1]} :
           mem = m /\ start = m /\ fields = f /\ last = [i \in {1, 2} |-> Read(m, f[i][1], f[i][2], FALSE)]
Spec == Init /\ [][Next]_vars
In(i, f) == i > f[1] /\ i <= f[1] + f[2]
Holds == \A i \in {1, 2} : Read(mem, fields[i][1], fields[i][2], FALSE) = last[i]
Kept == \A i \in 1..Size : ~In(i, fields[1]) /\ ~In(i, fields[2]) => mem[i] = start[i]
(* a signed value that fits in the field is read back whole *)
SignKept == \A i \in {1, 2} : LET p == fields[i][1] w == fields[i][2] r == Read(mem, p, w, TRUE) IN
               /\ Read(Write(mem, p, w, r), p, w, TRUE) = r
               /\ \A j \in w..VBits : r[j] = r[w]
(* the decimal notation is that of the number *)
RECURSIVE Sum(_, _)
Sum(v, i) == IF i > VBits THEN 0 ELSE (IF i = VBits THEN -v[i] ELSE v[i]) * 2^(i - 1) + Sum(v, i + 1)
Decimal == \A i \in {1, 2} : LET r == Read(mem, fields[i][1], fields[i][2], TRUE) n == Number(r, TRUE) IN (IF n.neg THEN -n.d[1] ELSE n.d[1]) = Sum(r, 1) /\ Len(n.d) = 1
=============================================================================
