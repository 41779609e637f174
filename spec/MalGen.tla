------------------------------- MODULE MalGen -------------------------------
(* Sequences of edits: all single ones on a document of Max lexemes (Edits = 1), or random ones on documents of the lengths in VF_LENS. *)
EXTENDS Mal, TLC, Json, IOUtils
CONSTANTS Edits, Random
P == JsonDeserialize(IOEnv.VF_PROFILE)
Lens == {P.lens[i] : i \in 1..Len(P.lens)}
Ops == {P.ops[i] : i \in 1..Len(P.ops)}
Words == P.words
VARIABLES doc, script, n
vars == <<doc, script, n>>

Init == /\ n \in Lens /\ doc = Undamaged(n) /\ script = <<>>
Candidates ==
  LET m == Len(doc) IN
  UNION {(IF 1 \in Ops THEN {<<1, i, 0, 0>> : i \in 0..(m - 1)} ELSE {}),
         (IF 2 \in Ops THEN {<<2, i, j, 0>> : i \in 1..m, j \in {1, 2, 3, 5}} ELSE {}),
         (IF 3 \in Ops THEN {<<3, i, w, 0>> : i \in 1..(m + 1), w \in 1..Words} ELSE {}),
         (IF 4 \in Ops THEN {<<4, i, w, 0>> : i \in 1..m, w \in 1..Words} ELSE {}),
         (IF 5 \in Ops THEN {<<5, i, j, 0>> : i \in 1..m, j \in 1..m} ELSE {}),
         (IF 6 \in Ops THEN {<<6, i, j, 0>> : i \in 1..m, j \in {1, 2, 4}} ELSE {}),
         (IF 7 \in Ops THEN {<<7, i, j, k>> : i \in 1..m, j \in {1, 2, 3, 6}, k \in {1, 2, 300}} ELSE {})}
\* one candidate of a random operation
Pick == LET m == Len(doc)  o == RandomElement(Ops) IN
  CASE o = 1 -> <<1, RandomElement(0..(m - 1)), 0, 0>>
    [] o = 2 -> <<2, RandomElement(1..m), RandomElement(1..8), 0>>
    [] o = 3 -> <<3, RandomElement(1..(m + 1)), RandomElement(1..Words), 0>>
    [] o = 4 -> <<4, RandomElement(1..m), RandomElement(1..Words), 0>>
    [] o = 5 -> <<5, RandomElement(1..m), RandomElement(1..m), 0>>
    [] o = 6 -> <<6, RandomElement(1..m), RandomElement(1..6), 0>>
    [] OTHER -> <<7, RandomElement(1..m), RandomElement(1..8), RandomElement({1, 1, 2, 20})>>
Emit(s) == Serialize(ToJson([n |-> n, s |-> s]) \o "\n", IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Step(e) == /\ Legal(doc, e, Words)
           /\ doc' = Edit(doc, e) /\ script' = Append(script, e) /\ n' = n
           /\ Emit(script')
Next == /\ Len(script) < Edits /\ doc # <<>>
        /\ IF Random THEN \E e \in {Pick} : Step(e) ELSE \E e \in Candidates : Step(e)
Spec == Init /\ [][Next]_vars

(* sanity of the edits *)
Lexemes == \A i \in 1..Len(doc) : doc[i] \in 1..n \/ (0 - doc[i]) \in 1..Words
Lengths == (Len(script) = 1) =>
  LET e == script[1]  m == Len(doc) IN
  CASE e[1] = 1 -> m = e[2] [] e[1] = 2 -> m = n - e[3] [] e[1] = 3 -> m = n + 1
    [] e[1] \in {4, 5, 6} -> m = n [] OTHER -> m = n + e[3] * e[4]
Replayed == doc = Damage(Undamaged(n), script)
=============================================================================
