------------------------------- MODULE SortMC -------------------------------
(***************************************************************************)
(* The heap sort of the library as an algorithm: sift moves a hole down a  *)
(* heap whose last element index is cnt, the main loop builds the heap and *)
(* repeatedly moves its root behind it.  TLC checks for every array within *)
(* the bounds that the result is a sorting of the input and that no access *)
(* is outside of the array.                                                *)
(***************************************************************************)
EXTENDS Sort, TLC
CONSTANTS MaxLen, Keys

VARIABLES in, arr, cnt, i, phase, hole, x, j
vars == <<in, arr, cnt, i, phase, hole, x, j>>
\* arrays are 0-based in the program
At(a, k) == a[k + 1]
Arrays == UNION {[1..n -> Keys] : n \in 0..MaxLen}
Init == \E a \in Arrays : /\ in = [k \in 1..Len(a) |-> <<a[k], k>>]
                          /\ arr = in
                          /\ cnt = Len(a) - 1
                          /\ i = (Len(a) - 1) \div 2
                          /\ phase = IF Len(a) <= 1 THEN "done" ELSE "build"
                          /\ hole = 0 /\ x = <<0, 0>> /\ j = 0
Key(k) == At(arr, k)[1]
Build == /\ phase = "build"
         /\ IF i > 0 THEN /\ hole' = i /\ x' = At(arr, i) /\ j' = 2 * i + 1 /\ phase' = "siftb" /\ i' = i - 1
                     ELSE phase' = "select" /\ UNCHANGED <<hole, x, j, i>>
         /\ UNCHANGED <<in, arr, cnt>>
Select == /\ phase = "select"
          /\ IF cnt > 0 THEN hole' = 0 /\ x' = At(arr, 0) /\ j' = 1 /\ phase' = "sifts"
                        ELSE phase' = "done" /\ UNCHANGED <<hole, x, j>>
          /\ UNCHANGED <<in, arr, cnt, i>>
\* one turn of the sift
Sift == /\ phase \in {"siftb", "sifts"}
        /\ LET k == IF j < cnt /\ Key(j) <= Key(j + 1) THEN j + 1 ELSE j
               stop == IF j < cnt THEN Key(k) <= x[1] ELSE ~(j = cnt /\ Key(j) > x[1])
           IN IF stop
              THEN /\ LET a == [arr EXCEPT ![hole + 1] = x] IN
                      IF phase = "siftb" THEN arr' = a /\ phase' = "build" /\ cnt' = cnt
                      ELSE arr' = [a EXCEPT ![1] = a[cnt + 1], ![cnt + 1] = a[1]] /\ cnt' = cnt - 1 /\ phase' = "select"
                   /\ UNCHANGED <<in, i, hole, x, j>>
              ELSE /\ arr' = [arr EXCEPT ![hole + 1] = At(arr, k)]
                   /\ hole' = k /\ j' = IF j < cnt THEN 2 * k + 1 ELSE cnt + 1
                   /\ UNCHANGED <<in, cnt, i, phase, x>>
Next == Build \/ Select \/ Sift
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InBounds == phase \in {"siftb", "sifts"} /\ j <= cnt => hole < Len(arr) /\ j < Len(arr) /\ (j < cnt => j + 1 < Len(arr))
Correct == phase = "done" => Sorted(0, in, arr)
Terminates == <>(phase = "done")
=============================================================================
