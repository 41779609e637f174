----------------------------- MODULE OrderTrace -----------------------------
(***************************************************************************)
(* Comparison and hashing of objects.  The state is the sequence of        *)
(* meanings of the objects that exist side by side.  A comparison is an    *)
(* order on meanings: its sign is antisymmetric and transitive, zero       *)
(* exactly for objects of the same meaning, and a hash is a function of    *)
(* the meaning.  Objects of one meaning occur at different addresses, with *)
(* different padding and other bytes outside of any active value.          *)
(***************************************************************************)
EXTENDS Heap
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, objs
vars == <<l, objs>>
E == Trace[l]
HeapOf(e) == [blocks |-> e.blocks,
              mem |-> [x \in {<<e.cells[i].b, e.cells[i].p>> : i \in 1..Len(e.cells)} |->
                         e.cells[CHOOSE i \in 1..Len(e.cells) : e.cells[i].b = x[1] /\ e.cells[i].p = x[2]].c]]
Report(kind, why) == Serialize(ToJson([sc |-> E.sc, ev |-> E.ev, fmt |-> "", kind |-> kind, key |-> "", why |-> why]) \o "\n",
                         IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Need(ok, kind, why) == IF ok THEN TRUE ELSE Report(kind, why)
Pick(S, what) == IF S = {} THEN TRUE ELSE Report("order", what \o " " \o ToString(CHOOSE x \in S : TRUE))

TrObjects == /\ E.ev = "objs"
             /\ objs' = [i \in 1..Len(E.o) |-> Meaning(HeapOf(E.o[i]), 1, "0", E.o[i].root)]
N == 1..Len(objs)
C(i, j) == E.m[i][j]
TrPairs == /\ E.ev = "pairs"
           /\ Need(Len(E.m) = Len(objs), "machinery", "objects missing")
           /\ Pick({i \in N : E.after[i] # objs[i]}, "object changed")
           /\ Pick({<<i, j>> \in N \X N : (C(i, j) = 0) # (objs[i] = objs[j])}, "zero exactly for equal objects: fails for")
           /\ Pick({<<i, j>> \in N \X N : C(i, j) # 0 - C(j, i)}, "not antisymmetric")
           /\ Pick({<<i, j, k>> \in N \X N \X N : C(i, j) <= 0 /\ C(j, k) <= 0 /\ C(i, k) > 0}, "not transitive")
           /\ Pick({<<i, j>> \in N \X N : objs[i] = objs[j] /\ E.h[i] # E.h[j]}, "equal objects with different hashes")
           /\ Need(E.leak = 0, "leak", "blocks left")
           /\ UNCHANGED objs
TraceInit == l = 1 /\ objs = <<>>
TraceNext == l <= Len(Trace) /\ (TrObjects \/ TrPairs) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
