------------------------------- MODULE DocGen -------------------------------
(* Documents for the objects in VF_OBJS, several for each in the formats asked for *)
EXTENDS Doc
Objs == ndJsonDeserialize(IOEnv.VF_OBJS)
VARIABLES i, j
HeapOf(o) == [blocks |-> o.blocks,
              sized |-> [b \in 1..Len(o.blocks) |-> IF \E c \in 1..Len(o.cells) : o.cells[c].c.k = "r" /\ o.cells[c].c.b = b THEN 1 ELSE 0],
              mem |-> [x \in {<<o.cells[c].b, o.cells[c].p>> : c \in 1..Len(o.cells)} |->
                         o.cells[CHOOSE c \in 1..Len(o.cells) : o.cells[c].b = x[1] /\ o.cells[c].p = x[2]].c]]
Init == i = 1 /\ j = 1
Next == /\ i <= Len(Objs)
        /\ LET f == Objs[i].fmts[j] d == Document(HeapOf(Objs[i]), Objs[i].root, f) IN
           Serialize(ToJson([id |-> Objs[i].id, fmt |-> f, doc |-> d]) \o "\n", IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ IF j < Len(Objs[i].fmts) THEN j' = j + 1 /\ i' = i ELSE j' = 1 /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, j>>
=============================================================================
