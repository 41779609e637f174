------------------------------ MODULE TreeTrace ------------------------------
(* Validation of transitions and traversals of real trees (harness/tree.c) against Tree *)
EXTENDS Tree, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLE l
E == Trace[l]
Report(why) == Serialize(ToJson([line |-> l, kind |-> "tree", why |-> why]) \o "\n",
                         IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Need(ok, why) == IF ok THEN TRUE ELSE Report(why)
StepOk == CASE E.op = "a" -> Need(AddOk(E.kind, E.pre, E.k, E.post), "insertion: tree not balanced or wrong keys") /\ Need(E.ok = 1, "insertion: wrong result")
            [] E.op = "d" -> Need(DelOk(E.kind, E.pre, E.k, E.post, E.ok = 1), "removal: tree not balanced, wrong keys or wrong result")
            [] E.op = "f" -> Need(FindOk(E.pre, E.k, E.post, E.ok = 1), "search: wrong result or changed tree")
Probe(p) == /\ Need(p.eq = (IF p.k \in KeysOf(E.t) THEN 1 ELSE 0), "lookup of a key")
            /\ Need(p.fwd = Forward(E.t, p.k), "forward traversal")
            /\ Need(p.bwd = Backward(E.t, p.k), "backward traversal")
NavOk == /\ Need(Balanced(E.kind, E.t), "not balanced")
         /\ Need(Shallow(E.kind, E.t), "too high")
         /\ Need(E.walk = InOrder(E.t) /\ E.ok = 1, "sorted traversal")
         /\ Need(Len(E.each) = Size(E.t) /\ {E.each[i] : i \in 1..Len(E.each)} = KeysOf(E.t), "traversal")
         /\ Need(E.cnt = Size(E.t), "item count")
         /\ Need(E.valid = 1, "the library's own validation rejects the tree")
         /\ \A i \in 1..Len(E.probes) : Probe(E.probes[i])
Step == /\ l <= Len(Trace)
        /\ IF E.ev = "nav" THEN NavOk ELSE StepOk /\ Need(E.cnt = Size(E.post), "item count")
        /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == l = 1 /\ Init /\ kind = "rb" /\ [][Step]_<<l, vars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
