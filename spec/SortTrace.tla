------------------------------ MODULE SortTrace ------------------------------
(* Validation of the results of the library's sorts *)
EXTENDS Sort, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLE l
E == Trace[l]
Report(k, why) == Serialize(ToJson([line |-> l, kind |-> k, why |-> why \o " " \o ToString(E)]) \o "\n",
                            IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Need(ok, why) == IF ok THEN TRUE ELSE Report("sort", why)
Step == /\ l <= Len(Trace)
        /\ CASE E.op = "hsort" -> Need(Sorted(E.cmp, E.in, E.out), "not a sorting of the input") /\ Need(E.ctx = 0, "comparison called with another context")
             [] E.op = "big" -> Need(SortedIds(E.cmp, E.in, E.out), "not a sorting of the input") /\ Need(E.ctx = 0, "comparison called with another context")
             [] E.op = "typed" -> Need(E.st = 1 /\ Sorted(0, E.in, E.out), "not a sorting of the input")
             [] E.op = "generic" -> Need(E.st = 1 /\ SortedBy(E.m, Len(E.m), E.out), "not in the order of structural comparison")
        /\ l' = l + 1
TraceInit == l = 1
TraceSpec == TraceInit /\ [][Step]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
