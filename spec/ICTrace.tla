------------------------------- MODULE ICTrace -------------------------------
(* Validation of the transitions of real collections (harness/ic.c) against IC; violations are written to VF_OUT *)
EXTENDS IC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLE l
E == Trace[l]
Report(k, why) == Serialize(ToJson([line |-> l, kind |-> k, why |-> why \o " " \o ToString(E)]) \o "\n",
                            IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
\* with an allocation failure a violation concerns the behaviour without memory
Need(ok, why) == IF ok THEN TRUE ELSE Report(IF E.failed = 1 THEN "oom" ELSE "set", why)

Ok(e) == LET f == e.failed = 1 IN
  CASE e.op = "add" -> AddOk(e.kind, e.pre.items, e.key, e.post.items, e.elem, f)
    [] e.op = "del" -> DelOk(e.kind, e.pre.items, e.key, e.post.items, e.res = "ok", f)
    [] e.op = "find" -> FindOk(e.kind, e.pre.items, e.key, e.post.items, e.elem)
    [] e.op = "index" -> IndexOk(e.kind, e.pre.items, e.arr, e.post.items, e.res = "ok", f)
    [] e.op = "stop" -> StopOk(e.kind, e.pre.items, e.n, e.post.items, e.res = "ok", e.seen)
    [] e.op = "free" -> FreeOk(e.post.items)
Step == /\ l <= Len(Trace)
        /\ Need(Ok(E), "wrong effect")
        /\ Need(E.post.cnt = Len(E.post.items), "item count differs from the number of elements")
        /\ Need(E.post.st = 1, "traversal failed")
        /\ Need(E.argsame = 1, "the borrowed array was changed")
        /\ IF E.live = 0 THEN TRUE ELSE Report("leak", "memory left after release")
        /\ IF E.bad = 0 THEN TRUE ELSE Report("leak", "released something that was not allocated")
        /\ l' = l + 1
        /\ UNCHANGED vars
TraceInit == l = 1 /\ kind = "rb" /\ coll = <<>> /\ ret = <<"new">>
TraceSpec == TraceInit /\ [][Step]_<<l, vars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
