------------------------------ MODULE MalTrace ------------------------------
(* Loads of damaged documents reported by the driver; equal outcomes of one document are reported once, with an example. *)
EXTENDS Mal, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLE l
E == Trace[l]
Report(why, k) == Serialize(ToJson([line |-> l, row |-> k, kind |-> IF why = "machinery" THEN "machinery" ELSE "mal", why |-> why]) \o "\n", IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Why(r, judged) ==
  CASE r.bad # 0 -> "released memory that is not its own"
    [] r.grow # 0 -> "memory of a parser lost"
    [] r.st = 0 -> "failed load left memory allocated"
    [] ~Sound(r.cells, r.size) -> "loaded object is not sound"
    [] OTHER -> "loaded object could not be released completely"
Row(k) ==
  LET r == E.rows[k] IN
  /\ IF Allowed(Undamaged(E.n), r.script, E.words) /\ Damage(Undamaged(E.n), r.script) = r.res THEN TRUE ELSE Report("machinery", k)
  /\ IF r.st = 1 /\ E.judged = 1 /\ r.sane # (IF Sound(r.cells, r.size) THEN 1 ELSE 0) THEN Report("machinery", k) ELSE TRUE
  /\ IF Outcome(r, E.judged = 1) THEN TRUE ELSE Report(Why(r, E.judged = 1), k)
Init == l = 1
Next == l <= Len(Trace) /\ (\A k \in 1..Len(E.rows) : Row(k)) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
