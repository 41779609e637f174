------------------------------ MODULE ExprTrace ------------------------------
(* Validation of what the real loader made of each expression *)
EXTENDS Expr, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLE l
E == Trace[l]
Report(k, why) == Serialize(ToJson([line |-> l, kind |-> k, why |-> why \o " " \o ToString(E)]) \o "\n",
                            IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Need(ok, why) == IF ok THEN TRUE ELSE Report("expr", why)
Exp == Value(E.t)
Stored == Store(Exp, E.kind)
Step == /\ l <= Len(Trace)
        /\ Need(Exp.k = "err" => E.ok = 0, "an expression without a value was loaded")
        /\ Need(~Bad(Exp) => E.ok = 1, "the load failed")
        /\ Need(~Bad(Stored) /\ E.ok = 1 => E.re = Stored.re /\ E.im = Stored.im, "wrong value, expected " \o ToString(Stored))
        /\ Need(E.rest = 1, "another field was touched")
        /\ l' = l + 1
TraceInit == l = 1
TraceSpec == TraceInit /\ [][Step]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
