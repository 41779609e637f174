------------------------------- MODULE LogTrace -------------------------------
(* Validation of the diagnostics of real operations under every configuration *)
EXTENDS Log, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLE l
E == Trace[l]
Report(k, why) == Serialize(ToJson([line |-> l, kind |-> k, why |-> why \o " " \o ToString(E)]) \o "\n",
                            IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Need(ok, why) == IF ok THEN TRUE ELSE Report("log", why)
Cfg == [handler |-> E.handler = 1, level |-> E.level, oom |-> E.oom = 1]
Step == /\ l <= Len(Trace)
        /\ Need(E.same = 1 /\ E.live = 0 /\ E.bad = 0, "the outcome of the operation depends on its diagnostics")
        /\ Need(Handed(Cfg, E.sent, E.got), "the handler did not receive exactly the messages")
        /\ Need(IF Cfg.handler THEN E.err = <<>> ELSE Accepts(Cfg, E.sent, E.err), "the error stream does not have exactly the messages at or above the threshold")
        /\ Need(E.m # <<>> => Len(E.sent) = 1 /\ E.sent[1].level = E.m[1] /\ E.sent[1].id = E.m[2] /\ E.sent[1].file = "some file.c" /\ E.sent[1].func = "some_func" /\ E.sent[1].line = 4711, "the message was changed on its way")
        /\ l' = l + 1
TraceInit == l = 1
TraceSpec == TraceInit /\ [][Step]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
