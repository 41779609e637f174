------------------------------- MODULE ConcTrace -------------------------------
(* Validation of recorded runs of concurrent first calls *)
EXTENDS Conc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLE l
E == Trace[l]
Report(kd, why) == Serialize(ToJson([line |-> l, kind |-> kd, why |-> why \o " " \o ToString(E)]) \o "\n",
                            IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Need(ok, kd, why) == IF ok THEN TRUE ELSE Report(kd, why)
Base == Need(E.hang = 0 /\ E.first = E.second, "base", "the first call has another result than later ones")
Run == IF RunOK(E) THEN TRUE
       ELSE IF E.hang # 0 THEN Report("hang", "a call never returned")
       ELSE IF ~(\A i \in DOMAIN E.ans : E.ans[i] = E.want[i]) THEN Report("answer", "a call has another result than single-threaded")
       ELSE Report("twice", "the library was not initialized exactly once")
TStep == /\ l <= Len(Trace)
         /\ IF E.k = "base" THEN Base ELSE Run
         /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == l = 1 /\ Init /\ [][TStep]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================
