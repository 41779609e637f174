---------------------------- MODULE BitFieldTrace ----------------------------
(* Validation of the library's reading, writing and rendering of bit-fields *)
EXTENDS BitField, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLE l
E == Trace[l]
Report(k, why) == Serialize(ToJson([line |-> l, kind |-> k, why |-> why \o " " \o ToString(E)]) \o "\n",
                            IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Need(ok, why) == IF ok THEN TRUE ELSE Report("bf", why)
Signed == E.sg = 1
Pre == OfBytes(E.pre)
Pos == 8 * E.at + E.s
Value == Read(Pre, Pos, E.w, Signed)
Step == /\ l <= Len(Trace)
        /\ Need(OfBytes(E.rd) = Value, "read another value than the field holds")
        /\ Need(OfBytes(E.post) = Write(Pre, Pos, E.w, OfBytes(E.v)), "after storing, the memory is not the old one with the field replaced")
        /\ IF E.txt = 0 THEN TRUE ELSE LET n == Number(Value, Signed) IN Need(E.neg = (IF n.neg THEN 1 ELSE 0) /\ Groups(E.dig) = n.d, "rendered another number than the field holds")
        /\ l' = l + 1
TraceInit == l = 1
TraceSpec == TraceInit /\ [][Step]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
