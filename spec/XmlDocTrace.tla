----------------------------- MODULE XmlDocTrace -----------------------------
(* Validation of the real reader on streams: every read takes exactly the next document, the first one without a document gives nothing *)
EXTENDS XmlDoc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLE l
E == Trace[l]
Report(k, why) == Serialize(ToJson([line |-> l, kind |-> k, why |-> why \o " " \o ToString(E)]) \o "\n",
                            IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Need(ok, why) == IF ok THEN TRUE ELSE Report("xmldoc", why)
RECURSIVE Sum(_, _)
Sum(s, i) == IF i = 0 THEN 0 ELSE s[i] + Sum(s, i - 1)
Want == IF E.ev = "lib" THEN E.docs ELSE Documents(E.toks, E.avail)
Got == E.reads
(* all but the last read gave a document; the last one gave nothing *)
Ok(i) == LET g == Got[i] IN g.len = Want[i] /\ g.pos = Sum(Want, i) /\ g.same = 1 /\ g.live = 1
Step == /\ l <= Len(Trace)
        /\ Need(Len(Got) > 0 /\ Got[Len(Got)].ok = 0 /\ \A i \in 1..(Len(Got) - 1) : Got[i].ok = 1, "reads do not end with one that gives nothing")
        /\ IF E.fail >= 0
           THEN /\ Need(Len(Got) - 1 <= Len(Want) /\ \A i \in 1..(Len(Got) - 1) : Ok(i), "a document read with memory short is wrong")
                /\ Need(Len(Got) - 1 = Len(Want) \/ E.failed > 0, "nothing was read though there was memory")
                /\ Need(E.failed > 0 => Len(Got) - 1 = E.failread, "a document was read without memory for it")
           ELSE Need(Len(Got) - 1 = Len(Want) /\ \A i \in 1..(Len(Got) - 1) : Ok(i), "the documents read are not those of the stream, one by one")
        /\ Need(Got[Len(Got)].live = 0 /\ E.bad = 0, "memory lost or released twice")
        /\ Need(E.ev = "lib" => E.equal = Len(Want), "a document read from the stream does not load as the object that was saved")
        /\ l' = l + 1
TraceInit == l = 1
TraceSpec == TraceInit /\ [][Step]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
