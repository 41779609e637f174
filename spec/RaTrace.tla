------------------------------- MODULE RaTrace -------------------------------
(* Validation of the real buffers' transitions against Ra *)
EXTENDS Ra, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLE l
E == Trace[l]
Report(k, why) == Serialize(ToJson([line |-> l, kind |-> k, why |-> why \o " " \o ToString(E)]) \o "\n",
                            IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Need(ok, why) == IF ok THEN TRUE ELSE Report("ra", why)
Pre == [some |-> E.pre.some = 1, b |-> E.pre.b]
Post == [some |-> E.post.some = 1, b |-> E.post.b]
Failed == E.failed = 1
Exp == CASE E.op \in {"raw", "elem"} -> RawAppend(Pre, E.d, Failed)
         [] E.op \in {"str", "chr", "fmt"} -> TextAppend(Pre, E.d, Failed)
         [] E.op = "text" -> [post |-> StartText(Failed), ok |-> ~Failed]
         [] E.op = "reset" -> [post |-> None, ok |-> TRUE]
Step == /\ l <= Len(Trace)
        /\ Need(Post.b = Exp.post.b, "content is not what was appended")
        /\ Need((E.op \in {"raw", "elem"} /\ Len(Post.b) = 0) \/ Post.some = Exp.post.some, "buffer kept or lost")
        /\ Need((E.ok = 1) = Exp.ok, "wrong status")
        /\ Need((E.op \in {"raw", "elem"} /\ Exp.ok) => E.at = Len(Pre.b), "returned pointer is not the appended room")
        /\ Need((E.op \in {"str", "chr", "fmt"} /\ Exp.ok) => E.ret = Len(E.d), "returned length is not the length of what was appended")
        /\ Need(E.size = Len(Post.b) /\ E.alloc >= E.size /\ E.block >= E.alloc, "size or allocated size is wrong")
        /\ Need(E.live = (IF Post.some THEN 1 ELSE 0) /\ E.bad = 0, "memory lost or released twice")
        /\ l' = l + 1 /\ UNCHANGED vars
TraceInit == l = 1 /\ buf = "none" /\ content = <<>>
TraceSpec == TraceInit /\ [][Step]_<<l, vars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
