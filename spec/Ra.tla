--------------------------------- MODULE Ra ---------------------------------
(***************************************************************************)
(* Growing buffers.  The state is the content, a sequence of bytes, and    *)
(* whether there is a buffer at all.  Raw appends leave the buffer as it   *)
(* was when memory is short; text appends (which need a buffer that holds  *)
(* a terminated text) release it then.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
VARIABLES buf, content      \* buf: "none" or "some"
vars == <<buf, content>>
None == [some |-> FALSE, b |-> <<>>]
Some(s) == [some |-> TRUE, b |-> s]
\* results of an operation: the state afterwards and whether success is reported
\* grow: memory had to be obtained, fail: it was not there
RawAppend(pre, d, fail) == IF fail THEN [post |-> pre, ok |-> FALSE] ELSE [post |-> Some(pre.b \o d), ok |-> TRUE]
IsText(pre) == pre.some /\ Len(pre.b) > 0 /\ pre.b[Len(pre.b)] = 0
TextAppend(pre, d, fail) == IF fail \/ ~pre.some \/ Len(pre.b) = 0 THEN [post |-> None, ok |-> FALSE]
                            ELSE [post |-> Some(SubSeq(pre.b, 1, Len(pre.b) - 1) \o d \o <<0>>), ok |-> TRUE]
StartText(fail) == IF fail THEN None ELSE Some(<<0>>)

State == [some |-> buf = "some", b |-> content]
Become(s) == buf' = (IF s.some THEN "some" ELSE "none") /\ content' = s.b
CONSTANTS Chunks, Limit
Init == buf = "none" /\ content = <<>>
Next == /\ Len(content) < Limit
        /\ \E f \in {TRUE, FALSE} :
           \/ \E d \in Chunks : Become(RawAppend(State, d, f).post)
           \/ \E d \in Chunks : IsText(State) /\ Become(TextAppend(State, d, f).post)
           \/ ~State.some /\ Become(TextAppend(State, <<1>>, f).post)
           \/ Become(StartText(f))
           \/ Become(None)
Spec == Init /\ [][Next]_vars
NoneEmpty == buf = "none" => content = <<>>
\* nothing that was appended is lost or changed by a later append
Prefix == [][content' # <<>> => \/ content = <<>> \/ content' = <<0>>
                                \/ SubSeq(content', 1, Len(content)) = content
                                \/ (Len(content') >= Len(content) /\ SubSeq(content', 1, Len(content) - 1) = SubSeq(content, 1, Len(content) - 1))]_vars
=============================================================================
