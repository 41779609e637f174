------------------------------ MODULE XmlDocGen ------------------------------
(* Streams of documents, some damaged; each is written as the kinds of its tokens with a size class for texts *)
EXTENDS XmlDoc, Json, IOUtils
P == JsonDeserialize(IOEnv.VF_PROFILE)
VARIABLES toks, s, docs
Rnd(n) == RandomElement(0..(n - 1))
Init == toks = <<>> /\ s = Start /\ docs = 0
Pick == LET r == Rnd(100) IN
        IF Rnd(1000) < P.damage THEN RandomElement(IF s.depth = 0 THEN {"junk", "close", "nul"} ELSE {"nul"})
        ELSE IF r < 12 /\ (toks = <<>> \/ toks[Len(toks)][1] # "ws") THEN "ws"
        ELSE IF s.phase = "decl" THEN "decl"
        ELSE IF s.depth = 0 THEN IF r < 80 THEN "open" ELSE "empty"
        ELSE IF Len(toks) > P.len \/ s.depth >= P.depth THEN IF r < 60 THEN "close" ELSE IF toks[Len(toks)][1] = "text" THEN "empty" ELSE "text"
        ELSE IF r < 35 THEN "open" ELSE IF r < 60 THEN "close" ELSE IF r < 75 THEN "empty" ELSE IF toks[Len(toks)][1] = "text" THEN "open" ELSE "text"
Next == /\ docs < P.docs
        /\ \E k \in {Pick}, z \in {Rnd(P.sizes)} :
             /\ toks' = Append(toks, <<k, z>>)
             /\ LET t == Read(s, k) IN
                IF t.phase = "done" THEN s' = Start /\ docs' = docs + 1
                ELSE s' = t /\ docs' = IF t.phase = "bad" THEN P.docs ELSE docs
Spec == Init /\ [][Next]_<<toks, s, docs>>
Write == docs = P.docs => Serialize(ToJson([t |-> toks]) \o "\n", IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
