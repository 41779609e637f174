-------------------------------- MODULE RaGen --------------------------------
(* Histories of operations on one buffer, following Ra; each is written as one line *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
P == JsonDeserialize(IOEnv.VF_PROFILE)
VARIABLES hist, mode, len
Rnd(n) == RandomElement(0..(n - 1))
F == IF Rnd(100) < P.pfail THEN 1 ELSE 0
N == RandomElement({0, 1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 64, 100, Rnd(P.maxn + 1)})
Rec(o, n, f) == hist' = Append(hist, [o |-> o, n |-> n, f |-> f])
Init == hist = <<>> /\ mode = "null" /\ len = 0
Next == /\ Len(hist) < P.len
        /\ \E r \in {Rnd(100)}, f \in {F}, n \in {N} :
           IF r < 3 THEN Rec("reset", 0, 0) /\ mode' = "null" /\ len' = 0
           ELSE IF mode = "null" THEN
                IF r < 60 THEN Rec("text", 0, 0) /\ mode' = "text" /\ len' = 1
                ELSE IF r < 70 THEN Rec(RandomElement({"str", "chr", "fmt"}), n, f) /\ UNCHANGED <<mode, len>>
                ELSE Rec(RandomElement({"raw", "elem"}), n, f) /\ mode' = "raw" /\ len' = len + n
           ELSE IF mode = "raw" THEN Rec(RandomElement({"raw", "raw", "elem"}), n, f) /\ UNCHANGED mode /\ len' = len + n
           ELSE /\ Rec(RandomElement({"str", "chr", "fmt", "fmt"}), n, f)
                /\ IF f = 1 THEN mode' \in {"text"} /\ len' = len ELSE UNCHANGED mode /\ len' = len + n
Spec == Init /\ [][Next]_<<hist, mode, len>>
Write == Len(hist) = P.len => Serialize(ToJson([h |-> hist]) \o "\n", IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
