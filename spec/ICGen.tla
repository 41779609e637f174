-------------------------------- MODULE ICGen --------------------------------
(***************************************************************************)
(* Long random histories of collections, following IC without failures so  *)
(* that removals and searches mostly concern what is stored; phases of     *)
(* growing and shrinking.  Each history is written as one line.            *)
(***************************************************************************)
EXTENDS IC, Json, IOUtils
P == JsonDeserialize(IOEnv.VF_PROFILE)
VARIABLES hist, phase
gvars == <<vars, hist, phase>>
Rnd(n) == RandomElement(0..(n - 1))
Key == <<RandomElement(0..(P.nv - 1)), RandomElement(0..(P.ni - 1))>>
Stored == IF coll = <<>> THEN Key ELSE <<coll[RandomElement(1..Len(coll))][1], RandomElement(0..(P.ni - 1))>>
F == IF Rnd(100) < P.pfail THEN RandomElement({1, 1, 2, 9}) ELSE 0
Arr(n) == [j \in 1..n |-> Key]
AddTo(k) == IF Has(coll, k) THEN coll ELSE Append(coll, k)
DelFrom(k) == SelectSeq(coll, LAMBDA x : ~Eq(x, k))
Rec(r) == hist' = Append(hist, r)
K(o, k, f) == [o |-> o, k |-> k, f |-> f, a |-> <<>>]
GInit == /\ kind \in {P.kinds[j] : j \in 1..Len(P.kinds)} /\ coll = <<>> /\ ret = <<"new">> /\ phase = "grow"
         /\ hist = <<[o |-> "K", k |-> <<P.cmps[RandomElement(1..Len(P.cmps))], Rnd(5)>>, f |-> 0, a |-> <<>>]>>
GNext == /\ Len(hist) <= P.len
         /\ \E r \in {Rnd(100)}, k \in {Key}, s \in {Stored}, f \in {F} :
              IF r < P.pindex THEN \E a \in {Arr(RandomElement({0, 1, 2, 3, 4, 5, P.maxarr}))} :
                                      Rec([o |-> "x", k |-> <<0, 0>>, f |-> f, a |-> a]) /\ coll' = SetToSeq(Firsts(a))
              ELSE IF r = 99 THEN Rec(K("F", <<0, 0>>, 0)) /\ coll' = <<>>
              ELSE IF r = 98 THEN Rec(K("e", <<RandomElement(1..(Len(coll) + 2)), 0>>, 0)) /\ UNCHANGED coll
              ELSE IF r > 85 THEN Rec(K("f", IF Rnd(2) = 0 THEN k ELSE s, 0)) /\ UNCHANGED coll
              ELSE IF (phase = "grow") = (r < 65) THEN Rec(K("a", k, f)) /\ coll' = AddTo(k)
              ELSE Rec(K("d", IF Rnd(5) = 0 THEN k ELSE s, f)) /\ coll' = DelFrom(s)
         /\ phase' = IF Rnd(P.turn) = 0 THEN (IF phase = "grow" THEN "shrink" ELSE "grow") ELSE phase
         /\ UNCHANGED <<kind, ret>>
Done == Len(hist) > P.len /\ UNCHANGED gvars
Write == Len(hist) = P.len + 1 => Serialize(ToJson([kind |-> kind, h |-> hist]) \o "\n", IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
