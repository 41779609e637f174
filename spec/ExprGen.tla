------------------------------- MODULE ExprGen -------------------------------
(* Random expressions: one behaviour draws trees, renders them (sometimes with superfluous parentheses, sometimes damaged) and writes the tokens *)
EXTENDS Expr, TLC, Json, IOUtils
P == JsonDeserialize(IOEnv.VF_PROFILE)
VARIABLE n
Rnd(k) == RandomElement(0..(k - 1))
Pick(s) == s[1 + Rnd(Len(s))]
RECURSIVE Tree(_), Loose(_, _)
Leaf == [o |-> "leaf", tok |-> Pick(P.leaves)]
Tree(d) == IF d = 0 THEN Leaf
           ELSE LET r == Rnd(100) IN
                IF r < 12 THEN Leaf ELSE IF r < 28 THEN [o |-> Pick(<<"neg", "neg", "pos">>), a |-> Tree(d - 1)]
                ELSE [o |-> Pick(P.ops), a |-> Tree(d - 1), b |-> Tree(d - 1)]
(* superfluous parentheses around anything but a lone name *)
Loose(a, p) == LET t == CASE a.o = "leaf" -> <<a.tok>>
                          [] a.o \in {"neg", "pos"} -> <<Tok("op", IF a.o = "neg" THEN "-" ELSE "+")>> \o Loose(a.a, 6)
                          [] OTHER -> Loose(a.a, Prec(a.o)) \o <<Tok("op", a.o)>> \o Loose(a.b, Prec(a.o) + 1) IN
               IF (a.o \in Ops /\ Prec(a.o) < p) \/ (Rnd(6) = 0 /\ t[1].t # "id") THEN Par(t) ELSE t
Damage(ts) == LET i == 1 + Rnd(Len(ts)) j == 1 + Rnd(Len(ts)) d == Rnd(4) IN
              IF d = 0 THEN SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts)) ELSE IF d = 1 THEN SubSeq(ts, 1, i) \o <<ts[j]>> \o SubSeq(ts, i + 1, Len(ts))
              ELSE IF d = 2 THEN [ts EXCEPT ![i] = ts[j]] ELSE SubSeq(ts, 1, i)
Text == LET t == Tree(1 + Rnd(P.depth)) IN LET x == IF Rnd(2) = 0 THEN Render(t, 1) ELSE Loose(t, 1) IN IF Rnd(100) < P.damage THEN Damage(x) ELSE x
Init == n = 0
Next == n < P.len /\ n' = n + 1 /\ \E t \in {Text} : Serialize(ToJson([t |-> t]) \o "\n", IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_n
Write == TRUE
=============================================================================
