------------------------------- MODULE RegGen -------------------------------
(* Random declarations: each step declares one more type; the last one writes them all *)
EXTENDS Reg, TLC, Json, IOUtils
P == JsonDeserialize(IOEnv.VF_PROFILE)
VARIABLE ds
Rnd(k) == RandomElement(0..(k - 1))
Pick(s) == s[1 + Rnd(Len(s))]
Ints == <<"BOOL", "CHAR", "INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "INT64", "UINT64", "INT128", "UINT128">>
Bas == Ints \o <<"FLOAT", "DOUBLE", "LONG_DOUBLE", "COMPLEX_FLOAT", "COMPLEX_DOUBLE", "COMPLEX_LONG_DOUBLE">>
Of(D, ks) == {D[i].n : i \in {i \in 1..Len(D) : D[i].k \in ks}}
Some(S, e) == IF S = {} THEN e ELSE RandomElement(S)
Width(t, D) == CASE t = "BOOL" -> 1 [] t \in {"CHAR", "INT8", "UINT8"} -> 1 + Rnd(8) [] t \in {"INT16", "UINT16"} -> 1 + Rnd(16)
                 [] t \in {"INT32", "UINT32"} -> 1 + Rnd(32) [] t \in {"INT64", "UINT64"} -> 1 + Rnd(64) [] t \in {"INT128", "UINT128"} -> 1 + Rnd(127)
                 [] OTHER -> 1 + Rnd(LET i == CHOOSE i \in 1..Len(D) : D[i].n = t IN IF D[i].at = "packed" THEN 8 ELSE 32)
Field(form, n, t, p, d, w, m, args) == [form |-> form, n |-> n, t |-> t, p |-> p, d |-> d, w |-> w, m |-> m, args |-> args, cv |-> Rnd(6), al |-> Rnd(4)]
DimList(x) == LET r == Rnd(12) IN IF r = 0 THEN <<0>> ELSE [i \in 1..(1 + (IF r < 5 THEN 0 ELSE IF r < 8 THEN 1 ELSE IF r < 9 THEN 2 ELSE IF r < 10 THEN 3 ELSE 4)) |-> 1 + Rnd(3)]
Arg(D, self) == LET r == Rnd(6) IN
    CASE r = 0 -> [t |-> Some(Of(D, {"struct", "union"}), "INT32"), p |-> 1, d |-> <<>>]
      [] r = 1 -> [t |-> Some(Of(D, {"enum"}), "VOID"), p |-> IF Rnd(2) = 0 \/ Of(D, {"enum"}) = {} THEN 1 ELSE 0, d |-> <<>>]
      [] r = 2 -> [t |-> Pick(Bas), p |-> Rnd(2), d |-> [i \in 1..(1 + Rnd(6)) |-> 1 + Rnd(4)]]
      [] r = 3 -> [t |-> Some(Of(D, {"struct", "union", "enum"}), "INT8"), p |-> Rnd(2), d |-> [i \in 1..(1 + Rnd(3)) |-> 1 + Rnd(12)]]
      [] OTHER -> [t |-> Pick(Bas), p |-> Rnd(2), d |-> <<>>]
Args(D, self) == [i \in 1..Rnd(4) |-> Arg(D, self)]
(* one field with name n in a type called self, inside a struct (st) or a union *)
Simple(n, D, self) ==
    LET r == Rnd(100) IN
    CASE r < 18 -> Field("plain", n, Pick(Bas), 0, <<>>, 0, <<>>, <<>>)
      [] r < 28 -> Field("par", n, Pick(Bas), 0, <<>>, 0, <<>>, <<>>)
      [] r < 36 -> Field("par", n, Pick(Bas \o <<"STRING", "VOID", "UNKNOWN">>), 1, <<>>, 0, <<>>, <<>>)
      [] r < 40 -> Field("par", n, Pick(<<"CHAR", "INT32", "DOUBLE", "BOOL">>), 2, <<>>, 0, <<>>, <<>>)
      [] r < 46 -> Field("par", n, Some(Of(D, {"enum"}), "INT8"), Rnd(2), <<>>, 0, <<>>, <<>>)
      [] r < 53 -> Field("par", n, Some(Of(D, {"struct", "union"}), "UINT8"), Rnd(3), <<>>, 0, <<>>, <<>>)
      [] r < 57 -> Field("par", n, self, 1 + Rnd(2), <<>>, 0, <<>>, <<>>)
      [] r < 68 -> Field("par", n, IF Rnd(2) = 0 THEN Pick(Bas) ELSE Some(Of(D, {"enum", "struct", "union"}), "CHAR"), Rnd(2), DimList(0), 0, <<>>, <<>>)
      [] r < 71 -> Field("par", n, Some(Of(D, {"func"}), "INT8"), 0, <<>>, 0, <<>>, <<>>)
      [] r < 75 -> Field("fn", n, Pick(<<"VOID", "INT32", "DOUBLE">>), 0, <<>>, 0, <<>>, Args(D, self))
      [] r < 77 -> Field("sarr", n, "CHAR", 0, <<1 + Rnd(9)>>, 0, <<>>, <<>>)
      [] r < 80 -> Field("par", n, "UNKNOWN", 0, <<>>, 0, <<>>, <<>>)
      [] r < 84 -> Field("void", n, Pick(Bas), Rnd(2), <<>>, 0, <<>>, <<>>)
      [] r < 86 -> Field("vfn", n, "INT32", 0, <<>>, 0, <<>>, Args(D, self))
      [] r < 88 -> Field("varr", n, Pick(Bas), 0, <<1 + Rnd(3)>>, 0, <<>>, <<>>)
      [] r < 90 -> Field("vbf", n, "INT32", 0, <<>>, 1 + Rnd(32), <<>>, <<>>)
      [] OTHER -> LET t == IF Rnd(5) = 0 THEN Some(Of(D, {"enum"}), "INT32") ELSE Pick(Ints) IN Field("bf", n, t, 0, <<>>, Width(t, D), <<>>, <<>>)
RECURSIVE Some1(_, _, _, _)
(* fields named by the sequence ns, some of them gathered in anonymous unions *)
Some1(ns, D, self, depth) ==
    IF ns = <<>> THEN <<>>
    ELSE IF depth > 0 /\ Len(ns) > 2 /\ Rnd(100) < P.anon
         THEN LET k == 2 + Rnd(Len(ns) - 2) named == Rnd(2) IN
              LET in == SubSeq(ns, 2, k) rest == SubSeq(ns, k + 1, Len(ns)) IN
              <<Field("anon", IF named = 1 THEN Head(ns) ELSE "", "", 0, <<>>, 0,
                      <<LET f == Simple(Head(in), D, self) IN IF f.form = "bf" /\ Rnd(3) > 0 THEN Field("par", f.n, "INT32", 0, <<>>, 0, <<>>, <<>>) ELSE f>> \o Some1(Tail(in), D, self, depth - 1), <<>>)>>
              \o Some1(rest, D, self, depth)
         ELSE <<Simple(Head(ns), D, self)>> \o Some1(Tail(ns), D, self, depth)
Name(base, i) == CASE i % 4 = 0 -> base \o ToString(i) [] i % 4 = 1 -> base \o ToString(i) \o "_t" [] i % 4 = 2 -> "Q" \o base \o ToString(i) [] OTHER -> base \o "_a_rather_long_name_of_a_type_" \o ToString(i)
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Shuffle(S \ {x})
FNames(k) == SubSeq(Shuffle({P.names[i] : i \in 1..Len(P.names)}), 1, k)
Struct(D, kind) == LET n == Name("qs", Len(D)) IN
    [k |-> kind, n |-> n, f |-> Some1(FNames(IF Rnd(8) = 0 THEN Len(P.names) ELSE Rnd(12)), D, n, 3), at |-> IF Rnd(6) = 0 THEN "packed" ELSE "", tu |-> 0]
Enum(D) == LET n == Name("qe", Len(D)) c == Rnd(Len(P.pools)) IN
    [k |-> "enum", n |-> n, at |-> IF c < P.packable /\ Rnd(2) = 0 THEN "packed" ELSE "", tu |-> 0,
     f |-> [i \in 1..(1 + Rnd(IF Rnd(6) = 0 THEN 30 ELSE 7)) |-> [n |-> "QC" \o (IF Rnd(2) = 0 THEN "_" ELSE "") \o ToString(Len(D)) \o "_" \o ToString(i), v |-> IF Rnd(4) = 0 THEN "" ELSE Pick(P.pools[c + 1]), form |-> Rnd(3)]]]
Func(D) == [k |-> "func", n |-> Name("qf", Len(D)), f |-> Args(D, ""), at |-> "", tu |-> 0, r |-> Pick(<<"VOID", "INT32", "DOUBLE">>)]
New(D) == LET r == Rnd(100) IN IF r < 25 THEN Enum(D) ELSE IF r < 32 THEN Func(D) ELSE IF r < 45 THEN Struct(D, "union") ELSE Struct(D, "struct")
Init == ds = <<>>
Next == /\ Len(ds) < P.n
        /\ \E d \in {New(ds)} : ds' = Append(ds, d)
        /\ Len(ds') = P.n => Serialize(ToJson(ds') \o "\n", IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_ds
Write == TRUE
=============================================================================
