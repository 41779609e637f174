-------------------------------- MODULE Reg --------------------------------
(* Declared types, what their descriptors have to say and what lookups may answer.

   A declaration d is a record [k, n, f, tu, ...]: k in "struct", "union", "enum", "func"; f the fields, constants or argument types.
   A field is [form, n, t, p, d, w, m, args]: a base type t with p stars, dimensions d, width w of a bit-field, members m of an anonymous union. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Basic == {"BOOL", "CHAR", "INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "INT64", "UINT64", "INT128", "UINT128",
          "FLOAT", "DOUBLE", "LONG_DOUBLE", "COMPLEX_FLOAT", "COMPLEX_DOUBLE", "COMPLEX_LONG_DOUBLE"}
(* kind of a base type; Users maps declared names to "STRUCT", "UNION", "ENUM", "FUNC_TYPE" *)
KindOf(t, Users) == IF t \in Basic \cup {"STRING", "VOID", "CHAR_ARRAY"} THEN t
                    ELSE IF t \in DOMAIN Users THEN Users[t] ELSE "VOID"
(* kind, kind of the element or target, kind of the base: of base kind k with p stars and (array) dimensions *)
Kind(k, p, arr) ==
    LET q == IF k = "CHAR" /\ p > 0 THEN p - 1 ELSE p
        b == IF k = "CHAR" /\ p > 0 THEN "STRING" ELSE k
        one == IF q = 0 THEN b ELSE "POINTER" IN
    IF arr THEN [mt |-> "ARRAY", aux |-> one, base |-> b]
    ELSE IF q = 0 THEN [mt |-> b, aux |-> "", base |-> b]
    ELSE [mt |-> "POINTER", aux |-> IF q = 1 THEN b ELSE "POINTER", base |-> b]
FieldKind(f, Users) ==
    LET k == KindOf(f.t, Users) IN
    CASE f.form = "fn"   -> [mt |-> "FUNC", aux |-> "", base |-> "VOID"]
      [] f.form \in {"void", "vfn", "varr", "vbf"} -> [mt |-> "VOID", aux |-> "", base |-> "VOID"]
      [] f.form = "bf"   -> [mt |-> "BITFIELD", aux |-> k, base |-> k]
      [] f.form = "anon" -> [mt |-> IF f.n = "" THEN "ANON_UNION" ELSE "NAMED_ANON_UNION", aux |-> "", base |-> IF f.n = "" THEN "ANON_UNION" ELSE "NAMED_ANON_UNION"]
      [] f.form = "sarr" -> [mt |-> "CHAR_ARRAY", aux |-> "", base |-> "CHAR"]
      [] OTHER -> Kind(k, f.p, Len(f.d) > 0)
(* four dimensions are told apart, the rest is folded into the fourth *)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Dims(d) == IF Len(d) <= 4 THEN d ELSE SubSeq(d, 1, 3) \o <<Prod(SubSeq(d, 4, Len(d)))>>

(* ---- the fields of a declaration as the library receives them: a flat list with brackets around anonymous unions *)
RECURSIVE Flat(_)
Flat(fs) == IF fs = <<>> THEN <<>>
            ELSE (IF Head(fs).form = "anon" THEN <<[b |-> "(", f |-> Head(fs).n]>> \o Flat(Head(fs).m) \o <<[b |-> ")", f |-> ""]>>
                  ELSE <<[b |-> "", f |-> Head(fs).n]>>) \o Flat(Tail(fs))
(* what the list means: nested sequences of names *)
RECURSIVE Tree(_)
Tree(fs) == [i \in 1..Len(fs) |-> IF fs[i].form = "anon" THEN <<"u", fs[i].n, Tree(fs[i].m)>> ELSE <<"f", fs[i].n>>]
(* the library's way: take the first bracket out, with everything up to its end, then work on the rest and on what was taken out *)
RECURSIVE Close(_, _, _), Extract(_)
Close(l, j, o) == IF j > Len(l) THEN 0
                  ELSE LET p == IF l[j].b = "(" THEN o + 1 ELSE IF l[j].b = ")" THEN o - 1 ELSE o IN IF p = 0 THEN j ELSE Close(l, j + 1, p)
Extract(l) == IF l = <<>> THEN <<>>
              ELSE IF Head(l).b = "(" THEN LET j == Close(l, 2, 1) IN
                       <<(<<"u", Head(l).f, Extract(SubSeq(l, 2, j - 1))>>)>> \o Extract(SubSeq(l, j + 1, Len(l)))
              ELSE <<(<<"f", Head(l).f>>)>> \o Extract(Tail(l))

(* ---- what lookups may answer: sets of declarations; more than one when the name was declared more than once *)
Named(D, n)       == {d \in D : d.n = n}
Fields(d, n)      == {i \in 1..Len(d.f) : d.f[i].n = n /\ n # ""}
Consts(D, n)      == {<<d, i>> \in {<<d, i>> \in D \X (1..40) : d.k = "enum" /\ i <= Len(d.f)} : d.f[i].n = n}
Valued(d, v)      == {i \in 1..Len(d.f) : d.f[i].v = v}
=============================================================================
