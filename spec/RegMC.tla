------------------------------- MODULE RegMC -------------------------------
(* Any list of fields with anonymous unions, taken apart the library's way, means what was declared; and a registry asked again and again
   about names declared more than once answers like one that never had duplicates. *)
EXTENDS Reg, TLC
CONSTANTS MaxF, MaxDepth, Names
VARIABLES fs, ans, asked
F(n) == [form |-> "par", n |-> n, m |-> <<>>]
RECURSIVE Lists(_, _)
Lists(len, depth) == IF len = 0 THEN {<<>>}
    ELSE LET sub(k) == IF depth = 0 THEN {} ELSE {[form |-> "anon", n |-> n, m |-> x] : n \in {"", "u"}, x \in Lists(k, depth - 1)}
             one == {<<F(n)>> \o r : n \in {"a", "b"}, r \in Lists(len - 1, depth)} IN
         one \cup UNION {{<<s>> \o r : s \in sub(k), r \in Lists(len - 1 - k, depth)} : k \in 0..(len - 1)}
Decls == {[k |-> "enum", n |-> "e1", f |-> <<[n |-> "A", v |-> 1], [n |-> "B", v |-> 2]>>], [k |-> "enum", n |-> "e2", f |-> <<[n |-> "A", v |-> 5], [n |-> "C", v |-> 5], [n |-> "D", v |-> 5]>>],
          [k |-> "struct", n |-> "s", f |-> <<F("a")>>], [k |-> "struct", n |-> "s", f |-> <<F("a"), F("b")>>]}
Allowed(q) == CASE q[1] = "t" -> Named(Decls, q[2]) [] q[1] = "c" -> Consts(Decls, q[2]) [] q[1] = "v" -> UNION {{<<d, i>> : i \in Valued(d, q[3])} : d \in Named(Decls, q[2])}
Queries == {<<"t", n>> : n \in {"e1", "s", "zz"}} \cup {<<"c", n>> : n \in {"A", "C", "zz"}} \cup {<<"v", "e2", v>> : v \in {5, 6}}
None == <<"none">>
Init == fs \in Lists(MaxF, MaxDepth) /\ ans = <<>> /\ asked = 0
Ask == /\ asked < 3 /\ fs = CHOOSE x \in Lists(1, 0) : TRUE
       /\ \E q \in Queries : IF q \in DOMAIN ans THEN ans' = ans
                             ELSE \E a \in (IF Allowed(q) = {} THEN {None} ELSE Allowed(q)) : ans' = [x \in DOMAIN ans \cup {q} |-> IF x = q THEN a ELSE ans[x]]
       /\ asked' = asked + 1 /\ fs' = fs
InitAll == (\E n \in 0..MaxF : fs \in Lists(n, MaxDepth)) /\ ans = <<>> /\ asked = 0
Next == Ask
Spec == InitAll /\ [][Next]_<<fs, ans, asked>>
TakenApart == Extract(Flat(fs)) = Tree(fs)
Faithful == \A q \in DOMAIN ans : IF Allowed(q) = {} THEN ans[q] = None ELSE ans[q] \in Allowed(q)
Stable == [][\A q \in DOMAIN ans : q \in DOMAIN ans' /\ ans'[q] = ans[q]]_<<fs, ans, asked>>
KindsClosed == \A k \in Basic \cup {"STRING", "VOID", "STRUCT", "UNION", "ENUM", "FUNC_TYPE"}, p \in 0..2, arr \in BOOLEAN :
                  LET x == Kind(k, p, arr) IN /\ (x.mt \in {"POINTER", "ARRAY"}) = (x.aux # "")
                                              /\ x.aux # "ARRAY" /\ x.base \notin {"POINTER", "ARRAY"}
=============================================================================
