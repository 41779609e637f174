------------------------------- MODULE ExprMC -------------------------------
(* The parser of the specification reads the text of every small tree as that tree, and evaluation obeys the laws of arithmetic *)
EXTENDS Expr, FiniteSets, TLC
Num(n) == [t |-> "num", s |-> ToString(n), k |-> "int", re |-> Norm(<<n, 0>>), im |-> Zero, kw |-> FALSE]
Flt(n, e) == [Num(n) EXCEPT !.k = "flt", !.re = Norm(<<n, e>>)]
Huge == [Num(0) EXCEPT !.re = <<5, -70>>]
Img(n) == [Num(n) EXCEPT !.k = "cpx", !.re = Zero, !.im = Norm(<<n, 0>>)]
Leaves == {[o |-> "leaf", tok |-> t] : t \in {Num(0), Num(7), Num(-3), Huge, Flt(5, 1), Img(2)}}
T1 == Leaves \cup {[o |-> u, a |-> l] : u \in {"neg"}, l \in Leaves}
T2 == {[o |-> o, a |-> x, b |-> y] : o \in Ops, x \in T1, y \in T1}
N2 == {[o |-> "neg", a |-> x] : x \in T2} \cup T2 \cup T1
Three == [o |-> "leaf", tok |-> Num(3)]
VARIABLE tree
Init == tree \in N2
Next == /\ tree \in N2
        /\ tree' \in {[o |-> o, a |-> tree, b |-> Three] : o \in Ops} \cup {[o |-> o, a |-> Three, b |-> tree] : o \in Ops} \cup {[o |-> "neg", a |-> tree]}
Spec == Init /\ [][Next]_tree
SameValue == Value(Render(tree, 1)) = EvalTree(tree)
Small == -9..9
I(n) == [k |-> "int", re |-> <<n, 0>>, im |-> Zero]
ASSUME \A x, y \in Small : /\ BAnd(x, y) + BOr(x, y) = x + y
                           /\ \A i \in 0..5 : LET B(z) == (z \div 2^i) % 2 IN B(BAnd(x, y)) = B(x) * B(y) /\ B(BXor(x, y)) = (B(x) + B(y)) % 2
                           /\ (y # 0 => TruncDiv(x, y) * y + TruncMod(x, y) = x /\ Abs(TruncMod(x, y)) < Abs(y) /\ (TruncMod(x, y) = 0 \/ (TruncMod(x, y) < 0) = (x < 0)))
=============================================================================
