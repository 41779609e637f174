-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Balanced search trees.  A tree is <<>> or <<key, mark, left, right>>;   *)
(* the mark is the colour of a red-black node (1: red) or the balance of   *)
(* an AVL node (-1, 0, 1: which side is higher).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nil == <<>>
RECURSIVE InOrder(_), Size(_), Height(_), BlackHeight(_), RBRules(_), AVLRules(_)
InOrder(t) == IF t = Nil THEN <<>> ELSE InOrder(t[3]) \o <<t[1]>> \o InOrder(t[4])
Size(t) == IF t = Nil THEN 0 ELSE 1 + Size(t[3]) + Size(t[4])
Max(a, b) == IF a > b THEN a ELSE b
Height(t) == IF t = Nil THEN 0 ELSE 1 + Max(Height(t[3]), Height(t[4]))
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
KeysOf(t) == LET s == InOrder(t) IN {s[i] : i \in 1..Len(s)}
Search(t) == Ascending(InOrder(t))

Red(t) == t # Nil /\ t[2] = 1
\* number of black nodes on the way to any leaf; -1 when it is not the same on all ways
BlackHeight(t) == IF t = Nil THEN 0
                  ELSE LET l == BlackHeight(t[3]) r == BlackHeight(t[4])
                       IN IF l = -1 \/ l # r THEN -1 ELSE l + 1 - t[2]
RBRules(t) == IF t = Nil THEN TRUE ELSE ((Red(t) => ~Red(t[3]) /\ ~Red(t[4])) /\ RBRules(t[3]) /\ RBRules(t[4]))
RB(t) == Search(t) /\ ~Red(t) /\ RBRules(t) /\ BlackHeight(t) # -1
AVLRules(t) == IF t = Nil THEN TRUE ELSE (Height(t[4]) - Height(t[3]) \in {-1, 0, 1} /\ t[2] = Height(t[4]) - Height(t[3]) /\ AVLRules(t[3]) /\ AVLRules(t[4]))
AVL(t) == Search(t) /\ AVLRules(t)
Balanced(kind, t) == IF kind = "rb" THEN RB(t) ELSE AVL(t)

Upto(s, P(_)) == SelectSeq(s, P)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* what a traversal from a key, stored or not, yields
Forward(t, k) == SelectSeq(InOrder(t), LAMBDA x : x > k)
Backward(t, k) == Rev(SelectSeq(InOrder(t), LAMBDA x : x < k))
-----------------------------------------------------------------------------
(* The operations: any balanced tree over the right keys is an allowed outcome *)
AddOk(kind, pre, k, post) == /\ Balanced(kind, post) /\ KeysOf(post) = KeysOf(pre) \cup {k}
                             /\ (k \in KeysOf(pre) => post = pre)
DelOk(kind, pre, k, post, ok) == /\ Balanced(kind, post) /\ KeysOf(post) = KeysOf(pre) \ {k}
                                 /\ ok = (k \in KeysOf(pre))
                                 /\ (k \notin KeysOf(pre) => post = pre)
FindOk(pre, k, post, ok) == post = pre /\ ok = (k \in KeysOf(pre))
-----------------------------------------------------------------------------
(***************************************************************************)
(* State machine over all balanced trees of up to MaxKey keys, for model   *)
(* checking the definitions: the balance rules bound the height, and every *)
(* set of keys has a balanced tree, so the operations are always possible. *)
(***************************************************************************)
CONSTANT MaxKey
VARIABLES kind, tree
vars == <<kind, tree>>
RECURSIVE Trees(_, _, _)
\* all balanced trees over the interval of keys lo..hi (without the rule on the root's colour)
Trees(kd, lo, hi) == IF lo > hi THEN {Nil}
  ELSE {t \in UNION {{<<k, m, l, r>> : m \in (IF kd = "rb" THEN {0, 1} ELSE {-1, 0, 1}), l \in Trees(kd, lo, k - 1), r \in Trees(kd, k + 1, hi)} : k \in lo..hi} :
          IF kd = "rb" THEN RBRules(t) /\ BlackHeight(t) # -1 ELSE AVLRules(t)}
RECURSIVE Relabel(_, _)
Relabel(t, s) == IF t = Nil THEN Nil ELSE <<s[t[1]], t[2], Relabel(t[3], s), Relabel(t[4], s)>>
SortedSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Ascending(s)
AllOver(kd, S) == {t \in {Relabel(u, SortedSeq(S)) : u \in Trees(kd, 1, Cardinality(S))} : Balanced(kd, t)}
Init == kind \in {"rb", "avl"} /\ tree = Nil
Add == \E k \in 1..MaxKey : \E t \in AllOver(kind, KeysOf(tree) \cup {k}) : AddOk(kind, tree, k, t) /\ tree' = t /\ UNCHANGED kind
Del == \E k \in 1..MaxKey : \E t \in AllOver(kind, KeysOf(tree) \ {k}) : DelOk(kind, tree, k, t, k \in KeysOf(tree)) /\ tree' = t /\ UNCHANGED kind
Spec == Init /\ [][Add \/ Del]_vars
AlwaysBalanced == Balanced(kind, tree)
\* 2^(h/2) - 1 nodes at least in a red-black tree of height h, Fib(h + 2) - 1 in an AVL tree
RECURSIVE Pow2(_), MinAVL(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
MinAVL(h) == IF h = 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE 1 + MinAVL(h - 1) + MinAVL(h - 2)
Shallow(kd, t) == IF kd = "rb" THEN Size(t) >= Pow2(Height(t) \div 2) - 1 ELSE Size(t) >= MinAVL(Height(t))
AlwaysShallow == Shallow(kind, tree)
CanInsert == \A k \in 1..MaxKey : AllOver(kind, KeysOf(tree) \cup {k}) # {} /\ AllOver(kind, KeysOf(tree) \ {k}) # {}
=============================================================================
