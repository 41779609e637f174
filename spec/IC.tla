--------------------------------- MODULE IC ---------------------------------
(***************************************************************************)
(* Indexed collections.  An element is a pair <<value, identity>>; the     *)
(* comparison of a collection sees only the value, so that an element that *)
(* is stored can be told from the equal one that was asked for.            *)
(*                                                                         *)
(* A collection is a sequence: the order matters for the kind that borrows *)
(* the array of the caller, which may hold equal elements, the first of    *)
(* which represents them.  All other kinds hold at most one element of a   *)
(* value.                                                                  *)
(*                                                                         *)
(* Every operation is written as a predicate over the collection before,   *)
(* the collection after, the result, and whether an allocation failed, so  *)
(* that the state machine below and the validation of what the library did *)
(* (ICTrace) use the same definitions.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Kinds == {"unsorted", "sorted", "hash", "static", "rb", "avl"}
NoElem == <<-1, -1>>

Eq(a, b) == a[1] = b[1]
Has(s, k) == \E j \in 1..Len(s) : Eq(s[j], k)
First(s, k) == s[CHOOSE j \in 1..Len(s) : Eq(s[j], k) /\ \A m \in 1..(j-1) : ~Eq(s[m], k)]
\* the elements that represent their values
Firsts(s) == {First(s, s[j]) : j \in 1..Len(s)}
SetOf(s) == {s[j] : j \in 1..Len(s)}
Distinct(s) == \A j, m \in 1..Len(s) : Eq(s[j], s[m]) => j = m
\* the same elements, each as often
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in SetOf(s) \cup SetOf(t) : Cardinality({j \in 1..Len(s) : s[j] = x}) = Cardinality({j \in 1..Len(t) : t[j] = x})
Holds(s, S) == Distinct(s) /\ SetOf(s) = S

Unchanged(kind, pre, post) == IF kind = "unsorted" /\ ~Distinct(pre) THEN pre = post ELSE SameBag(pre, post)

(* insertion: result is the stored element, or none when memory ran out *)
AddOk(kind, pre, k, post, res, failed) ==
  \/ Has(pre, k) /\ res = First(pre, k) /\ Unchanged(kind, pre, post)
  \/ ~Has(pre, k) /\ res = k /\ Holds(post, Firsts(pre) \cup {k})
  \/ failed /\ ~Has(pre, k) /\ res = NoElem /\ (Unchanged(kind, pre, post) \/ Holds(post, Firsts(pre)))
(* removal *)
DelOk(kind, pre, k, post, ok, failed) ==
  \/ Has(pre, k) /\ ok /\ Holds(post, {x \in Firsts(pre) : ~Eq(x, k)})
  \/ ~Has(pre, k) /\ ~ok /\ Unchanged(kind, pre, post)
  \/ failed /\ kind = "unsorted" /\ ~ok /\ (Unchanged(kind, pre, post) \/ Holds(post, Firsts(pre)))
FindOk(kind, pre, k, post, res) ==
  /\ Unchanged(kind, pre, post)
  /\ res = IF Has(pre, k) THEN First(pre, k) ELSE NoElem
(* bulk load: replaces the content; when memory runs out the collection is left valid, with what it held or with a
   part of what it was given *)
IndexOk(kind, pre, arr, post, ok, failed) ==
  \/ ok /\ IF kind = "unsorted" THEN post = arr \/ Holds(post, Firsts(arr)) ELSE Holds(post, Firsts(arr))
  \/ failed /\ ~ok /\ (Unchanged(kind, pre, post) \/ (Distinct(post) /\ SetOf(post) \subseteq Firsts(arr)))
\* a traversal stopped by the n-th visit
StopOk(kind, pre, n, post, ok, visits) ==
  /\ Unchanged(kind, pre, post)
  /\ IF Len(pre) < n THEN ok /\ visits = Len(pre) ELSE ~ok /\ visits = n
FreeOk(post) == post = <<>>
-----------------------------------------------------------------------------
(* The collection as a state machine, for model checking of the definitions *)
CONSTANTS Keys, MaxLen
VARIABLES kind, coll, ret

vars == <<kind, coll, ret>>
Seqs(n) == UNION {[1..m -> Keys] : m \in 0..n}
Init == kind \in Kinds /\ coll = <<>> /\ ret = <<"new">>
Add == \E k \in Keys, p \in Seqs(MaxLen), r \in Keys \cup {NoElem}, f \in BOOLEAN : AddOk(kind, coll, k, p, r, f) /\ coll' = p /\ ret' = <<"add", k, r, f>> /\ UNCHANGED kind
Del == \E k \in Keys, p \in Seqs(MaxLen), ok \in BOOLEAN, f \in BOOLEAN : DelOk(kind, coll, k, p, ok, f) /\ coll' = p /\ ret' = <<"del", k, ok, f>> /\ UNCHANGED kind
Find == \E k \in Keys, r \in Keys \cup {NoElem} : FindOk(kind, coll, k, coll, r) /\ ret' = <<"find", k, r>> /\ UNCHANGED <<kind, coll>>
Index == \E a \in Seqs(MaxLen), p \in Seqs(MaxLen), ok \in BOOLEAN, f \in BOOLEAN : IndexOk(kind, coll, a, p, ok, f) /\ coll' = p /\ ret' = <<"index", a, ok, f>> /\ UNCHANGED kind
Next == Add \/ Del \/ Find \/ Index
Spec == Init /\ [][Next]_vars

\* only the borrowing kind ever holds equal elements
OneOfEach == kind # "unsorted" => Distinct(coll)
\* a search tells the truth about the collection
Truthful == ret[1] = "find" => (ret[3] = NoElem) = ~Has(coll, ret[2])
\* an insertion that succeeded made the key findable; a removal that succeeded made it absent
Effective == [][/\ (ret'[1] = "add" /\ ret'[3] # NoElem) => Has(coll', ret'[2]) /\ First(coll', ret'[2]) = ret'[3]
                /\ (ret'[1] = "del" /\ ret'[3]) => ~Has(coll', ret'[2])
                \* nothing else is lost
                /\ ret'[1] \in {"add", "del"} => \A j \in 1..Len(coll) : ~Eq(coll[j], ret'[2]) => Has(coll', coll[j]) /\ First(coll', coll[j]) = First(coll, coll[j])]_vars
=============================================================================
