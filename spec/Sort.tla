-------------------------------- MODULE Sort --------------------------------
(***************************************************************************)
(* Sorting.  An array is a sequence of elements <<key, identity>>.  A sort *)
(* under a comparison is any sequence that is an ascending permutation.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* the comparisons the driver passes: ascending, descending, some keys alike, large results
Less(c, a, b) == CASE c = 0 -> a < b [] c = 1 -> a > b [] c = 2 -> (a \div 2) < (b \div 2) [] c = 3 -> a < b
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Permutation(a, b) == /\ Len(a) = Len(b)
                     /\ {a[i] : i \in 1..Len(a)} = {b[i] : i \in 1..Len(b)}
                     /\ \A x \in {a[i] : i \in 1..Len(a)} : Count(a, x) = Count(b, x)
Ascending(c, s) == \A i \in 1..(Len(s) - 1) : ~Less(c, s[i + 1][1], s[i][1])
Sorted(c, in, out) == Permutation(in, out) /\ Ascending(c, out)
\* the result given as positions in the input
SortedIds(c, in, out) == /\ Len(out) = Len(in) /\ {out[i] : i \in 1..Len(out)} = 1..Len(in)
                         /\ \A i \in 1..(Len(out) - 1) : ~Less(c, in[out[i + 1]], in[out[i]])
\* arrays ordered by a matrix of comparison results
SortedBy(m, n, out) == /\ Len(out) = n /\ {out[i] : i \in 1..n} = 1..n
                       /\ \A i \in 1..(n - 1) : m[out[i]][out[i + 1]] <= 0
=============================================================================
