-------------------------------- MODULE Mal ---------------------------------
(***************************************************************************)
(* Damaged documents.                                                      *)
(*                                                                         *)
(* A document is the sequence of its lexemes, 1..n for the undamaged one;  *)
(* -w is word w of a dictionary.  Damage is a sequence of edits            *)
(* <<op, i, j, k>>:                                                        *)
(*   1 cut    keeps the first i lexemes                                    *)
(*   2 del    removes j lexemes from i on                                  *)
(*   3 ins    puts word j before lexeme i                                  *)
(*   4 rep    replaces lexeme i by word j                                  *)
(*   5 cpy    replaces lexeme i by a copy of lexeme j                      *)
(*   6 swp    exchanges the j lexemes from i with the j following ones     *)
(*   7 dup    repeats the j lexemes from i k more times                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Times(_, _)
Times(s, k) == IF k = 0 THEN <<>> ELSE s \o Times(s, k - 1)
Front(d, i) == SubSeq(d, 1, i - 1)
Rest(d, i) == SubSeq(d, i, Len(d))

Legal(d, e, words) ==
  LET n == Len(d) IN
  CASE e[1] = 1 -> e[2] \in 0..(n - 1)
    [] e[1] = 2 -> e[2] \in 1..n /\ e[3] \in 1..(n - e[2] + 1)
    [] e[1] = 3 -> e[2] \in 1..(n + 1) /\ e[3] \in 1..words
    [] e[1] = 4 -> e[2] \in 1..n /\ e[3] \in 1..words
    [] e[1] = 5 -> e[2] \in 1..n /\ e[3] \in 1..n /\ e[2] # e[3]
    [] e[1] = 6 -> e[2] \in 1..n /\ e[3] >= 1 /\ e[2] + 2 * e[3] - 1 <= n
    [] e[1] = 7 -> e[2] \in 1..n /\ e[3] >= 1 /\ e[2] + e[3] - 1 <= n /\ e[4] >= 1
    [] OTHER -> FALSE

Edit(d, e) ==
  LET i == e[2]  j == e[3] IN
  CASE e[1] = 1 -> SubSeq(d, 1, i)
    [] e[1] = 2 -> Front(d, i) \o Rest(d, i + j)
    [] e[1] = 3 -> Front(d, i) \o <<0 - j>> \o Rest(d, i)
    [] e[1] = 4 -> Front(d, i) \o <<0 - j>> \o Rest(d, i + 1)
    [] e[1] = 5 -> Front(d, i) \o <<d[j]>> \o Rest(d, i + 1)
    [] e[1] = 6 -> Front(d, i) \o SubSeq(d, i + j, i + 2 * j - 1) \o SubSeq(d, i, i + j - 1) \o Rest(d, i + 2 * j)
    [] e[1] = 7 -> Front(d, i) \o Times(SubSeq(d, i, i + j - 1), e[4]) \o Rest(d, i)
    [] OTHER -> d

RECURSIVE Damage(_, _)
Damage(d, s) == IF s = <<>> THEN d ELSE Damage(Edit(d, Head(s)), Tail(s))
RECURSIVE Allowed(_, _, _)
Allowed(d, s, words) == s = <<>> \/ (Legal(d, Head(s), words) /\ Allowed(Edit(d, Head(s)), Tail(s), words))
Undamaged(n) == [i \in 1..n |-> i]

(***************************************************************************)
(* What a load of a damaged document may do.  r.cells are the locations    *)
(* reachable from the loaded object: [b |-> block (1: the object itself,   *)
(* 0: no block of the load), o |-> offset, s |-> bytes, t |-> kind],       *)
(* r.size the sizes of the blocks.                                         *)
(***************************************************************************)
TextLike == {"text", "char", "ct", "ca"}
Sound(cells, size) ==
  /\ \A i \in 1..Len(cells) : cells[i].b \in 1..Len(size) /\ cells[i].o >= 0 /\ cells[i].o + cells[i].s <= size[cells[i].b]
  /\ \A i, j \in 1..Len(cells) :
       LET x == cells[i]  y == cells[j] IN
       (i < j /\ x.b = y.b /\ x.o < y.o + y.s /\ y.o < x.o + x.s) =>
          \/ x.t = y.t /\ ((x.o = y.o /\ x.s = y.s) \/ x.t \in TextLike \/ x.t = "bits")
          \/ {x.t, y.t} \subseteq TextLike
(* A document may give several elements to a pointer without a size: the object is usable, but its first element only is
   known to the library, what the others own is not released.  No such block: everything that was allocated is reached. *)
Exact(cells, size) == \A b \in 2..Len(size) : \E i \in 1..Len(cells) : cells[i].b = b /\ (cells[i].o + cells[i].s = size[b] \/ cells[i].t \in TextLike)
Rejected(r) == r.st = 0 /\ r.live = 0
Accepted(r, judged) ==
  r.st = 1 /\ (judged => /\ Sound(r.cells, r.size)
                        /\ r.fst = 1 /\ (Exact(r.cells, r.size) => r.left = 0))
Outcome(r, judged) == r.bad = 0 /\ r.grow = 0 /\ (Rejected(r) \/ Accepted(r, judged))
=============================================================================
