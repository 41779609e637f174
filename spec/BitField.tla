------------------------------ MODULE BitField ------------------------------
(* Bit-fields. Memory is a sequence of bits, the lowest bit of every byte first; a field is a range of it.
   A value is the sequence of VBits bits of a two's complement number, lowest first. *)
EXTENDS Integers, Sequences
CONSTANT VBits
Bit(n, i) == (n \div 2^i) % 2
OfBytes(b) == [i \in 1..(8 * Len(b)) |-> Bit(b[((i - 1) \div 8) + 1], (i - 1) % 8)]
(* the value of the field of w bits after the first pos bits; the highest bit of a signed one is its sign *)
Read(m, pos, w, signed) == [i \in 1..VBits |-> IF i <= w THEN m[pos + i] ELSE IF signed THEN m[pos + w] ELSE 0]
(* storing a value keeps its low bits and no other bit changes *)
Write(m, pos, w, v) == [i \in 1..Len(m) |-> IF i > pos /\ i <= pos + w THEN v[i - pos] ELSE m[i]]
(* ---- the number a value means, in decimal notation ---- *)
Base == 10000
RECURSIVE Carry(_, _, _)
Carry(d, i, c) == IF i > Len(d) THEN IF c = 0 THEN d ELSE Append(d, c)
                  ELSE LET x == 2 * d[i] + c IN Carry([d EXCEPT ![i] = x % Base], i + 1, x \div Base)
RECURSIVE Limbs(_, _, _)
Limbs(v, i, d) == IF i = 0 THEN d ELSE Limbs(v, i - 1, Carry(d, 1, v[i]))
RECURSIVE Plus1(_, _)
Plus1(v, i) == IF i > Len(v) THEN v ELSE IF v[i] = 0 THEN [v EXCEPT ![i] = 1] ELSE Plus1([v EXCEPT ![i] = 0], i + 1)
Negate(v) == Plus1([i \in 1..Len(v) |-> 1 - v[i]], 1)
Top(v) == IF \A i \in 1..Len(v) : v[i] = 0 THEN 0 ELSE CHOOSE i \in 1..Len(v) : v[i] = 1 /\ \A j \in (i + 1)..Len(v) : v[j] = 0
(* decimal digits in groups of four, lowest first *)
Magnitude(v) == Limbs(v, Top(v), <<0>>)
Number(v, signed) == IF signed /\ v[Len(v)] = 1 THEN [neg |-> TRUE, d |-> Magnitude(Negate(v))] ELSE [neg |-> FALSE, d |-> Magnitude(v)]
(* ---- decimal texts, as sequences of digit values, highest first ---- *)
RECURSIVE Groups(_)
Groups(t) == LET n == Len(t) v(k) == IF n - k >= 1 THEN t[n - k] ELSE 0 IN
             <<v(0) + 10 * v(1) + 100 * v(2) + 1000 * v(3)>> \o (IF n <= 4 THEN <<>> ELSE Groups(SubSeq(t, 1, n - 4)))
=============================================================================
