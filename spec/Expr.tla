-------------------------------- MODULE Expr --------------------------------
(* Numeric expressions of the C-initializer format.
   A text is a sequence of tokens [t, s, k, re, im]: t is "num", "id", "op", "lp", "rp"; s the text; numbers and known names carry a value.
   A value is [k, re, im], k in "int" < "flt" < "cpx", re and im dyadic rationals <<n, e>> = n / 2^e; "err" is a failing expression,
   "und" a value outside the arithmetic of this specification (too large or not dyadic) about which it says nothing. *)
EXTENDS Integers, Sequences, Bitwise
Lim == 2^29
Abs(x) == IF x < 0 THEN -x ELSE x
Err == [k |-> "err", re |-> <<0, 0>>, im |-> <<0, 0>>]
Und == [k |-> "und", re |-> <<0, 0>>, im |-> <<0, 0>>]
Bad(v) == v.k \in {"err", "und"}
(* ---- dyadic rationals in normal form: n odd, or zero; a negative e stands for a large number; Out means "outside" ---- *)
Out == <<0, 999>>
IsOut(d) == d[2] = 999
RECURSIVE Norm(_)
Norm(d) == IF d[1] = 0 THEN <<0, 0>> ELSE IF d[1] % 2 = 0 THEN Norm(<<d[1] \div 2, d[2] - 1>>) ELSE d
SafeMul(a, b) == a = 0 \/ b = 0 \/ Abs(b) <= Lim \div Abs(a)
Bits(n) == CHOOSE b \in 0..30 : Abs(n) < 2^b /\ (b = 0 \/ Abs(n) >= 2^(b - 1))
Fit(n, e) == IF Abs(n) >= Lim THEN Out ELSE LET d == Norm(<<n, e>>) IN IF d[2] <= 24 /\ Bits(d[1]) - d[2] <= 120 THEN d ELSE Out
DMul(a, b) == IF IsOut(a) \/ IsOut(b) THEN Out ELSE IF SafeMul(a[1], b[1]) THEN Fit(a[1] * b[1], a[2] + b[2]) ELSE Out
Max2(x, y) == IF x > y THEN x ELSE y
(* the numerator of d over 2^e, when it is small enough *)
CanAt(d, e) == e - d[2] <= 29 /\ SafeMul(d[1], 2^(e - d[2]))
At(d, e) == d[1] * 2^(e - d[2])
Same(a, b) == IF a[1] = 0 THEN b[2] ELSE IF b[1] = 0 THEN a[2] ELSE Max2(a[2], b[2])
Aligned(a, b) == ~IsOut(a) /\ ~IsOut(b) /\ (a[1] = 0 \/ CanAt(a, Same(a, b))) /\ (b[1] = 0 \/ CanAt(b, Same(a, b)))
Num1(a, e) == IF a[1] = 0 THEN 0 ELSE At(a, e)
DAdd(a, b) == IF ~Aligned(a, b) THEN Out ELSE LET e == Same(a, b) IN Fit(Num1(a, e) + Num1(b, e), e)
DNeg(a) == IF IsOut(a) THEN Out ELSE <<-a[1], a[2]>>
TruncDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
TruncMod(a, b) == a - b * TruncDiv(a, b)
(* a / b for b # 0, when that is dyadic *)
DDiv(a, b) == IF IsOut(a) \/ IsOut(b) THEN Out ELSE IF a[1] % Abs(b[1]) # 0 THEN Out ELSE Fit(TruncDiv(a[1], b[1]), a[2] - b[2])
(* ---- two's complement on unbounded integers ---- *)
Cpl(x) == -x - 1
RECURSIVE BAnd(_, _), BOr(_, _)
BAnd(x, y) == IF x >= 0 /\ y >= 0 THEN x & y ELSE IF x >= 0 THEN x - (x & Cpl(y)) ELSE IF y >= 0 THEN y - (y & Cpl(x)) ELSE Cpl(Cpl(x) | Cpl(y))
BOr(x, y) == Cpl(BAnd(Cpl(x), Cpl(y)))
BXor(x, y) == BOr(x, y) - BAnd(x, y)
(* ---- operations ---- *)
Rank(k) == CASE k = "int" -> 1 [] k = "flt" -> 2 [] k = "cpx" -> 3
Wider(a, b) == IF Rank(a) >= Rank(b) THEN a ELSE b
Mk(k, re, im) == IF IsOut(re) \/ IsOut(im) THEN Und ELSE [k |-> k, re |-> re, im |-> im]
Zero == <<0, 0>>
IsZero(v) == v.re[1] = 0 /\ v.im[1] = 0
Add(k, a, b) == Mk(k, DAdd(a.re, b.re), DAdd(a.im, b.im))
Minus(v) == IF Bad(v) THEN v ELSE Mk(v.k, DNeg(v.re), DNeg(v.im))
Mul(k, a, b) == Mk(k, DAdd(DMul(a.re, b.re), DNeg(DMul(a.im, b.im))), DAdd(DMul(a.re, b.im), DMul(a.im, b.re)))
Div(k, a, b) == IF IsZero(b) THEN Err
                ELSE IF k = "int" THEN IF Aligned(a.re, b.re) THEN LET e == Same(a.re, b.re) IN Mk(k, Fit(TruncDiv(Num1(a.re, e), Num1(b.re, e)), 0), Zero) ELSE Und
                ELSE IF k = "flt" THEN Mk(k, DDiv(a.re, b.re), Zero)
                ELSE LET n == DAdd(DMul(b.re, b.re), DMul(b.im, b.im)) m == Mul(k, a, [b EXCEPT !.im = DNeg(b.im)]) IN
                     IF IsOut(n) \/ Bad(m) THEN Und ELSE IF n[1] # 1 THEN Und ELSE Mk(k, DDiv(m.re, n), DDiv(m.im, n))
IntOp(o, a, b) == IF Wider(a.k, b.k) # "int" THEN Err
                  ELSE IF o = "%" /\ IsZero(b) THEN Err
                  ELSE IF ~Aligned(a.re, b.re) THEN Und
                  ELSE LET e == Same(a.re, b.re) x == Num1(a.re, e) y == Num1(b.re, e) IN
                       Mk("int", Fit(CASE o = "%" -> TruncMod(x, y) [] o = "|" -> BOr(x, y) [] o = "&" -> BAnd(x, y) [] o = "^" -> BXor(x, y), e), Zero)
Apply(o, a, b) == IF a.k = "err" \/ b.k = "err" THEN Err ELSE IF Bad(a) \/ Bad(b) THEN Und
                  ELSE LET k == Wider(a.k, b.k) IN
                       CASE o = "+" -> Add(k, a, b) [] o = "-" -> Add(k, a, Minus(b)) [] o = "*" -> Mul(k, a, b) [] o = "/" -> Div(k, a, b) [] OTHER -> IntOp(o, a, b)
Prec(o) == CASE o = "|" -> 1 [] o = "^" -> 2 [] o = "&" -> 3 [] o \in {"+", "-"} -> 4 [] o \in {"*", "/", "%"} -> 5
Ops == {"|", "^", "&", "+", "-", "*", "/", "%"}
(* ---- value of a token sequence: precedence climbing; i = 0 means a malformed text ---- *)
Val(t) == IF t.k = "err" THEN Err ELSE [k |-> t.k, re |-> t.re, im |-> t.im]
R(v, i) == [v |-> v, i |-> i]
Fail == R(Err, 0)
RECURSIVE Unary(_, _), Climb(_, _, _), Loop(_, _, _)
Unary(ts, i) == IF i > Len(ts) THEN Fail
                ELSE LET t == ts[i] IN
                     CASE t.t \in {"num", "id"} -> R(Val(t), i + 1)
                       [] t.t = "op" -> IF t.s \in {"+", "-"} THEN LET r == Unary(ts, i + 1) IN IF r.i = 0 THEN Fail ELSE R(IF t.s = "-" THEN Minus(r.v) ELSE r.v, r.i) ELSE Fail
                       [] t.t = "lp" -> LET r == Climb(ts, i + 1, 1) IN IF r.i = 0 THEN Fail ELSE IF r.i > Len(ts) THEN Fail ELSE IF ts[r.i].t = "rp" THEN R(r.v, r.i + 1) ELSE Fail
                       [] t.t = "rp" -> Fail
Loop(ts, r, p) == IF r.i = 0 THEN Fail ELSE IF r.i > Len(ts) THEN r ELSE IF ts[r.i].t # "op" THEN r
                  ELSE LET o == ts[r.i].s IN
                       IF Prec(o) < p THEN r
                       ELSE LET q == Climb(ts, r.i + 1, Prec(o) + 1) IN IF q.i = 0 THEN Fail ELSE Loop(ts, R(Apply(o, r.v, q.v), q.i), p)
Climb(ts, i, p) == Loop(ts, Unary(ts, i), p)
(* a lone name in parentheses reads as a type cast, as in C; none of the names is a type *)
Cast(ts) == \E i \in 1..(Len(ts) - 2) : ts[i].t = "lp" /\ ts[i + 1].t = "id" /\ ts[i + 2].t = "rp" /\ ~ts[i + 1].kw
Value(ts) == IF Cast(ts) THEN Err ELSE LET r == Climb(ts, 1, 1) IN IF r.i = Len(ts) + 1 THEN r.v ELSE Err
(* ---- trees, their value and their text ---- *)
RECURSIVE EvalTree(_), Render(_, _)
EvalTree(a) == CASE a.o = "leaf" -> Val(a.tok) [] a.o = "neg" -> Minus(EvalTree(a.a)) [] a.o = "pos" -> EvalTree(a.a) [] OTHER -> Apply(a.o, EvalTree(a.a), EvalTree(a.b))
Tok(t, s) == [t |-> t, s |-> s, k |-> "err", re |-> Zero, im |-> Zero, kw |-> FALSE]
Par(ts) == <<Tok("lp", "(")>> \o ts \o <<Tok("rp", ")")>>
(* as few parentheses as the precedences permit; p: least precedence that needs none *)
Render(a, p) == CASE a.o = "leaf" -> <<a.tok>>
                  [] a.o \in {"neg", "pos"} -> <<Tok("op", IF a.o = "neg" THEN "-" ELSE "+")>> \o Render(a.a, 6)
                  [] OTHER -> LET t == Render(a.a, Prec(a.o)) \o <<Tok("op", a.o)>> \o Render(a.b, Prec(a.o) + 1) IN IF Prec(a.o) < p THEN Par(t) ELSE t
(* ---- storing a value in a field ---- *)
Trunc(d) == IF d[2] <= 0 THEN d ELSE Norm(<<TruncDiv(d[1], 2^d[2]), 0>>)
(* the low bits of an integer *)
Wrap(d, bits, signed) == LET s == -d[2] m == IF s >= bits THEN 0 ELSE ((d[1] % 2^bits) * 2^s) % 2^bits IN Norm(<<IF signed /\ m >= 2^(bits - 1) THEN m - 2^bits ELSE m, 0>>)
IntKind == [i8 |-> <<8, TRUE>>, u8 |-> <<8, FALSE>>, chr |-> <<8, TRUE>>, bs5 |-> <<5, TRUE>>, bu3 |-> <<3, FALSE>>, bu11 |-> <<11, FALSE>>]
Wide == [i16 |-> 16, u16 |-> 16, i32 |-> 32, u32 |-> 32, enm |-> 32, i64 |-> 64, u64 |-> 64, i128 |-> 128, u128 |-> 128]     \* reported as the signed number of the same width
Floats == {"f32", "f64", "f80"}
Complexes == {"c32", "c64", "c80"}
AsInt(d) == [k |-> "int", re |-> d, im |-> Zero]
(* what the specification says about storing v in a field of kind kd; Und where it says nothing *)
Store(v, kd) == IF Bad(v) THEN v
                ELSE IF kd \in {"f32", "c32"} /\ \E d \in {v.re, v.im} : Abs(d[1]) >= 2^24 THEN Und
                ELSE IF kd \in Complexes THEN [v EXCEPT !.k = "cpx"]
                ELSE IF v.im[1] # 0 THEN Und
                ELSE IF kd \in Floats THEN [v EXCEPT !.k = "flt"]
                ELSE IF kd = "bool" THEN IF v.re[2] > 0 THEN Und ELSE AsInt(<<IF v.re[1] = 0 THEN 0 ELSE 1, 0>>)
                ELSE LET d == Trunc(v.re) IN
                     IF kd \in DOMAIN Wide
                     THEN IF d[1] = 0 \/ Bits(d[1]) - d[2] < Wide[kd] THEN AsInt(d) ELSE IF -d[2] >= Wide[kd] THEN AsInt(Zero) ELSE Und
                     ELSE IF Bits(d[1]) + IntKind[kd][1] > 29 /\ d[2] < 0 THEN Und ELSE AsInt(Wrap(d, IntKind[kd][1], IntKind[kd][2]))
=============================================================================
