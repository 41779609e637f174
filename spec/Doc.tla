-------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* Documents that mean a given object.  The grammar of every text format   *)
(* and what a document of it says are specified by the ways an object may  *)
(* be written down: order of fields, omitted fields, unnamed fields,       *)
(* notations of numbers, characters and texts, comments, layout, places of *)
(* definitions and references.  A choice is made with RandomElement        *)
(* wherever the format leaves one.                                         *)
(*                                                                         *)
(* First the object becomes a tree of entries in document order,           *)
(*   [nm, un, k, t, v, key, to, kids]                                      *)
(* nm the field, un: the name is not written, k one of "v" value, "t" text,*)
(* "null", "ref", "cref" (the content of a string elsewhere), "list",      *)
(* "struct"; key the location it describes, to the one it refers to; then  *)
(* the tree is printed.                                                    *)
(***************************************************************************)
EXTENDS Heap

Prof == JsonDeserialize(IOEnv.VF_PROFILE)   \* tables: latin, floats, enums, zero; weights: omit, unnamed, layout
Chance(n) == RandomElement(1..100) <= n
Pick(s) == s[RandomElement(1..Len(s))]
RECURSIVE Shuffle(_)
Shuffle(s) == IF Len(s) <= 1 THEN s ELSE LET i == RandomElement(1..Len(s)) IN <<s[i]>> \o Shuffle(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
\* (a sequence given by its elements is evaluated once by \o <<>>)
RECURSIVE JoinTuple(_, _)
JoinTuple(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o JoinTuple(Tail(s), sep)
Join(s, sep) == JoinTuple(s \o <<>>, sep)
IsPrefix2(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(* ---- numbers ---- *)
DigitOf == [d \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"} |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9
              [] d = "a" -> 10 [] d = "b" -> 11 [] d = "c" -> 12 [] d = "d" -> 13 [] d = "e" -> 14 [] OTHER -> 15]
Lower == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Upper == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
Ch(s, i) == SubSeq(s, i, i)
Neg(s) == Len(s) > 0 /\ Ch(s, 1) = "-"
Mag(s) == IF Neg(s) THEN SubSeq(s, 2, Len(s)) ELSE s
Digits(s) == [i \in 1..Len(s) |-> DigitOf[Ch(s, i)]]
\* long division of a decimal digit sequence, highest first
RECURSIVE DivStep(_, _, _, _, _)
DivStep(d, b, i, r, q) == IF i > Len(d) THEN [q |-> q, r |-> r]
                          ELSE LET x == 10 * r + d[i] IN DivStep(d, b, i + 1, x % b, IF q = <<>> /\ x \div b = 0 THEN q ELSE Append(q, x \div b))
RECURSIVE InBase(_, _)
InBase(d, b) == IF d = <<>> THEN <<>> ELSE LET x == DivStep(d, b, 1, 0, <<>>) IN Append(InBase(x.q, b), x.r)
BaseText(s, b, tab) == LET d == InBase(Digits(Mag(s)), b) IN IF s = "0" THEN "0" ELSE Join([i \in 1..Len(d) |-> tab[d[i] + 1]], "")
HexText(s) == BaseText(s, 16, IF Chance(50) THEN Lower ELSE Upper)
OctText(s) == BaseText(s, 8, Lower)
Sign(s) == IF Neg(s) THEN "-" ELSE ""
RECURSIVE Small(_, _)
Small(d, i) == IF i = 0 THEN 0 ELSE 10 * Small(d, i - 1) + d[i]

(* ---- texts ---- *)
Bytes(v) == [i \in 1..((Len(v) - 2) \div 2) |-> 16 * DigitOf[Ch(v, 2 * i + 1)] + DigitOf[Ch(v, 2 * i + 2)]]
Raw(c) == Prof.latin[c + 1]
Hex2(c) == (IF Chance(50) THEN Lower ELSE Upper)[c \div 16 + 1] \o Lower[(c % 16) + 1]
Oct3(c) == Lower[c \div 64 + 1] \o Lower[((c \div 8) % 8) + 1] \o Lower[(c % 8) + 1]
Quote == Raw(34)
Back == Raw(92)
Letter(c) == CASE c = 7 -> "a" [] c = 8 -> "b" [] c = 9 -> "t" [] c = 10 -> "n" [] c = 11 -> "v" [] c = 12 -> "f" [] c = 13 -> "r" [] OTHER -> ""
MapBytes(b, F(_)) == Join([i \in 1..Len(b) |-> F(b[i])], "")
\* one byte inside quotes q (a code); X is the numeric escape of the format
Esc(c, q, X(_), letters) == IF c = q \/ c = 92 THEN IF Chance(75) THEN Back \o Raw(c) ELSE X(c)
                            ELSE IF c = 0 THEN X(c)
                            ELSE IF Letter(c) # "" /\ letters THEN LET r == RandomElement(1..3) IN IF r = 1 THEN Back \o Letter(c) ELSE IF r = 2 THEN Raw(c) ELSE X(c)
                            ELSE IF Chance(6) THEN X(c) ELSE Raw(c)
CinX(c) == Back \o Oct3(c)
JsonX(c) == Back \o "u00" \o Hex2(c)
ScmX(c) == Back \o "x" \o Hex2(c) \o ";"
CinByte(c) == Esc(c, 34, CinX, TRUE)
CinCharByte(c) == Esc(c, 39, CinX, TRUE)
JsonByte(c) == Esc(c, 34, JsonX, TRUE)
ScmByte(c) == Esc(c, 34, ScmX, TRUE)
XmlByte(c, two) == CASE c = 38 -> IF Chance(60) THEN "&amp;" ELSE "&#x26;"
                     [] c = 60 -> IF Chance(60) THEN "&lt;" ELSE "&#x3" \o (IF Chance(50) THEN "c;" ELSE "C;")
                     [] c = 62 -> IF two \/ Chance(50) THEN "&gt;" ELSE Raw(c)
                     [] c = 34 -> IF Chance(40) THEN "&quot;" ELSE Raw(c)
                     [] c = 0 -> "&#x00;"
                     [] c = 13 /\ two -> "&#xD;"
                     [] c < 128 /\ Chance(8) -> "&#x" \o Hex2(c) \o ";"
                     [] OTHER -> Raw(c)
Xml1Byte(c) == XmlByte(c, FALSE)
Xml2Byte(c) == XmlByte(c, TRUE)
YamlByte(c) == IF c = 34 \/ c = 92 THEN Back \o Raw(c)
               ELSE IF c = 10 THEN Back \o "n" ELSE IF c = 13 THEN Back \o "r" ELSE IF c = 9 THEN Back \o "t"
               ELSE IF c < 32 \/ c = 127 \/ (c < 127 /\ Chance(5)) THEN Back \o "x" \o Hex2(c) ELSE Raw(c)
YamlSingle(c) == IF c = 39 THEN "''" ELSE Raw(c)
Plain(b) == Len(b) > 0 /\ \A i \in 1..Len(b) : b[i] \in (48..57) \cup (65..90) \cup (97..122) \cup {95}
OneLine(b) == \A i \in 1..Len(b) : b[i] >= 32 /\ b[i] # 127
Quoted(b, F(_)) == Quote \o MapBytes(b, F) \o Quote
YamlText(b) == LET r == RandomElement(1..3) IN IF Plain(b) /\ r = 1 THEN MapBytes(b, Raw)
                                              ELSE IF OneLine(b) /\ r = 2 THEN "'" \o MapBytes(b, YamlSingle) \o "'" ELSE Quoted(b, YamlByte)

(* ---- values ---- *)
BaseOf(t) == IF IsBitField(t) THEN Prof.bfbase[t] ELSE t
Floats == {"f32", "f64", "f80"}
Complexes == {"c32", "c64", "c80"}
IsChars(t) == Ty(t).k = "leaf" /\ Ty(t).n > 0 /\ IsPrefix2("ca:", t)
IsText(t) == Ty(t).k = "leaf" /\ Ty(t).n > 0 /\ IsPrefix2("ct:", t)
IntText(v, f) ==
  LET dec == v
      hex == Sign(v) \o (IF Chance(70) THEN "0x" ELSE "0X") \o HexText(v)
      oct == Sign(v) \o "0" \o OctText(v)
      expr == LET r == RandomElement(1..4) IN IF r = 1 THEN dec ELSE IF r = 2 THEN hex ELSE IF r = 3 THEN oct ELSE " " \o dec \o " "
      r == RandomElement(1..10)
  IN CASE f = "CINIT" -> IF r <= 4 THEN dec ELSE IF r <= 6 THEN hex ELSE IF r = 7 THEN oct ELSE IF r = 8 THEN "(" \o dec \o ")" ELSE IF r = 9 THEN Quote \o expr \o Quote ELSE IF Neg(v) THEN "- " \o Mag(v) ELSE "+" \o dec
       [] f = "JSON" -> IF r <= 7 \/ (Neg(v) = FALSE /\ r = 8) THEN dec ELSE Quote \o expr \o Quote
       [] f = "SCM" -> IF r <= 4 THEN dec ELSE IF r <= 6 THEN Sign(v) \o "#" \o (IF Chance(50) THEN "x" ELSE "X") \o HexText(v) ELSE IF r = 7 THEN Sign(v) \o "#" \o (IF Chance(50) THEN "o" ELSE "O") \o OctText(v) ELSE IF r = 8 THEN (IF Neg(v) THEN dec ELSE "+" \o dec) ELSE Quote \o expr \o Quote
       [] f \in {"XML1", "XML2"} -> IF r <= 5 THEN dec ELSE expr
       [] OTHER -> IF r <= 5 THEN dec ELSE IF r = 6 THEN Quote \o dec \o Quote ELSE IF r = 7 THEN "'" \o dec \o "'" ELSE IF r = 8 THEN hex ELSE oct
\* a word of the expression language
Word(w, f) == IF f \in {"JSON", "SCM"} THEN Quote \o w \o Quote ELSE IF f = "CINIT" /\ Chance(15) THEN Quote \o w \o Quote ELSE w
BoolText(v, f) == IF Chance(40) THEN IntText(v, f)
                  ELSE IF v = "1" THEN IF f = "JSON" /\ Chance(70) THEN "true" ELSE IF f = "SCM" /\ Chance(70) THEN "t" ELSE IF f = "CINIT" /\ Chance(30) THEN "TRUE" ELSE Word("true", f)
                  ELSE IF f = "JSON" /\ Chance(70) THEN "false" ELSE IF f = "SCM" /\ Chance(70) THEN "nil" ELSE IF f = "CINIT" /\ Chance(30) THEN "FALSE" ELSE Word("false", f)
EnumNames(t, v) == {i \in 1..Len(Prof.enums[t]) : Prof.enums[t][i][2] = v}
\* sets of flags whose values make up v together (the constants of such a type are different powers of two, and zero)
IsFlags(t) == t \in DOMAIN Prof.flags
SmallNum(v) == ~Neg(v) /\ Len(v) <= 9
Num(v) == Small(Digits(v), Len(v))
RECURSIVE Sum(_, _)
Sum(t, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Num(Prof.enums[t][i][2]) + Sum(t, S \ {i})
FlagSets(t, v) == IF IsFlags(t) /\ SmallNum(v) THEN LET C == {i \in 1..Len(Prof.enums[t]) : SmallNum(Prof.enums[t][i][2]) /\ Num(Prof.enums[t][i][2]) # 0} IN {S \in SUBSET C : S # {} /\ Sum(t, S) = Num(v)} ELSE {}
EnumText(t, v, f) == LET S == EnumNames(t, v) F == FlagSets(t, v) IN
                     IF F # {} /\ Chance(70) THEN LET c == CHOOSE x \in F : TRUE IN Word(Join(Shuffle(SetToSeq({Prof.enums[t][i][1] : i \in c})), IF Chance(60) THEN " | " ELSE "|"), IF f = "CINIT" THEN "none" ELSE f)
                     ELSE IF S # {} /\ Chance(75) THEN Word(Prof.enums[t][CHOOSE i \in S : TRUE][1], f)
                     ELSE IntText(v, f)
\* Floating point numbers come with a table of notations of their magnitude: those of the formats' own scanners
\* (digits, point, digits, exponent) and those of a number in a text (everything strtold reads).
FNot(t, v) == Prof.floats[t][v]      \* <<sign, notations of scanners, notations in texts>>
InText(f) == f \in {"XML1", "XML2", "YAML"}
FloatText(t, v, f) == LET n == FNot(t, v) q == ~InText(f) /\ Chance(20) IN
                      IF InText(f) THEN n[1] \o Pick(n[3]) ELSE IF q THEN Quote \o Pick(<<"", " ">>) \o n[1] \o Pick(n[3]) \o Quote ELSE n[1] \o Pick(n[2])
ComplexText(t, v, f) == LET n == Prof.complexes[t][v]   \* <<type, real part, imaginary part>>
                            re == FNot(n[1], n[2]) im == FNot(n[1], n[3])
                            one == n[3] = "1" /\ Chance(60)
                            q == f # "CINIT" \/ Chance(20)
                            mag == IF one THEN "" ELSE Pick(im[IF q THEN 3 ELSE 2])
                            a == re[1] \o Pick(re[IF q THEN 3 ELSE 2])
                            unit == IF q \/ Chance(60) THEN "I" ELSE "i"
                            b == im[1] \o mag \o unit
                            plus == IF Chance(50) THEN " + " ELSE IF Chance(50) THEN "+" ELSE " +"
                            x == IF n[3] = "0" /\ Chance(60) THEN a ELSE IF n[2] = "0" /\ Chance(60) THEN b
                                 ELSE IF ~q /\ im[1] = "-" /\ Chance(50) THEN a \o " - " \o mag \o unit
                                 ELSE IF q \/ Chance(70) THEN a \o plus \o b ELSE b \o plus \o a
                        IN IF ~InText(f) /\ q THEN Quote \o x \o Quote ELSE x
CharText(v, f) == LET c == Num(v) r == RandomElement(1..4) IN
  CASE f = "CINIT" -> IF r <= 2 THEN "'" \o CinCharByte(c) \o "'" ELSE IF r = 3 /\ c # 0 THEN Quoted(<<c>>, CinByte) ELSE v
    [] f = "JSON" -> IF r <= 3 THEN Quoted(<<c>>, JsonByte) ELSE v
    [] f = "SCM" -> IF r = 1 /\ c # 0 /\ c # 10 THEN "#" \o Back \o Raw(c) ELSE IF r = 2 /\ c # 0 THEN Quoted(<<c>>, ScmByte) ELSE IF r = 3 THEN v ELSE "#" \o Back \o "x" \o Hex2(c)
    [] f = "XML1" -> Xml1Byte(c)
    [] f = "XML2" -> IF c = 0 THEN "" ELSE Xml2Byte(c)
    [] OTHER -> IF c \in 1..127 /\ r <= 3 THEN YamlText(<<c>>) ELSE IF Len(v) > 1 /\ r = 4 THEN v ELSE IF Chance(30) THEN "0x" \o HexText(v) ELSE "0" \o OctText(v)
TextText(v, f) == LET b == Bytes(v) IN
  CASE f = "CINIT" -> Quoted(b, CinByte) [] f = "JSON" -> Quoted(b, JsonByte) [] f = "SCM" -> Quoted(b, ScmByte)
    [] f = "XML1" -> MapBytes(b, Xml1Byte) [] f = "XML2" -> MapBytes(b, Xml2Byte) [] OTHER -> YamlText(b)
NullText(f) == CASE f = "CINIT" -> "NULL" [] f = "JSON" -> "null" [] f = "SCM" -> "nil" [] f = "YAML" -> "*isnull" [] OTHER -> ""
ValueText(t0, v, f) == LET t == BaseOf(t0) IN
  CASE t = "bool" -> BoolText(v, f)
    [] t = "char" -> CharText(v, f)
    [] t \in Floats -> FloatText(t, v, f)
    [] t \in Complexes -> ComplexText(t, v, f)
    [] t = "fn" -> IF f \in {"CINIT", "JSON", "SCM"} THEN NullText(f) ELSE "0"
    [] IsText(t) -> TextText(v, f)
    [] t \in DOMAIN Prof.enums -> EnumText(t, v, f)
    [] OTHER -> IntText(v, f)

(***************************************************************************)
(* The tree.                                                               *)
(***************************************************************************)
\* the pointer that holds the definition of a block: any that is in a block created earlier
Holders(h, b) == {x \in DOMAIN h.mem : x[1] < b /\ ((h.mem[x].k = "p" /\ h.mem[x].b = b /\ h.mem[x].p = "0" /\ h.sized[b] = 0) \/ (h.mem[x].k = "r" /\ h.mem[x].b = b))}
Owners(h) == <<<<0, "">>>> \o [b \in 1..(Len(h.blocks) - 1) |-> RandomElement(Holders(h, b + 1))]
\* locations some pointer refers to without defining them
Refs(h) == {<<h.mem[x].b, h.mem[x].p>> : x \in {x \in DOMAIN h.mem : h.mem[x].k = "p" /\ h.mem[x].b # 0 /\ ~(h.mem[x].p = "0" /\ h.own[h.mem[x].b] = x)}}
Inside(p, q) == q = p \/ IsPrefix2(p \o ".", q)
\* the string variable that holds a text
NeedsEntry(h, b, p) == (\E x \in h.refs : x[1] = b /\ Inside(p, x[2])) \/ (\E k \in 2..Len(h.blocks) : h.blocks[k].t = "text" /\ h.own[k][1] = b /\ Inside(p, h.own[k][2]) /\ <<k, "0">> \in h.refs)
RECURSIVE Zero(_, _, _, _)
Zero(h, b, p, t) == LET td == Ty(t) c == h.mem[<<b, p>>] IN
  CASE td.k = "leaf" -> c.v \in {"0", "0_0", "null", "t:"}
    [] td.k \in {"str", "ptr"} -> c.b = 0
    [] td.k = "rptr" -> c.b = 0 /\ c.n = 0
    [] td.k = "larr" -> c.n = 0
    [] td.k = "arr" -> \A i \in 0..(td.n - 1) : Zero(h, b, p \o "." \o ToString(i), td.elem)
    [] td.k = "struct" -> \A i \in 1..Len(td.f) : Zero(h, b, p \o "." \o td.f[i].n, td.f[i].t)
    [] td.k = "union" -> Zero(h, b, p \o "." \o td.f[c.i].n, td.f[c.i].t)
Omissible(h, b, p, t) == Zero(h, b, p, t) /\ ~NeedsEntry(h, b, p)
\* the size of a pointer follows from the number of its elements
GivenSize(h, b, p, td, n) == \E i \in 1..Len(td.f) : td.f[i].sz = n /\ Ty(td.f[i].t).k = "rptr" /\ h.mem[<<b, p \o "." \o td.f[i].n>>].b # 0
TrailingZeros(h, b, p, e, n) == CHOOSE k \in 0..n : (\A i \in (n - k)..(n - 1) : Omissible(h, b, p \o "." \o ToString(i), e)) /\ (k = n \/ ~Omissible(h, b, p \o "." \o ToString(n - k - 1), e))

NoKey == <<0, "", "">>
Leaf(k, t, v, key, to) == [nm |-> "", un |-> TRUE, k |-> k, t |-> t, v |-> v, key |-> key, to |-> to, kids |-> <<>>]
\* order and naming of the fields of a structure: sequence of <<index, unnamed>>
Order(h, b, p, t, f) ==
  LET td == Ty(t)
      plain == Len(td.f) = Len(td.all)
      Idx(n) == CHOOSE i \in 1..Len(td.all) : td.all[i].n = n
      may == SelectSeq([i \in 1..Len(td.f) |-> i], LAMBDA i : ~((Omissible(h, b, p \o "." \o td.f[i].n, td.f[i].t) \/ (GivenSize(h, b, p, td, td.f[i].n) /\ ~NeedsEntry(h, b, p \o "." \o td.f[i].n))) /\ Chance(Prof.omit)))
      ord == IF Chance(50) THEN may ELSE Shuffle(may)
      can(i) == Idx(td.f[ord[i]].n) = (IF i = 1 THEN 1 ELSE Idx(td.f[ord[i - 1]].n) + 1)
      all == \A i \in 1..Len(ord) : can(i)
  IN CASE f \in {"XML1", "XML2"} -> [i \in 1..Len(ord) |-> <<ord[i], FALSE>>]
       [] f \in {"JSON", "YAML"} -> LET u == Len(ord) > 0 /\ all /\ Chance(Prof.unnamed) IN [i \in 1..Len(ord) |-> <<ord[i], u>>]
       [] OTHER -> LET m == Chance(60) IN [i \in 1..Len(ord) |-> <<ord[i], m /\ can(i) /\ Chance(Prof.unnamed)>>]
RECURSIVE Entry(_, _, _, _, _, _)
RECURSIVE Entries(_, _, _, _)
\* acc: the entries so far; result: [e |-> entries, id |-> the new one]
Put(acc, x) == [e |-> Append(acc, x), id |-> Len(acc) + 1]
Entry(h, f, acc, b, p, t) ==
  LET td == Ty(t)
      key == <<b, p, t>>
      c == h.mem[<<b, p>>]
      Comp(k, list) == LET r == Put(acc, Leaf(k, t, "", key, NoKey))
                           w == Entries(h, f, [e |-> r.e, kids |-> <<>>], list)
                       IN [e |-> [w.e EXCEPT ![r.id].kids = w.kids], id |-> r.id]
      Item(bb, pp, tt) == [b |-> bb, p |-> pp, t |-> tt, nm |-> "", un |-> TRUE]
  IN CASE td.k = "leaf" /\ IsChars(t) ->
            LET by == Bytes(c.v) n == IF Chance(50) THEN Len(by) ELSE td.n
                r == Put(acc, Leaf("list", t, "", key, NoKey))
            IN [e |-> [r.e EXCEPT ![r.id].kids = [i \in 1..n |-> r.id + i]] \o [i \in 1..n |-> Leaf("v", "char", IF i <= Len(by) THEN ToString(by[i]) ELSE "0", NoKey, NoKey)], id |-> r.id]
       [] td.k = "leaf" -> Put(acc, Leaf("v", t, c.v, key, NoKey))
       [] td.k \in {"str", "ptr"} ->
            IF c.b = 0 THEN Put(acc, Leaf("null", t, "", key, NoKey))
            ELSE IF c.p = "0" /\ h.own[c.b] = <<b, p>>
                 THEN IF td.k = "str" THEN Put(acc, Leaf("t", t, h.blocks[c.b].v, key, NoKey)) ELSE Comp("list", <<Item(c.b, "0", td.elem)>>)
                 ELSE IF td.elem = "text" THEN Put(acc, Leaf("cref", t, "", key, <<h.own[c.b][1], h.own[c.b][2], "str">>))
                      ELSE Put(acc, Leaf("ref", t, "", key, <<c.b, c.p, td.elem>>))
       [] td.k = "rptr" -> IF c.b = 0 THEN Put(acc, Leaf("null", t, "", key, NoKey)) ELSE Comp("list", [i \in 1..c.n |-> Item(c.b, ToString(i - 1), td.elem)])
       [] td.k = "larr" -> Comp("list", [i \in 1..c.n |-> Item(b, p \o "." \o ToString(i - 1), td.elem)])
       [] td.k = "arr" -> LET z == IF Chance(Prof.omit) THEN TrailingZeros(h, b, p, td.elem, td.n) ELSE 0
                          IN Comp("list", [i \in 1..(td.n - z) |-> Item(b, p \o "." \o ToString(i - 1), td.elem)])
       [] td.k = "struct" -> LET o == Order(h, b, p, t, f)
                             IN Comp("struct", [i \in 1..Len(o) |-> LET x == td.f[o[i][1]] IN [b |-> b, p |-> p \o "." \o x.n, t |-> x.t, nm |-> x.n, un |-> o[i][2]]])
       [] td.k = "union" -> LET x == td.f[c.i] IN
                            IF Omissible(h, b, p, t) /\ Chance(Prof.omit) THEN Comp("struct", <<>>)
                            ELSE Comp("struct", <<[b |-> b, p |-> p \o "." \o x.n, t |-> x.t, nm |-> x.n, un |-> c.i = 1 /\ f \notin {"XML1", "XML2"} /\ Chance(Prof.unnamed)]>>)
Entries(h, f, w, list) ==
  IF list = <<>> THEN w
  ELSE LET x == Head(list)
           r == Entry(h, f, w.e, x.b, x.p, x.t)
           e2 == [r.e EXCEPT ![r.id].nm = x.nm, ![r.id].un = x.un]
       IN Entries(h, f, [e |-> e2, kids |-> Append(w.kids, r.id)], Tail(list))

(* ---- numbers of references: the position in JSON, elsewhere any different numbers ---- *)
Targets(e) == {e[i].to : i \in 1..Len(e)} \ {NoKey}
At(e, key) == CHOOSE i \in 1..Len(e) : e[i].key = key
Numbers(e, f) == LET n == Len(e) off == RandomElement({0, 1, 7, 1000}) down == Chance(50)
                 IN [i \in 1..n |-> IF f = "JSON" THEN i ELSE IF down THEN off + n + 1 - i ELSE off + i]
\* every definition somebody refers to, and some others, are numbered
Marked(e, f) == IF f = "JSON" THEN {} ELSE {i \in 1..Len(e) : e[i].key # NoKey /\ (e[i].key \in Targets(e) \/ Chance(5))}

(***************************************************************************)
(* Printing. D: [e, num, mark, f].                                         *)
(***************************************************************************)
Num2(D, i) == ToString(D.num[i])
NumTo(D, i) == ToString(D.num[At(D.e, D.e[i].to)])
Sp == IF Chance(Prof.layout) THEN Pick(<<" ", "\n", "\t", "  ", "">>) ELSE ""
CNote == Pick(<<"/* note */", "/**/", "/* a = b, { \" } */", "/* ref = */", "/* * / ref_idx */", "/* x\n y */">>)
CSp == IF Chance(Prof.layout \div 4) THEN " " \o CNote \o " " ELSE Sp
CTag(name, n) == IF Chance(70) THEN "/* " \o name \o " = " \o n \o " */" ELSE "/*" \o name \o "=" \o n \o "*/"
TypeName(t) == Ty(t).tn
CastOf(D, i) == LET x == D.e[i] td == Ty(x.t) IN
                IF ~Chance(40) THEN ""
                ELSE IF x.k = "struct" /\ td.k = "struct" THEN "(" \o td.tn \o ")" \o Sp
                ELSE IF x.k = "list" /\ td.k \in {"ptr", "rptr"} /\ Ty(td.elem).k = "struct" THEN "(" \o Ty(td.elem).tn \o (IF Chance(50) THEN "[])" ELSE " [ ] )") \o Sp
                ELSE ""
RECURSIVE Cin(_, _), Js(_, _), ScmVal(_, _), ScmItem(_, _), Xm(_, _, _), Yf(_, _), Yb(_, _, _)
CinElem(D, i) == CSp \o (IF D.e[i].un THEN "" ELSE "." \o Sp \o D.e[i].nm \o Sp \o "=" \o CSp) \o Cin(D, i) \o CSp
Cin(D, i) == LET x == D.e[i] IN
  (IF i \in D.mark THEN CTag("ref_idx", Num2(D, i)) \o " " ELSE "") \o
  CASE x.k = "v" -> ValueText(x.t, x.v, "CINIT")
    [] x.k = "t" -> TextText(x.v, "CINIT")
    [] x.k = "null" -> "NULL"
    [] x.k = "ref" -> CTag("ref", NumTo(D, i)) \o " NULL"
    [] x.k = "cref" -> CTag("ref_content", NumTo(D, i)) \o " NULL"
    [] OTHER -> CastOf(D, i) \o "{" \o Join([k \in 1..Len(x.kids) |-> CinElem(D, x.kids[k])], ",") \o (IF x.kids # <<>> /\ Chance(30) THEN "," \o CSp ELSE "") \o CSp \o "}"
Js(D, i) == LET x == D.e[i] brace == x.k = "struct" /\ \A k \in 1..Len(x.kids) : ~D.e[x.kids[k]].un IN
  CASE x.k = "v" -> ValueText(x.t, x.v, "JSON")
    [] x.k = "t" -> TextText(x.v, "JSON")
    [] x.k = "null" -> "null"
    [] x.k = "ref" -> NumTo(D, i)
    [] x.k = "cref" -> "-" \o NumTo(D, i)
    [] brace -> "{" \o Sp \o Join([k \in 1..Len(x.kids) |-> Sp \o Quote \o D.e[x.kids[k]].nm \o Quote \o Sp \o ":" \o Sp \o Js(D, x.kids[k]) \o Sp], ",") \o "}"
    [] OTHER -> "[" \o Sp \o Join([k \in 1..Len(x.kids) |-> Sp \o Js(D, x.kids[k]) \o Sp], ",") \o "]"
ScmNote == IF Chance(Prof.layout \div 4) THEN "; note ( \" . 5)\n" ELSE ""
ScmTag(name, n) == (IF Chance(70) THEN ";(" ELSE ";; ( ") \o name \o " . " \o n \o ")" \o Pick(<<"\n", "\n  ", " \n">>)
ScmVal(D, i) == LET x == D.e[i] IN
  CASE x.k = "v" -> ValueText(x.t, x.v, "SCM")
    [] x.k = "t" -> TextText(x.v, "SCM")
    [] x.k \in {"null", "ref", "cref"} -> "nil"
    [] OTHER -> "(" \o Sp \o Join([k \in 1..Len(x.kids) |-> ScmNote \o ScmItem(D, x.kids[k])], Pick(<<" ", "\n", "  ">>)) \o Sp \o ")"
ScmItem(D, i) == LET x == D.e[i] IN
  (IF i \in D.mark THEN ScmTag("ref_idx", Num2(D, i)) ELSE "") \o
  (IF x.k = "ref" THEN ScmTag("ref", NumTo(D, i)) ELSE IF x.k = "cref" THEN ScmTag("ref_content", NumTo(D, i)) ELSE "") \o
  (IF x.un THEN ScmVal(D, i) ELSE "(" \o Sp \o x.nm \o " . " \o ScmVal(D, i) \o Sp \o ")")
XmlSp == IF Chance(Prof.layout) THEN Pick(<<" ", "\n", "\t", "  ">>) ELSE ""
XmlNote(D) == IF D.f = "XML2" /\ Chance(Prof.layout \div 4) THEN "<!-- note -->" ELSE ""
XmlAttr(n, v) == " " \o XmlSp \o n \o "=" \o Quote \o v \o Quote
Xm(D, i, name) == LET x == D.e[i]
                      pre == IF D.f = "XML1" /\ Chance(5) THEN "ns:" ELSE ""
                      at == Shuffle((IF i \in D.mark THEN <<XmlAttr("ref_idx", Num2(D, i))>> ELSE <<>>)
                            \o (CASE x.k = "null" -> <<XmlAttr("isnull", Pick(<<"true", "1", "">>))>> [] x.k = "ref" -> <<XmlAttr("ref", NumTo(D, i))>> [] x.k = "cref" -> <<XmlAttr("ref_content", NumTo(D, i))>> [] OTHER -> <<>>)
                            \o (IF Chance(5) THEN <<XmlAttr("other", "7")>> ELSE <<>>))
                      body == CASE x.k = "v" -> ValueText(x.t, x.v, D.f)
                                [] x.k = "t" -> TextText(x.v, D.f)
                                [] x.k \in {"null", "ref", "cref"} -> ""
                                [] OTHER -> XmlSp \o Join([k \in 1..Len(x.kids) |-> Xm(D, x.kids[k], IF D.e[x.kids[k]].nm = "" THEN name ELSE D.e[x.kids[k]].nm) \o XmlSp \o XmlNote(D)], "")
                      open == "<" \o pre \o name \o Join(at, "") \o (IF Chance(10) THEN " " ELSE "")
                  IN IF body = "" /\ Chance(70) THEN open \o "/>" ELSE open \o ">" \o body \o "</" \o pre \o name \o ">"
YTag(D, i) == IF i \in D.mark THEN "&ref_idx_" \o Num2(D, i) \o " " ELSE ""
YScalar(D, i) == LET x == D.e[i] IN
  CASE x.k = "v" -> YTag(D, i) \o ValueText(x.t, x.v, "YAML")
    [] x.k = "t" -> YTag(D, i) \o TextText(x.v, "YAML")
    [] x.k = "null" -> "*isnull"
    [] x.k = "ref" -> "*ref_idx_" \o NumTo(D, i)
    [] x.k = "cref" -> "*ref_content_" \o NumTo(D, i)
YNamed(D, x) == x.k = "struct" /\ \A k \in 1..Len(x.kids) : ~D.e[x.kids[k]].un
Yf(D, i) == LET x == D.e[i] IN
  IF x.k \notin {"struct", "list"} THEN YScalar(D, i)
  ELSE IF YNamed(D, x) THEN YTag(D, i) \o "{" \o Join([k \in 1..Len(x.kids) |-> D.e[x.kids[k]].nm \o ": " \o Yf(D, x.kids[k]) \o " "], ", ") \o "}"
  ELSE YTag(D, i) \o "[" \o Join([k \in 1..Len(x.kids) |-> Yf(D, x.kids[k]) \o " "], ", ") \o "]"
\* what follows "key:" or "-" in block style
Yb(D, i, ind) == LET x == D.e[i] IN
  IF x.k \notin {"struct", "list"} \/ x.kids = <<>> \/ Chance(20) THEN " " \o Yf(D, i) \o (IF Chance(Prof.layout \div 8) THEN " # note\n" ELSE "\n")
  ELSE (IF i \in D.mark THEN " &ref_idx_" \o Num2(D, i) ELSE "") \o "\n" \o
       (IF YNamed(D, x) THEN Join([k \in 1..Len(x.kids) |-> ind \o D.e[x.kids[k]].nm \o ":" \o Yb(D, x.kids[k], ind \o "  ")], "")
        ELSE Join([k \in 1..Len(x.kids) |-> ind \o "-" \o Yb(D, x.kids[k], ind \o "  ")], ""))
Written(D, root) ==
  CASE D.f = "CINIT" -> CSp \o Cin(D, 1) \o CSp
    [] D.f = "JSON" -> Sp \o Js(D, 1) \o Sp
    [] D.f = "SCM" -> Sp \o ScmItem(D, 1) \o Sp
    [] D.f \in {"XML1", "XML2"} -> "<?xml version=" \o Quote \o "1.0" \o Quote \o "?>" \o XmlSp \o Xm(D, 1, root)
    [] OTHER -> (IF Chance(30) THEN "%YAML 1.1\n" ELSE "") \o "---" \o Yb(D, 1, "") \o (IF Chance(30) THEN "...\n" ELSE "")

Document(h0, root, f) ==
  LET h1 == h0 @@ [own |-> Owners(h0)]
      h == h1 @@ [refs |-> Refs(h1)]
      e == Entry(h, f, <<>>, 1, "0", root).e
      num == Numbers(e, f)
      mark == Marked(e, f)
  IN Written([e |-> e, num |-> num, mark |-> mark, f |-> f], root)
=============================================================================
