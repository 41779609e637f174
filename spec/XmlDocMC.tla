------------------------------ MODULE XmlDocMC ------------------------------
(***************************************************************************)
(* A reader that only counts angle brackets, character by character, on    *)
(* every stream of up to MaxToks tokens: it stops exactly where the        *)
(* document ends, and never later.                                         *)
(***************************************************************************)
EXTENDS XmlDoc
CONSTANT MaxToks
Texts == [decl |-> {<<"<", "?", "x", "?", ">">>}, open |-> {<<"<", "x", ">">>, <<"<", "x", " ", "x", "/", "q", ">">>}, close |-> {<<"<", "/", "x", ">">>, <<"<", "/", "x", " ", ">">>},
          empty |-> {<<"<", "x", "/", ">">>, <<"<", "x", " ", "/", ">">>}, text |-> {<<"x">>, <<"/">>, <<"?", "/">>}, ws |-> {<<" ">>}, junk |-> {<<"x">>}]
VARIABLES toks, s, r, n      \* tokens so far, state of the specification, of the reader, number of characters
vars == <<toks, s, r, n>>
R0 == [open |-> 0, close |-> -1, last |-> "", left |-> 2, st |-> "go"]
Char(q, c) ==
  IF q.st # "go" THEN q
  ELSE IF q.open = 0 /\ c \notin {"<", " "} THEN [q EXCEPT !.st = "fail"]
  ELSE LET o1 == IF c = "<" THEN q.open + 2 ELSE q.open
           c1 == IF q.last \in {"/", "?"} /\ c = ">" THEN -2 ELSE q.close
           c2 == IF q.last = "<" /\ c = "/" THEN -3 ELSE c1
           o2 == IF c = ">" THEN o1 + c2 ELSE o1
           c3 == IF c = ">" THEN -1 ELSE c2
           left == IF c = ">" /\ o2 = 0 THEN q.left - 1 ELSE q.left
       IN [open |-> o2, close |-> c3, last |-> IF c = " " THEN q.last ELSE c, left |-> left,
           st |-> IF c = ">" /\ o2 < 0 THEN "fail" ELSE IF left = 0 THEN "stop" ELSE "go"]
RECURSIVE Chars(_, _, _)
Chars(q, t, i) == IF i > Len(t) THEN q ELSE Chars(Char(q, t[i]), t, i + 1)
Init == toks = <<>> /\ s = Start /\ r = R0 /\ n = 0
Next == /\ Len(toks) < MaxToks /\ s.phase \notin {"bad", "done"}
        /\ \E k \in DOMAIN Texts : \E t \in Texts[k] :
             /\ (s.phase = "decl" => k \notin {"open", "empty"})    \* a stream with an element first is no document of this library
             /\ (s.phase = "root" => k # "decl") /\ (s.depth > 0 => k # "junk")
             /\ toks' = Append(toks, <<k, Len(t)>>) /\ s' = Read(s, k) /\ r' = Chars(r, t, 1) /\ n' = n + Len(t)
Spec == Init /\ [][Next]_vars
Agrees == CASE s.phase = "done" -> r.st = "stop" [] s.phase = "bad" -> r.st = "fail" [] OTHER -> r.st = "go"
Whole == s.phase = "done" => First(toks, 1, Start, 0, n) = n /\ Documents(toks \o toks, 2 * n) = <<n, n>> /\ First(toks, 1, Start, 0, n - 1) = 0
=============================================================================
