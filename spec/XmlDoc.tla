------------------------------- MODULE XmlDoc -------------------------------
(***************************************************************************)
(* Documents in a stream: white space, an XML declaration, white space and *)
(* one element.  A stream is a sequence of tokens <<kind, length>> with    *)
(* kinds decl, open, close, empty, text, ws, junk, nul.  The state of reading   *)
(* is what has been seen of the current document.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Start == [phase |-> "decl", depth |-> 0]
Bad == [phase |-> "bad", depth |-> 0]
Done == [phase |-> "done", depth |-> 0]
Read(s, kind) ==
  CASE s.phase \in {"bad", "done"} -> s
    [] kind = "ws" -> s
    [] s.phase = "decl" -> IF kind = "decl" THEN [phase |-> "root", depth |-> 0] ELSE Bad
    [] s.depth = 0 -> CASE kind = "open" -> [s EXCEPT !.depth = 1] [] kind = "empty" -> Done [] OTHER -> Bad
    [] OTHER -> CASE kind = "open" -> [s EXCEPT !.depth = @ + 1]
                  [] kind = "close" -> IF s.depth = 1 THEN Done ELSE [s EXCEPT !.depth = @ - 1]
                  [] kind \in {"text", "empty"} -> s
                  [] OTHER -> Bad
(* number of bytes of the first complete document that lies within the first avail bytes, 0 if there is none *)
RECURSIVE First(_, _, _, _, _)
First(toks, i, s, len, avail) ==
  IF s.phase = "done" THEN len
  ELSE IF s.phase = "bad" \/ i > Len(toks) THEN 0
  ELSE IF len + toks[i][2] > avail THEN 0
  ELSE First(toks, i + 1, Read(s, toks[i][1]), len + toks[i][2], avail)
(* tokens left after n bytes; n ends at a token *)
RECURSIVE After(_, _)
After(toks, n) == IF n = 0 THEN toks ELSE After(Tail(toks), n - Head(toks)[2])
(* lengths of the documents read one by one *)
RECURSIVE Documents(_, _)
Documents(toks, avail) == LET n == First(toks, 1, Start, 0, avail) IN IF n = 0 THEN <<>> ELSE <<n>> \o Documents(After(toks, n), avail - n)
=============================================================================
