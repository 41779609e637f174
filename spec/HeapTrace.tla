----------------------------- MODULE HeapTrace -----------------------------
(***************************************************************************)
(* Validation of what the library did with the objects.  The state is the  *)
(* meaning of the current source object; every event of the driver must be *)
(* a behaviour the specification allows, otherwise the properties it breaks*)
(* are written to VF_OUT.                                                  *)
(***************************************************************************)
EXTENDS Graph

Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, src, hp, root, odd   \* odd: some size covers a part of an element, which is not kept
vars == <<l, src, hp, root, odd>>

E == Trace[l]
Is(n) == E.ev = n

HeapOf(e) == [blocks |-> e.blocks,
              mem |-> [x \in {<<e.cells[i].b, e.cells[i].p>> : i \in 1..Len(e.cells)} |->
                         e.cells[CHOOSE i \in 1..Len(e.cells) : e.cells[i].b = x[1] /\ e.cells[i].p = x[2]].c]]

ReportK(kind, key, why) == Serialize(ToJson([sc |-> E.sc, ev |-> E.ev, fmt |-> IF "fmt" \in DOMAIN E THEN E.fmt ELSE "", kind |-> kind, key |-> key, why |-> why]) \o "\n",
                         IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Report(kind, why) == ReportK(kind, "", why)
Need(ok, kind, why) == IF ok THEN TRUE ELSE Report(kind, why)

\* first difference of two meanings, for the report
Diff(a, b) == IF Len(a) # Len(b) THEN "sizes " \o ToString(Len(a)) \o " " \o ToString(Len(b))
              ELSE LET i == CHOOSE j \in 1..Len(a) : a[j] # b[j] /\ \A k \in 1..(j-1) : a[k] = b[k] IN ToString(<<i, a[i], b[i]>>)
Same(a, b, kind, what) == IF a = b THEN TRUE ELSE Report(kind, what \o " " \o Diff(a, b))

(***************************************************************************)
(* Known finding "merged-extent": ranges of one buffer that overlap are    *)
(* saved as the range of the pointer that starts first, and loading gives  *)
(* this pointer the length of the whole union.  Everything else about the  *)
(* loaded object has to be right.                                          *)
(***************************************************************************)
SizedLocs(h) == {x \in DOMAIN h.mem : h.mem[x].k = "r" /\ h.mem[x].b # 0 /\ h.mem[x].n > 0}
Overlap(h, x, y) == LET a == h.mem[x] b == h.mem[y] IN a.b = b.b /\ a.pre = b.pre /\ a.i < b.i + b.n /\ b.i < a.i + a.n
RECURSIVE Grow(_, _)
Grow(h, S) == LET T == {y \in SizedLocs(h) : \E x \in S : Overlap(h, x, y)} IN IF T = S THEN S ELSE Grow(h, T)
Components(h) == {Grow(h, {x}) : x \in SizedLocs(h)}
EndOf(h, C) == CHOOSE e \in {h.mem[x].i + h.mem[x].n : x \in C} : \A x \in C : h.mem[x].i + h.mem[x].n <= e
Holders(h, C) == {x \in C : (\A y \in C : h.mem[x].i <= h.mem[y].i) /\ h.mem[x].i + h.mem[x].n < EndOf(h, C)}
Mergeable(h) == {C \in Components(h) : Holders(h, C) # {}}
SizeLoc(h, x) == <<x[1], h.mem[x].sz>>
Extended(h, S) == LET sizes == {SizeLoc(h, x) : x \in S}
                      Of(y) == CHOOSE x \in S : SizeLoc(h, x) = y
                      Len2(x) == EndOf(h, Grow(h, {x})) - h.mem[x].i
                  IN [h EXCEPT !.mem = [y \in DOMAIN h.mem |->
                        IF y \in S THEN [h.mem[y] EXCEPT !.n = Len2(y)]
                        ELSE IF y \in sizes THEN [h.mem[y] EXCEPT !.v = ToString(Len2(Of(y)) * h.mem[Of(y)].es)]
                        ELSE h.mem[y]]]
RECURSIVE HolderSets(_, _)
HolderSets(h, Cs) == IF Cs = {} THEN {{}} ELSE LET C == CHOOSE C \in Cs : TRUE
                                            R == HolderSets(h, Cs \ {C})
                                        IN R \cup {r \cup {x} : r \in R, x \in Holders(h, C)}
MergedExtent(got) == hp.blocks # <<>> /\ \E S \in HolderSets(hp, Mergeable(hp)) \ {{}} : Meaning(Extended(hp, S), 1, "0", root) = got
SameMerged(a, b, kind, what) == IF a = b THEN TRUE ELSE IF MergedExtent(b) THEN ReportK(kind, "merged-extent", what \o " " \o Diff(a, b)) ELSE Report(kind, what \o " " \o Diff(a, b))

Perm(s) == SortSeq(s, LAMBDA x, y : x < y)

(***************************************************************************)
(* Ownership after a load or a copy: the blocks left from the call are     *)
(* exactly those the object lives in; releasing it releases exactly those, *)
(* each once, and nothing else.                                            *)
(***************************************************************************)
Ownership ==
  /\ Need(E.foreign = 0, "own", "object refers to memory outside of its own blocks")
  /\ Need(E.live = E.owned, "own", "blocks left allocated are not the blocks of the object")
  /\ Need(E.fst = 1, "free", "free failed")
  /\ Need(Perm(E.freed) = E.live, "free", "released blocks are not the blocks of the object, each once")
  /\ Need(E.left = 0, "free", "blocks left after free")
  /\ Need(E.bad = 0, "free", "address released that is not an allocated block")
Quiet == /\ Need(E.leak = 0, "leak", "blocks left after the operation")
         /\ Need(E.badf = 0, "leak", "address released that is not an allocated block")

-----------------------------------------------------------------------------
TrScenario == /\ Is("sc")
              /\ src' = Meaning(HeapOf(E), 1, "0", E.root)
              /\ root' = E.root
              /\ hp' = HeapOf(E)
              /\ odd' = \E i \in 1..Len(E.cells) : "raw" \in DOMAIN E.cells[i].c /\ E.cells[i].c.raw # E.cells[i].c.v
TrBuilt == /\ Is("built")
           /\ Same(src, E.nodes, "machinery", "built")
           /\ UNCHANGED <<src, hp, root, odd>>
TrRoundTrip ==
  /\ Is("rt")
  /\ Need(E.ss = 1, "rt", "save failed")
  /\ IF E.ss = 1 THEN
       /\ Need(E.ls = 1, "rt", "load failed")
       /\ IF E.ls = 1
          THEN /\ SameMerged(src, E.nodes, "rt", "loaded object differs")
               /\ Need(E.same = 1 \/ odd \/ (src # E.nodes /\ MergedExtent(E.nodes)), "same", "document of the loaded object differs")
               /\ IF E.fmt = "XDR" THEN Need(E.pos = 1, "rt", "loader did not stop at the end of the stream") /\ SameMerged(src, E.nodes2, "rt", "second object in stream differs")
                  ELSE Need(E.sl = 0, "leak", "save leaks")
               /\ Ownership
          ELSE Need(E.ll = 0, "leak", "failed load leaks")
     ELSE TRUE
  /\ Quiet
  /\ UNCHANGED <<src, hp, root, odd>>
\* a document that means the object, written by the specification
TrDocument ==
  /\ Is("doc")
  /\ Need(E.ls = 1, "doc", "load failed")
  /\ IF E.ls = 1 THEN Same(src, E.nodes, "doc", "loaded object differs") /\ Ownership
     ELSE Need(E.ll = 0, "leak", "failed load leaks")
  /\ Quiet
  /\ UNCHANGED <<src, hp, root, odd>>
TrCopy ==
  /\ Is("copy")
  /\ Need(E.cs = 1, "copy", "copy failed")
  /\ IF E.cs = 1
     THEN /\ Same(src, E.nodes, "copy", "copy differs")
          /\ Same(src, E.src, "copysrc", "source changed by copy")
          /\ Same(src, E.src2, "copysrc", "source changed by hash, compare or free of the copy")
          /\ Need(E.heq = 1, "hash", "copy has another hash")
          /\ Need(E.c1 = 0 /\ E.c2 = 0 /\ E.c3 = 0, "cmp", "copy does not compare equal")
          /\ Ownership
     ELSE TRUE
  /\ Quiet
  /\ UNCHANGED <<src, hp, root, odd>>
\* start entries that only hold the content of a string are outside of the tree
TrGraph ==
  /\ Is("graph")
  /\ Need(E.ok = 1, "graph", "save failed")
  /\ IF E.ok = 1
     THEN /\ LET w == WhyNot(hp, E.g, root, TRUE) IN Need(w = {}, "graph", "descriptor list: " \o ToString(w))
          /\ \A i \in 1..Len(E.dfs) : Need(DfsOk(E.g, E.dfs[i]), "dfs", "visit from " \o ToString(E.dfs[i].start) \o " stopping at " \o ToString(E.dfs[i].stop))
          /\ Need(RemovalOk(E.g, E.g2), "prune", "removal of empty entries")
          /\ LET r == {e \in 1..Len(E.g2) : e \in Range(Preorder(E.g))} \ Range(Preorder(E.g2))
            IN IF r # {} THEN TRUE
               ELSE LET w == WhyNot(hp, E.g3, root, FALSE) IN Need(w = {}, "reorder", "descriptor list after reordering strings: " \o ToString(w))
     ELSE TRUE
  /\ Same(src, E.nodes, "graph", "object changed by the save")
  /\ Quiet
  /\ UNCHANGED <<src, hp, root, odd>>
(***************************************************************************)
(* One operation with failing allocations: row k is the call whose k-th    *)
(* allocation fails (mode 0), or all from the k-th on (mode 1).            *)
(***************************************************************************)
FaultWhy(op, r) ==
  [hit |-> r[3], ok |-> r[4], eq |-> r[5], leak |-> r[6], bad |-> r[7], src |-> r[8], again |-> r[9]]
FaultRow(op, r) ==
  LET f == FaultWhy(op, r) IN
  /\ f.hit = 0 => f.ok = 1                    \* only a missing block may make it fail
  /\ f.eq = 1                                 \* success: right result; a failed release releases nothing
  /\ f.leak = 0 /\ f.bad = 0                 \* nothing lost, nothing foreign released
  /\ f.src = 1                                \* source untouched
  /\ f.again = 1                              \* the next call succeeds
TrFault ==
  /\ Is("fault")
  /\ Need(E.st = 1 /\ E.leak = 0 /\ E.bad = 0, "fault", "undisturbed call failed")
  /\ IF E.st = 1 /\ E.op \in {"load", "copy"} /\ ~(E.op = "load" /\ src # E.nodes /\ MergedExtent(E.nodes)) THEN Same(src, E.nodes, "fault", "result differs") ELSE TRUE
  /\ LET wrong == {i \in 1..Len(E.rows) : ~FaultRow(E.op, E.rows[i])}
     IN IF wrong = {} THEN TRUE ELSE LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j
                      IN Report("fault", E.op \o " " \o E.fmt \o " with allocation " \o ToString(E.rows[i][1]) \o (IF E.rows[i][2] = 1 THEN " and later ones" ELSE "") \o " failing: " \o ToString(FaultWhy(E.op, E.rows[i])) \o ", failing rows: " \o ToString(Cardinality(wrong)))
  /\ UNCHANGED <<src, hp, root, odd>>
TrOther == /\ E.ev \notin {"sc", "built", "rt", "copy", "graph", "fault", "doc"}
           /\ UNCHANGED <<src, hp, root, odd>>

TraceInit == l = 1 /\ src = <<>> /\ hp = [blocks |-> <<>>, mem |-> <<>>] /\ root = "" /\ odd = FALSE
TraceNext == /\ l <= Len(Trace)
             /\ (TrScenario \/ TrBuilt \/ TrRoundTrip \/ TrDocument \/ TrCopy \/ TrGraph \/ TrFault \/ TrOther)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
