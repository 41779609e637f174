-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Objects described to the library, as a heap of typed blocks.            *)
(*                                                                         *)
(* A heap is a record                                                      *)
(*   blocks : sequence of [t |-> type, n |-> elements, v |-> text]         *)
(*   mem    : function from location <<block, path>> to its content        *)
(* Only primitive cells have a content:                                    *)
(*   leaf        [k |-> "v", v |-> canonical text of the value]            *)
(*   pointer     [k |-> "p", b |-> target block (0: null), p |-> path]     *)
(*   sized ptr   [k |-> "r", b, pre, i, n, x]: n elements pre\o(i..i+n-1), *)
(*               x odd bytes                                               *)
(*   sized array [k |-> "l", n |-> elements in use, x |-> odd bytes]       *)
(*   union       [k |-> "u", i |-> active branch]                          *)
(* The schema (types, fields, discriminators, sizes) comes from the same   *)
(* table the C declarations are generated from.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Schema == JsonDeserialize(IOEnv.VF_SCHEMA)
Ty(t) == Schema.types[t]
Roots == Schema.roots

Null == [k |-> "p", b |-> 0, p |-> ""]
NoField == [n |-> "", t |-> "", sz |-> "", disc |-> ""]
IsSize(td, name) == \E i \in 1..Len(td.f) : td.f[i].sz = name
IsDisc(td, name) == \E i \in 1..Len(td.f) : td.f[i].disc = name
IsBitField(t) == Ty(t).bf = 1
FieldIdx(td, name) == CHOOSE i \in 1..Len(td.f) : td.f[i].n = name

(***************************************************************************)
(* Primitive cells of a location of type t, in declaration order; sp is    *)
(* the path of the enclosing structure and f its field.                    *)
(***************************************************************************)
RECURSIVE Cells(_, _, _, _, _)
Cells(t, path, st, sp, f) ==
  LET td == Ty(t) IN
  CASE td.k = "struct" -> FlattenSeq([i \in 1..Len(td.f) |-> Cells(td.f[i].t, path \o "." \o td.f[i].n, t, path, td.f[i])])
    [] td.k = "arr" -> FlattenSeq([i \in 1..td.n |-> Cells(td.elem, path \o "." \o ToString(i - 1), "", "", NoField)])
    [] td.k = "text" -> <<>>
    [] OTHER -> <<[p |-> path, t |-> t, st |-> st, sp |-> sp, f |-> f]>>

BlockCells(t, n) == FlattenSeq([i \in 1..n |-> Cells(t, ToString(i - 1), "", "", NoField)])

(***************************************************************************)
(* Locations something may point to, before unions and sized arrays inside *)
(* have been decided (size fields only if whole: sizes are not odd).       *)
(***************************************************************************)
RECURSIVE Locs(_, _, _)
Locs(t, path, whole) ==
  LET td == Ty(t) IN
  CASE td.k = "struct" -> <<[t |-> t, p |-> path]>> \o FlattenSeq([i \in 1..Len(td.f) |-> IF ~whole /\ IsSize(td, td.f[i].n) THEN <<>> ELSE Locs(td.f[i].t, path \o "." \o td.f[i].n, whole)])
    [] td.k = "arr" -> <<[t |-> t, p |-> path]>> \o FlattenSeq([i \in 1..td.n |-> Locs(td.elem, path \o "." \o ToString(i - 1), whole)])
    [] td.k \in {"union", "larr"} -> <<>>
    [] IsBitField(t) -> <<>>
    [] OTHER -> <<[t |-> t, p |-> path]>>

(***************************************************************************)
(* The meaning of an object: the graph of typed locations reachable from   *)
(* its root, numbered in order of first visit.  Two objects are equal with *)
(* the same sharing exactly when these graphs are the same sequence.       *)
(***************************************************************************)
Node(k, v, c) == [k |-> k, v |-> v, c |-> c]

RECURSIVE Visit(_, _, _, _, _)
RECURSIVE VisitAll(_, _, _, _, _)
Visit(heap, acc, b, path, t) ==
  LET td  == Ty(t)
      key == <<b, path, t>>
  IN IF key \in DOMAIN acc.ids /\ ~IsBitField(t) THEN [acc EXCEPT !.last = acc.ids[key]]
     ELSE LET id   == Len(acc.nodes) + 1
              acc1 == [nodes |-> Append(acc.nodes, <<>>), ids |-> acc.ids @@ (key :> id), last |-> id]
              Fin(kids, r, k, v) == [nodes |-> [r.nodes EXCEPT ![id] = Node(k, v, kids)], ids |-> r.ids, last |-> id]
              cell == heap.mem[<<b, path>>]
          IN CASE td.k = "leaf" -> Fin(<<>>, acc1, "v", cell.v)
               [] td.k = "text" -> Fin(<<>>, acc1, "t", heap.blocks[b].v)
               [] td.k \in {"str", "ptr"} ->
                    IF cell.b = 0 THEN Fin(<<>>, acc1, "p", "null")
                    ELSE LET r == Visit(heap, acc1, cell.b, cell.p, td.elem) IN Fin(<<r.last>>, r, "p", "p")
               [] td.k = "rptr" ->
                    IF cell.b = 0 \/ cell.n = 0 THEN Fin(<<>>, acc1, "p", "null")
                    ELSE LET r == VisitAll(heap, [a |-> acc1, c |-> <<>>], cell.b, [i \in 1..cell.n |-> [p |-> cell.pre \o ToString(cell.i + i - 1), t |-> td.elem]], 1)
                         IN Fin(r.c, r.a, "r", ToString(cell.n))
               [] td.k \in {"arr", "larr"} ->
                    LET n == IF td.k = "arr" THEN td.n ELSE cell.n
                        r == VisitAll(heap, [a |-> acc1, c |-> <<>>], b, [i \in 1..n |-> [p |-> path \o "." \o ToString(i - 1), t |-> td.elem]], 1)
                    IN Fin(r.c, r.a, "a", ToString(n))
               [] td.k = "struct" ->
                    LET r == VisitAll(heap, [a |-> acc1, c |-> <<>>], b, [i \in 1..Len(td.f) |-> [p |-> path \o "." \o td.f[i].n, t |-> td.f[i].t]], 1)
                    IN Fin(r.c, r.a, "s", t)
               [] td.k = "union" ->
                    LET r == Visit(heap, acc1, b, path \o "." \o td.f[cell.i].n, td.f[cell.i].t) IN Fin(<<r.last>>, r, "u", td.f[cell.i].n)
VisitAll(heap, ac, b, list, i) ==
  IF i > Len(list) THEN ac
  ELSE LET r == Visit(heap, ac.a, b, list[i].p, list[i].t) IN VisitAll(heap, [a |-> r, c |-> Append(ac.c, r.last)], b, list, i + 1)

Meaning(heap, b, path, t) == Visit(heap, [nodes |-> <<>>, ids |-> <<>>, last |-> 0], b, path, t).nodes

(***************************************************************************)
(* The branch a discriminator text selects: the first branch unless the    *)
(* table of the union names the value.                                     *)
(***************************************************************************)
BranchOf(td, txt) ==
  LET hits == {j \in 1..Len(td.br) : td.br[j][1] = txt}
  IN IF hits = {} THEN 1 ELSE FieldIdx(td, td.br[CHOOSE j \in hits : TRUE][2])
=============================================================================
