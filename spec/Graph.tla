-------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* The descriptor list a save produces, as a tree of entries over an       *)
(* object (Heap): what the entry of each location has to look like, what   *)
(* removing empty entries leaves, and the order of a depth-first visit.    *)
(* An entry is a record                                                    *)
(*   mt, aux   kind of the value, and of what it points to / consists of   *)
(*   b, o      place of the value: block and byte offset                   *)
(*   nm, ty    name of the field, name of the type (structures, enums)     *)
(*   un        without a name of its own (root, elements, contents)        *)
(*   par, nx, fc   parent, next sibling, first child (0: none); for a      *)
(*             reference (re) and a content reference (cr) fc is the target*)
(*   nu        null; rd  something refers to it; idx  number in the visit  *)
(***************************************************************************)
EXTENDS Heap

Chain(gr, e) ==   \* e and its following siblings; <<0>> at the end marks a broken or endless chain
  LET RECURSIVE C(_, _)
      C(i, n) == IF i = 0 THEN <<>> ELSE IF i > Len(gr) \/ n > Len(gr) THEN <<0>> ELSE <<i>> \o C(gr[i].nx, n + 1)
  IN C(e, 0)
IsRef(d) == d.re = 1 \/ d.cr = 1
Kids(gr, e) == IF IsRef(gr[e]) THEN <<>> ELSE Chain(gr, gr[e].fc)

(***************************************************************************)
(* Byte offset of every location of a heap.                                *)
(***************************************************************************)
RECURSIVE Offs(_, _, _, _, _)
Offs(heap, b, path, t, o) ==
  LET td == Ty(t)
      sub == CASE td.k = "struct" -> FlattenSeq([i \in 1..Len(td.f) |-> Offs(heap, b, path \o "." \o td.f[i].n, td.f[i].t, o + td.f[i].off)])
               [] td.k \in {"arr", "larr"} -> FlattenSeq([i \in 1..td.n |-> Offs(heap, b, path \o "." \o ToString(i - 1), td.elem, o + (i - 1) * Ty(td.elem).size)])
               [] td.k = "union" -> IF <<b, path>> \in DOMAIN heap.mem
                                    THEN LET i == heap.mem[<<b, path>>].i IN Offs(heap, b, path \o "." \o td.f[i].n, td.f[i].t, o + td.f[i].off) ELSE <<>>
               [] OTHER -> <<>>
  IN <<[b |-> b, p |-> path, o |-> o]>> \o sub
OffsetMap(heap) ==
  LET all == FlattenSeq([b \in 1..Len(heap.blocks) |-> LET t == heap.blocks[b].t IN
               FlattenSeq([i \in 1..(IF t = "text" THEN 1 ELSE heap.blocks[b].n) |-> Offs(heap, b, ToString(i - 1), t, (i - 1) * Ty(t).size)])])
      idx == [x \in {<<all[i].b, all[i].p>> : i \in 1..Len(all)} |-> 0]
  IN [x \in DOMAIN idx |-> (CHOOSE i \in Range(all) : i.b = x[1] /\ i.p = x[2]).o]

(***************************************************************************)
(* Check of the entry e for the location path in block b of type t.        *)
(* Returns a sequence of facts:                                            *)
(*   [f |-> "at", e, b, p, t]      e is the entry of that location         *)
(*   [f |-> "ref", e, to, b, p, t] e refers to "to", meant is the location *)
(*   [f |-> "rng", e, to, b, pre, i, n, t]  ... the n elements from there  *)
(*   [f |-> "bad", e, why]                                                 *)
(***************************************************************************)
Bad(e, why) == <<[f |-> "bad", e |-> e, why |-> why]>>
If(c, e, why) == IF c THEN <<>> ELSE Bad(e, why)
AuxMatters == {"POINTER", "ARRAY", "BITFIELD", "ENUM"}

RECURSIVE Facts(_, _, _, _, _, _, _, _, _, _)
\* off: offsets; nm: name of the nearest named field; un: 1 if the entry has no name of its own
Facts(heap, off, gr, e, b, path, t, nm, un, par) ==
  IF e = 0 \/ e > Len(gr) THEN Bad(e, "no entry for " \o path) ELSE
  LET d  == gr[e]
      td == Ty(t)
      k  == Kids(gr, e)
      cell == heap.mem[<<b, path>>]
      Plain == If(~IsRef(d) /\ d.nu = 0, e, "should be an ordinary entry")
      NoKids == If(~IsRef(d) /\ d.fc = 0, e, "should have no children")
      NullIf(c) == If((d.nu = 1) = c, e, "null mark")
      Count(n) == If(Len(k) = n, e, "number of children")
      Base == <<[f |-> "at", e |-> e, b |-> b, p |-> path, t |-> t]>>
           \o If(d.par = par, e, "parent") \o If(d.un = un, e, "unnamed mark") \o If(d.nm = nm, e, "name " \o d.nm \o " instead of " \o nm)
           \o If(d.mt = td.mt, e, "kind " \o d.mt \o " instead of " \o td.mt)
           \o If(td.mt \notin AuxMatters \/ td.aux = "" \/ d.aux = td.aux, e, "underlying kind " \o d.aux \o " instead of " \o td.aux)
           \o If(td.tn = "" \/ d.ty = td.tn, e, "type name " \o d.ty \o " instead of " \o td.tn)
           \o If(IsBitField(t) \/ (d.b = b /\ d.o = off[<<b, path>>]), e, "place")
      Sub(list) == FlattenSeq([i \in 1..Len(list) |-> LET s == list[i] IN
                     IF <<s.b, s.p>> \notin DOMAIN off THEN Bad(s.e, "no such location " \o s.p) ELSE Facts(heap, off, gr, s.e, s.b, s.p, s.t, s.nm, s.un, s.par)])
  IN Base \o
     CASE td.k = "leaf" /\ td.mt = "ARRAY" -> \* an array of characters is one value for the specification
            Plain \o Count(td.n)
            \o FlattenSeq([i \in 1..Len(k) |-> If(k[i] # 0 /\ gr[k[i]].mt = "CHAR" /\ gr[k[i]].b = b /\ gr[k[i]].o = off[<<b, path>>] + i - 1 /\ gr[k[i]].par = e /\ gr[k[i]].fc = 0 /\ gr[k[i]].nm = nm, e, "characters")
                                             \o <<[f |-> "at", e |-> k[i], b |-> b, p |-> path \o "." \o ToString(i - 1), t |-> "char"]>>])
       [] td.k = "leaf" -> NoKids \o NullIf(td.mt = "FUNC_TYPE" /\ cell.v = "null")
       [] td.k = "str" ->
            IF cell.b = 0 THEN NoKids \o NullIf(TRUE)
            ELSE NullIf(FALSE) \o If(d.re = 0, e, "string as a reference")
                 \o (IF d.cr = 1 THEN <<[f |-> "ref", e |-> e, to |-> d.fc, b |-> cell.b, p |-> cell.p, t |-> "text"]>>
                     ELSE If(d.fc = 0, e, "content of the string still linked") \o <<[f |-> "at", e |-> e, b |-> cell.b, p |-> cell.p, t |-> "text"]>>)
       [] td.k = "ptr" ->
            IF cell.b = 0 THEN NoKids \o NullIf(TRUE)
            ELSE NullIf(FALSE) \o If(d.cr = 0, e, "content reference")
                 \o (IF d.re = 1 THEN <<[f |-> "ref", e |-> e, to |-> d.fc, b |-> cell.b, p |-> cell.p, t |-> td.elem]>>
                     ELSE Count(1) \o If(d.sz = Ty(td.elem).size, e, "size") \o (IF Len(k) = 0 THEN <<>> ELSE Facts(heap, off, gr, k[1], cell.b, cell.p, td.elem, nm, 1, e)))
       [] td.k = "rptr" ->
            IF cell.b = 0 \/ cell.n = 0 THEN NoKids \o NullIf(TRUE)
            ELSE NullIf(FALSE) \o If(d.cr = 0, e, "content reference")
                 \o (IF d.re = 1 THEN <<[f |-> "rng", e |-> e, to |-> d.fc, b |-> cell.b, pre |-> cell.pre, i |-> cell.i, n |-> cell.n, t |-> td.elem]>>
                     ELSE If(Len(k) >= cell.n, e, "number of elements") \o If(d.sz \div Ty(td.elem).size = Len(k), e, "size of the elements")
                          \o Sub([i \in 1..Len(k) |-> [e |-> k[i], par |-> e, b |-> cell.b, p |-> cell.pre \o ToString(cell.i + i - 1), t |-> td.elem, nm |-> nm, un |-> 1]]))
       [] td.k \in {"arr", "larr"} ->
            LET n == IF td.k = "arr" THEN td.n ELSE cell.n
            IN Plain \o Count(n) \o Sub([i \in 1..Len(k) |-> [e |-> k[i], par |-> e, b |-> b, p |-> path \o "." \o ToString(i - 1), t |-> td.elem, nm |-> nm, un |-> 1]])
       [] td.k = "struct" ->
            Plain \o Count(Len(td.all))
            \o (IF Len(k) # Len(td.all) THEN <<>>
                ELSE FlattenSeq([i \in 1..Len(k) |->
                       LET f == td.all[i] c == k[i] IN
                       IF f.t # "void" THEN Facts(heap, off, gr, c, b, path \o "." \o f.n, f.t, f.n, 0, e)
                       ELSE <<[f |-> "at", e |-> c, b |-> b, p |-> path \o "." \o f.n, t |-> "void"]>>
                            \o If(c # 0 /\ gr[c].mt = "VOID" /\ gr[c].nm = f.n /\ gr[c].par = e /\ gr[c].fc = 0 /\ ~IsRef(gr[c]) /\ gr[c].nu = 0 /\ gr[c].rd = 0, c, "excluded field")]))
       [] td.k = "union" ->
            Plain \o Count(1) \o (IF Len(k) = 0 THEN <<>> ELSE Facts(heap, off, gr, k[1], b, path \o "." \o td.f[cell.i].n, td.f[cell.i].t, td.f[cell.i].n, 0, e))

-----------------------------------------------------------------------------
Preorder(gr) == LET RECURSIVE V(_)
                    V(e) == <<e>> \o (LET k == Kids(gr, e) IN FlattenSeq([i \in 1..Len(k) |-> IF k[i] = 0 THEN <<0>> ELSE V(k[i])]))
                IN V(1)
SharedKind(t) == t # "void" /\ Ty(t).k \notin {"ptr", "rptr", "arr", "larr", "union"} /\ ~IsBitField(t) /\ Ty(t).mt # "ARRAY"

\* Reasons why the list is not the tree of the object whose root is block 1 of the heap; strict: as saved, before later passes
WhyNot(heap, gr, root, strict) ==
  IF Len(gr) = 0 THEN {"empty list"} ELSE
  LET off   == OffsetMap(heap)
      fs    == Facts(heap, off, gr, 1, 1, "0", root, root, 1, 0)
      F     == Range(fs)
      At    == {x \in F : x.f = "at"}
      atOf  == [e \in {x.e : x \in At} |-> {x \in At : x.e = e}]
      IsAt(e, b, p, t) == e \in DOMAIN atOf /\ \E x \in atOf[e] : x.b = b /\ x.p = p /\ x.t = t
      RefOk(x) == IsAt(x.to, x.b, x.p, x.t) /\ gr[x.to].rd = 1 /\ (x.t = "text" => ~IsRef(gr[x.to]))
      RngOk(x) == LET c == IF x.to \in 1..Len(gr) THEN Chain(gr, x.to) ELSE <<>> IN
                  /\ Len(c) >= x.n
                  /\ gr[x.to].rd = 1
                  /\ \A j \in 1..x.n : IsAt(c[j], x.b, x.pre \o ToString(x.i + j - 1), x.t)
      structural == {x \in F : x.f = "at" /\ x.t # "text"}
      order == Preorder(gr)
      listed == Range(order)
      reffed == {x.to : x \in {y \in F : y.f \in {"ref", "rng"}}}
  IN {ToString(<<x.e, x.why>>) : x \in {y \in F : y.f = "bad"}}
     \cup {ToString(<<x.e, "reference to the wrong entry", x.to>>) : x \in {y \in F : y.f = "ref" /\ ~RefOk(y)}}
     \cup {ToString(<<x.e, "range reference to the wrong entries", x.to>>) : x \in {y \in F : y.f = "rng" /\ ~RngOk(y)}}
     \cup {ToString(<<x.e, y.e, "two entries for one value", x.p>>) : <<x, y>> \in {z \in {w \in At : SharedKind(w.t)} \X {w \in At : SharedKind(w.t)} : z[1].e < z[2].e /\ z[1].b = z[2].b /\ z[1].p = z[2].p /\ z[1].t = z[2].t}}
     \cup (IF Len(order) = Cardinality(listed) THEN {} ELSE {"an entry is reached twice"})
     \cup (IF listed = {x.e : x \in structural} THEN {} ELSE {"entries in the tree are not the entries of the object"})
     \cup {ToString(<<e, "entry outside of the tree">>) : e \in {z \in (1..Len(gr)) \ listed : ~(gr[z].mt = "CHAR_ARRAY" /\ gr[z].par \in listed /\ gr[gr[z].par].mt = "STRING" /\ (strict => gr[gr[z].par].cr = 0))}}
     \cup (IF strict THEN {ToString(<<e, "marked as referenced but is not">>) : e \in {z \in listed : gr[z].rd = 1 /\ z \notin reffed}} ELSE {})
     \cup (IF \A i \in 1..Len(order) : order[i] = 0 \/ ~strict \/ gr[order[i]].idx = i THEN {} ELSE {"numbers are not the order of the visit"})

(***************************************************************************)
(* Removal of empty entries: inside structures and unions, an entry of a   *)
(* structural kind nothing refers to is dropped when it has no children    *)
(* left.  Everything else stays as it is, numbered anew.                   *)
(***************************************************************************)
Structural == {"STRUCT", "UNION", "ANON_UNION", "NAMED_ANON_UNION"}
RECURSIVE Left(_, _)
Left(gr, e) == LET k == Kids(gr, e)
                   Empty(c) == gr[c].mt \in Structural \cup {"VOID", "ARRAY"} /\ gr[c].rd = 0 /\ ~IsRef(gr[c]) /\ Left(gr, c) = <<>>
               IN IF gr[e].mt \in Structural THEN SelectSeq(k, LAMBDA c : ~Empty(c)) ELSE k
Strip(d) == [d EXCEPT !.fc = IF IsRef(d) THEN d.fc ELSE 0, !.nx = 0, !.idx = 0]
RemovalOk(gr, g2) ==
  /\ Len(g2) = Len(gr)
  /\ LET o2 == Preorder(g2)
     IN /\ \A e \in Range(o2) : e # 0 /\ Kids(g2, e) = Left(gr, e) /\ Strip(g2[e]) = Strip(gr[e])
        /\ \A i \in 1..Len(o2) : g2[o2[i]].idx = i

(***************************************************************************)
(* Depth-first visit from an entry: it, its children, it again; only what  *)
(* is below it; stops at the first callback that fails.                    *)
(***************************************************************************)
RECURSIVE Dfs(_, _, _)
Dfs(gr, e, level) == <<<<e, level, 0>>>> \o (LET k == Kids(gr, e) IN FlattenSeq([i \in 1..Len(k) |-> Dfs(gr, k[i], level + 1)])) \o <<<<e, level, 1>>>>
DfsOk(gr, v) == LET all == Dfs(gr, v.start, 0)
                    n == IF v.stop = 0 \/ v.stop > Len(all) THEN Len(all) ELSE v.stop
                IN v.v = SubSeq(all, 1, n) /\ v.st = (IF v.stop = 0 \/ v.stop > Len(all) THEN 1 ELSE 0)
=============================================================================
