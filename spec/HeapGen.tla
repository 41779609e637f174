------------------------------ MODULE HeapGen ------------------------------
(***************************************************************************)
(* Construction of objects: every primitive cell of every block is given a *)
(* content once, in the order of a work list; pointers are set to null, to *)
(* anything of the right type that exists already (a block, a member, an   *)
(* array element, a range of elements) or to a new block.  Every described *)
(* object can be built this way, so in exhaustive mode (Random = FALSE) TLC*)
(* visits every object within the bounds; with -simulate (Random = TRUE)   *)
(* it samples large ones.  Finished objects are written to VF_OUT.         *)
(***************************************************************************)
EXTENDS Heap

CONSTANTS Random
Prof == JsonDeserialize(IOEnv.VF_PROFILE)   \* root types, weights, bounds
Dom == Prof.dom                             \* canonical leaf texts per type or per "struct.field"
MaxBlocks == Prof.maxblocks

VARIABLES root, blocks, mem, todo, locs, arrs, done
vars == <<root, blocks, mem, todo, locs, arrs, done>>

heap == [blocks |-> blocks, mem |-> mem]

DomOf(c) == IF c.st # "" /\ (c.st \o "." \o c.f.n) \in DOMAIN Dom THEN Dom[c.st \o "." \o c.f.n] ELSE Dom[c.t]
TextDom(c) == IF c.st # "" /\ (c.st \o "." \o c.f.n) \in DOMAIN Dom THEN Dom[c.st \o "." \o c.f.n] ELSE Dom["text"]

\* Sharing is kept for values, texts, structures and unions.  A plain pointer variable or an array that another
\* pointer designates as a whole is a part of that pointer for the library (its descriptors of these kinds never match).
Shareable(t) == Ty(t).k \notin {"ptr", "rptr", "arr", "larr"}
Cand(t) == IF Shareable(t) /\ t \in DOMAIN locs THEN locs[t] ELSE <<>>
ACand(t) == IF Shareable(t) /\ t \in DOMAIN arrs THEN arrs[t] ELSE <<>>

\* bookkeeping of pointer targets
AddLocs(tab, b, ls) ==
  LET ts == {ls[i].t : i \in 1..Len(ls)}
      new == [t \in ts |-> (IF t \in DOMAIN tab THEN tab[t] ELSE <<>>) \o
                 SelectSeq([i \in 1..Len(ls) |-> [b |-> b, p |-> ls[i].p, t |-> ls[i].t]], LAMBDA l : l.t = t)]
  IN new @@ tab
AddArrs(tab, b, ls) ==
  LET as == SelectSeq(ls, LAMBDA l : Ty(l.t).k = "arr")
      es == {Ty(as[i].t).elem : i \in 1..Len(as)}
  IN [e \in es |-> (IF e \in DOMAIN tab THEN tab[e] ELSE <<>>) \o
        [i \in 1..Len(SelectSeq(as, LAMBDA l : Ty(l.t).elem = e)) |->
            LET l == SelectSeq(as, LAMBDA x : Ty(x.t).elem = e)[i] IN [b |-> b, pre |-> l.p \o ".", n |-> Ty(l.t).n]]] @@ tab
AddBlkArr(tab, b, t, n) == (t :> ((IF t \in DOMAIN tab THEN tab[t] ELSE <<>>) \o <<[b |-> b, pre |-> "", n |-> n]>>)) @@ tab
Whole == Prof.odd = 0
BlockLocs(t, n) == FlattenSeq([i \in 1..n |-> Locs(t, ToString(i - 1), Whole)])

NewTodo(b, cells) == SelectSeq([i \in 1..Len(cells) |-> cells[i] @@ [b |-> b]], LAMBDA c : ~(c.st # "" /\ IsSize(Ty(c.st), c.f.n)))

-----------------------------------------------------------------------------
PickFrom(S) == IF Random THEN {RandomElement(S)} ELSE S

\* what a pointer cell may be set to
PtrOptions(c) ==
  LET td == Ty(c.t)
      old == Cand(td.elem)
      canNew == Len(blocks) < MaxBlocks
      Old(i) == [o |-> "old", b |-> old[i].b, p |-> old[i].p, v |-> ""]
      New(v) == [o |-> "new", b |-> 0, p |-> "", v |-> v]
      Nul == [o |-> "null", b |-> 0, p |-> "", v |-> ""]
      texts == IF td.elem = "text" THEN TextDom(c) ELSE <<"">>
  IN IF Random
     THEN LET r == RandomElement(1..100)
              n == RandomElement(1..100)
          IN {CASE r <= Prof.pnull -> Nul
                [] r <= Prof.pnull + Prof.pshare /\ Len(old) > 0 -> Old(IF n <= 50 THEN RandomElement(1..Len(old)) ELSE Len(old) + 1 - RandomElement(1..(IF Len(old) < 5 THEN Len(old) ELSE 5)))
                [] canNew -> New(texts[RandomElement(1..Len(texts))])
                [] OTHER -> Nul}
     ELSE {Nul} \cup {Old(i) : i \in 1..Len(old)} \cup (IF canNew THEN {New(texts[i]) : i \in 1..Len(texts)} ELSE {})

\* what a pointer with a size may be set to
MaxLen == Prof.maxlen
RMax(c) == LET w == Prof.szmax[c.st \o "." \o c.f.sz] IN w \div Ty(Ty(c.t).elem).size   \* elements the size field can express
Lesser(a, b) == IF a < b THEN a ELSE b
RptrOptions(c) ==
  LET e == Ty(c.t).elem
      old == ACand(e)
      canNew == Len(blocks) < MaxBlocks
      xs == 0..(Ty(e).size - 1)
      Nul(n, x) == [o |-> "null", b |-> 0, pre |-> "", i |-> 0, n |-> n, x |-> x, bn |-> 0]
      Old(a, i, n, x) == [o |-> "old", b |-> a.b, pre |-> a.pre, i |-> i, n |-> n, x |-> x, bn |-> 0]
      New(bn, i, n, x) == [o |-> "new", b |-> 0, pre |-> "", i |-> i, n |-> n, x |-> x, bn |-> bn]
  IN IF Random
     THEN LET r == RandomElement(1..100)
              plain == "rown" \in DOMAIN Prof    \* every pointer with a size has a block of its own, all of it
              odd == IF Prof.odd = 1 /\ RandomElement(1..5) = 1 THEN RandomElement(xs) ELSE 0
              Rng(size) == LET i == RandomElement(0..(size - 1))  \* evaluated once per use below
                           IN [i |-> i, n |-> RandomElement(1..Lesser(size - i, RMax(c)))]
          IN {CASE r <= Prof.pnull -> IF Prof.odd = 1 THEN Nul(RandomElement(0..Lesser(2, RMax(c))), 0) ELSE Nul(0, 0)
                [] r <= Prof.pnull + Prof.pshare /\ Len(old) > 0 /\ ~plain -> LET a == old[RandomElement(1..Len(old))]
                                                                        g == Rng(a.n)
                                                                    IN Old(a, g.i, g.n, IF g.n < RMax(c) /\ g.i + g.n < a.n THEN odd ELSE 0)
                [] canNew /\ Prof.odd = 1 /\ RandomElement(1..12) = 1 -> New(RandomElement(1..MaxLen), 0, 0, RandomElement(xs))   \* no whole element
                [] canNew -> LET bn == RandomElement(1..(IF plain THEN Lesser(MaxLen, RMax(c)) ELSE MaxLen))
                                 g == IF plain \/ RandomElement(1..2) = 1 THEN [i |-> 0, n |-> Lesser(bn, RMax(c))] ELSE Rng(bn)
                             IN New(bn, g.i, g.n, IF g.n < RMax(c) /\ g.i + g.n < bn THEN odd ELSE 0)
                [] OTHER -> Nul(0, 0)}
     ELSE {Nul(0, 0)} \cup UNION {{Old(old[j], i, n, 0) : i \in 0..(old[j].n - 1), n \in 1..old[j].n} : j \in 1..Len(old)}
                   \cup (IF canNew THEN {New(bn, 0, n, 0) : bn \in 1..MaxLen, n \in 1..MaxLen} ELSE {})
RptrOk(o) == CASE o.o = "old" -> \E j \in DOMAIN arrs : \E a \in Range(arrs[j]) : a.b = o.b /\ a.pre = o.pre /\ o.i + o.n <= a.n
               [] o.o = "new" -> o.i + o.n <= o.bn
               [] OTHER -> TRUE

\* sizes mean whole elements; raw is the number of bytes actually stored
SizeCell(c, n, x) == LET s == n * Ty(Ty(c.t).elem).size IN (<<c.b, c.sp \o "." \o c.f.sz>> :> [k |-> "v", v |-> ToString(s), raw |-> ToString(s + x)])

-----------------------------------------------------------------------------
Init == root = "" /\ blocks = <<>> /\ mem = <<>> /\ todo = <<>> /\ locs = <<>> /\ arrs = <<>> /\ done = FALSE
\* choice of the root type (an action, so that each simulated behaviour chooses anew)
Begin == /\ root = ""
         /\ \E r \in (IF Random THEN {Prof.roots[RandomElement(1..Len(Prof.roots))]} ELSE Range(Prof.roots)) :
             /\ root' = r
             /\ blocks' = <<[t |-> r, n |-> 1, v |-> ""]>>
             /\ todo' = NewTodo(1, BlockCells(r, 1))
             /\ locs' = AddLocs(<<>>, 1, BlockLocs(r, 1))
             /\ arrs' = AddArrs(<<>>, 1, BlockLocs(r, 1))
         /\ UNCHANGED <<mem, done>>

Cur == Head(todo)
Rest == Tail(todo)
Set(c, v) == mem' = (<<c.b, c.p>> :> v) @@ mem

SetLeaf == /\ Ty(Cur.t).k = "leaf"
           /\ \E i \in PickFrom(1..Len(DomOf(Cur))) : Set(Cur, [k |-> "v", v |-> DomOf(Cur)[i]])
           /\ todo' = Rest
           /\ UNCHANGED <<root, blocks, locs, arrs, done>>

SetPtr == /\ Ty(Cur.t).k \in {"ptr", "str"}
          /\ \E o \in PtrOptions(Cur) :
               LET e == Ty(Cur.t).elem
                   b == Len(blocks) + 1
               IN IF o.o = "new"
                  THEN /\ blocks' = Append(blocks, [t |-> e, n |-> 1, v |-> o.v])
                       /\ Set(Cur, [k |-> "p", b |-> b, p |-> "0"])
                       /\ todo' = Rest \o NewTodo(b, BlockCells(e, 1))
                       /\ locs' = AddLocs(locs, b, BlockLocs(e, 1))
                       /\ arrs' = AddArrs(arrs, b, BlockLocs(e, 1))
                  ELSE /\ Set(Cur, [k |-> "p", b |-> o.b, p |-> o.p])
                       /\ todo' = Rest
                       /\ UNCHANGED <<blocks, locs, arrs>>
          /\ UNCHANGED <<root, done>>

SetSized == /\ Ty(Cur.t).k = "rptr"
            /\ \E o \in RptrOptions(Cur) :
                 LET e == Ty(Cur.t).elem
                     b == IF o.o = "new" THEN Len(blocks) + 1 ELSE o.b
                 IN /\ RptrOk(o)
                    /\ mem' = (<<Cur.b, Cur.p>> :> [k |-> "r", b |-> b, pre |-> o.pre, i |-> o.i, n |-> o.n, x |-> o.x, sz |-> Cur.sp \o "." \o Cur.f.sz, es |-> Ty(e).size]) @@ SizeCell(Cur, o.n, o.x) @@ mem
                    /\ IF o.o = "new"
                       THEN /\ blocks' = Append(blocks, [t |-> e, n |-> o.bn, v |-> ""])
                            /\ todo' = Rest \o NewTodo(b, BlockCells(e, o.bn))
                            /\ locs' = AddLocs(locs, b, BlockLocs(e, o.bn))
                            /\ arrs' = AddBlkArr(AddArrs(arrs, b, BlockLocs(e, o.bn)), b, e, o.bn)
                       ELSE /\ todo' = Rest
                            /\ UNCHANGED <<blocks, locs, arrs>>
            /\ UNCHANGED <<root, done>>

SetSizedArray == /\ Ty(Cur.t).k = "larr"
                 /\ \E n \in PickFrom(0..Ty(Cur.t).n) :
                      LET td == Ty(Cur.t)
                          cs == FlattenSeq([i \in 1..n |-> Cells(td.elem, Cur.p \o "." \o ToString(i - 1), "", "", NoField)])
                          ls == FlattenSeq([i \in 1..n |-> Locs(td.elem, Cur.p \o "." \o ToString(i - 1), Whole)])
                      IN /\ mem' = (<<Cur.b, Cur.p>> :> [k |-> "l", n |-> n, x |-> 0]) @@ SizeCell(Cur, n, 0) @@ mem
                         /\ todo' = Rest \o NewTodo(Cur.b, cs)
                         /\ locs' = AddLocs(locs, Cur.b, ls)
                 /\ UNCHANGED <<root, blocks, arrs, done>>

DiscLoc == <<Cur.b, Cur.sp \o "." \o Cur.f.disc>>
\* a text or the number a pointer designates discriminates, too; this content may still be missing
DiscReady == IF DiscLoc \notin DOMAIN mem THEN FALSE
             ELSE LET d == mem[DiscLoc] IN IF d.k = "v" THEN TRUE ELSE IF d.b = 0 THEN TRUE ELSE IF blocks[d.b].t = "text" THEN TRUE ELSE <<d.b, d.p>> \in DOMAIN mem
DiscText == LET d == mem[DiscLoc] IN IF d.k = "v" THEN d.v ELSE IF d.b = 0 THEN "" ELSE IF blocks[d.b].t = "text" THEN blocks[d.b].v ELSE mem[<<d.b, d.p>>].v
SetUnion == /\ Ty(Cur.t).k = "union"
            /\ DiscReady
            /\ LET td == Ty(Cur.t)
                   i == BranchOf(td, DiscText)
                   cs == Cells(td.f[i].t, Cur.p \o "." \o td.f[i].n, "", "", NoField)
                   ls == Locs(td.f[i].t, Cur.p \o "." \o td.f[i].n, Whole)
               IN /\ Set(Cur, [k |-> "u", i |-> i])
                  /\ todo' = Rest \o NewTodo(Cur.b, cs)
                  /\ locs' = AddLocs(locs, Cur.b, ls)
            /\ UNCHANGED <<root, blocks, arrs, done>>
\* a union waits for its discriminator
Wait == /\ Ty(Cur.t).k = "union"
        /\ ~DiscReady
        /\ todo' = Append(Rest, Cur)
        /\ UNCHANGED <<root, blocks, mem, locs, arrs, done>>

Out == [root |-> root, blocks |-> blocks, cells |-> SetToSeq({[b |-> l[1], p |-> l[2], c |-> mem[l]] : l \in DOMAIN mem})]
Finish == /\ root # "" /\ todo = <<>> /\ ~done
          /\ Serialize(ToJson(Out) \o "\n", IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
          /\ done' = TRUE
          /\ UNCHANGED <<root, blocks, mem, todo, locs, arrs>>

Next == Begin \/ (todo # <<>> /\ (SetLeaf \/ SetPtr \/ SetSized \/ SetSizedArray \/ SetUnion \/ Wait)) \/ Finish
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Sanity of the model itself: every reachable location of a finished object *)
(* has a content, so that its meaning is defined.                            *)
MeaningDefined == (root # "" /\ todo = <<>>) => Len(Meaning(heap, 1, "0", root)) > 0
=============================================================================
