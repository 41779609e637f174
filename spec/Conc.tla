--------------------------------- MODULE Conc ---------------------------------
(* Concurrent first use of the library. The registry of types is built in Parts by the first thread that needs it; everybody else
   waits. Operations then use tables that are filled on first use by whoever comes first, possibly by several threads at once.
   Lazy says how such a table is filled: "idempotent" - every thread that finds it unfinished writes all entries, then marks it finished;
   "clear" - it empties the table before that; "running" - the mark is the part filled so far. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Threads, Parts, Entries, Lazy
VARIABLES pc,      \* where each thread is
          k,       \* how far it is within a step that consists of several
          busy, done, built, inits,        \* the two flags, the parts of the registry built and by how many builders
          table, tready,                   \* entries of the lazily filled table that are in place; its mark
          saw                              \* what each thread's operation found: TRUE as long as everything was in place
vars == <<pc, k, busy, done, built, inits, table, tready, saw>>
Init == /\ pc = [t \in Threads |-> "idle"] /\ k = [t \in Threads |-> 0]
        /\ busy = FALSE /\ done = FALSE /\ built = 0 /\ inits = 0
        /\ table = {} /\ tready = FALSE /\ saw = [t \in Threads |-> TRUE]
Go(t, p) == pc' = [pc EXCEPT ![t] = p] /\ k' = [k EXCEPT ![t] = 0]
More(t) == k' = [k EXCEPT ![t] = @ + 1] /\ UNCHANGED pc
Shared == <<busy, done, built, inits, table, tready>>
Call(t)    == pc[t] = "idle" /\ Go(t, "check") /\ UNCHANGED <<Shared, saw>>
Check(t)   == pc[t] = "check" /\ Go(t, IF done THEN "lazy" ELSE "claim") /\ UNCHANGED <<Shared, saw>>
Claim(t)   == /\ pc[t] = "claim" /\ Go(t, IF busy THEN "spin" ELSE "build")
              /\ busy' = TRUE /\ inits' = (IF busy THEN inits ELSE inits + 1) /\ UNCHANGED <<done, built, table, tready, saw>>
Build(t)   == /\ pc[t] = "build" /\ built' = k[t] + 1
              /\ IF k[t] + 1 = Parts THEN Go(t, "publish") ELSE More(t)
              /\ UNCHANGED <<busy, done, inits, table, tready, saw>>
Publish(t) == pc[t] = "publish" /\ done' = TRUE /\ Go(t, "spin") /\ UNCHANGED <<busy, built, inits, table, tready, saw>>
Spin(t)    == pc[t] = "spin" /\ done /\ Go(t, "lazy") /\ UNCHANGED <<Shared, saw>>
Marked == IF Lazy = "running" THEN table # {} ELSE tready
LazyOp(t)  == /\ pc[t] = "lazy" /\ Go(t, IF Marked THEN "use" ELSE IF Lazy = "clear" THEN "clear" ELSE "fill") /\ UNCHANGED <<Shared, saw>>
Clear(t)   == pc[t] = "clear" /\ table' = {} /\ Go(t, "fill") /\ UNCHANGED <<busy, done, built, inits, tready, saw>>
Fill(t)    == /\ pc[t] = "fill" /\ table' = table \cup {k[t]}
              /\ IF k[t] + 1 = Entries THEN Go(t, "mark") ELSE More(t)
              /\ UNCHANGED <<busy, done, built, inits, tready, saw>>
Mark(t)    == pc[t] = "mark" /\ tready' = TRUE /\ Go(t, "use") /\ UNCHANGED <<busy, done, built, inits, table, saw>>
Use(t)     == /\ pc[t] = "use" /\ saw' = [saw EXCEPT ![t] = @ /\ built = Parts /\ k[t] \in table]
              /\ IF k[t] + 1 = Entries THEN Go(t, "end") ELSE More(t)
              /\ UNCHANGED Shared
Step(t) == \/ Call(t) \/ Check(t) \/ Claim(t) \/ Build(t) \/ Publish(t) \/ Spin(t) \/ LazyOp(t) \/ Clear(t) \/ Fill(t) \/ Mark(t) \/ Use(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
---------------------------------------------------------------------------------
Once == inits <= 1                                                                \* initialization runs at most once
NotEarly == \A t \in Threads : pc[t] \in {"lazy", "clear", "fill", "mark", "use", "end"} => built = Parts
Right == \A t \in Threads : saw[t]                                                \* every operation finds everything in place
Returns == \A t \in Threads : <>(pc[t] = "end")
(* a finished run of several first calls is correct if ... *)
RunOK(run) == /\ run.hang = 0
              /\ \A i \in DOMAIN run.ans : run.ans[i] = run.want[i]               \* each call has the result it has single-threaded
              /\ run.live = run.alone                                             \* nothing was built twice: as much is left as by the same calls one after another
              /\ run.bad = 0
===============================================================================
