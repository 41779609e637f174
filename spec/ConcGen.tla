-------------------------------- MODULE ConcGen --------------------------------
(* Schedules: the behaviours of Conc with at most MaxSwitch preemptions, written as the list of places where threads are preempted *)
EXTENDS Conc, Json, IOUtils
CONSTANT MaxSwitch
VARIABLES cur, sched, switches, builder
gvars == <<vars, cur, sched, switches, builder>>
GInit == Init /\ cur \in Threads /\ sched = <<>> /\ switches = 0 /\ builder = 0
Runnable(t) == ENABLED Step(t)
Where(t) == [t |-> t, at |-> pc[t], k |-> k[t], b |-> IF builder = t THEN 1 ELSE 0, w |-> 0]
GStep == /\ Step(cur) /\ builder' = (IF inits' > inits THEN cur ELSE builder) /\ UNCHANGED <<cur, sched, switches>>
GSwitch == \E t \in Threads \ {cur} :
    /\ Runnable(t)
    /\ cur' = t
    /\ (\/ ~Runnable(cur) /\ UNCHANGED switches      \* finished or waiting
        \/ Runnable(cur) /\ pc[cur] # "idle" /\ switches < MaxSwitch /\ switches' = switches + 1)
    /\ sched' = Append(sched, Where(cur))
    /\ UNCHANGED <<vars, builder>>
Over == \A t \in Threads : pc[t] = "end"
Emit == /\ Over /\ cur # 0
        /\ Serialize(ToJson([s |-> Append(sched, Where(cur))]) \o "\n", IOEnv.VF_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ cur' = 0 /\ UNCHANGED <<vars, sched, switches, builder>>
GNext == IF cur = 0 THEN FALSE ELSE GStep \/ GSwitch \/ Emit
GSpec == GInit /\ [][GNext]_gvars
===============================================================================
