-------------------------------- MODULE LogMC --------------------------------
(* Delivery as a transition system: messages are emitted one by one into a handler or the error stream *)
EXTENDS Log
CONSTANT MaxLen
Ms == {[file |-> "f", func |-> "g", line |-> 1, level |-> l, id |-> 1, want |-> "w"] : l \in 0..8}
Cfgs == [handler : BOOLEAN, level : 0..8, oom : BOOLEAN]
VARIABLES cfg, sent, got, err
Init == cfg \in Cfgs /\ sent = <<>> /\ got = <<>> /\ err = <<>>
Emit(m) == /\ Len(sent) < MaxLen /\ sent' = Append(sent, m)
           /\ got' = (IF ToHandler(cfg, m) THEN Append(got, [file |-> m.file, func |-> m.func, line |-> m.line, level |-> m.level, id |-> m.id, want |-> m.want, made |-> IF cfg.oom THEN 0 ELSE 1, text |-> IF cfg.oom THEN "" ELSE m.want]) ELSE got)
           /\ err' = (IF ToStderr(cfg, m) THEN (IF Backtrace(m) THEN err \o <<"Obtained 2 stack frames.", "a", "b">> ELSE err) \o <<Line(m, cfg.oom)>> ELSE err)
           /\ UNCHANGED cfg
Next == \E m \in Ms : Emit(m)
Spec == Init /\ [][Next]_<<cfg, sent, got, err>>
Delivered == Accepts(cfg, sent, err) /\ Handed(cfg, sent, got)
(* one message more or less is noticed, so a lost or repeated diagnostic cannot pass *)
Exact == \A m \in Ms : (ToStderr(cfg, m) => ~Accepts(cfg, Append(sent, m), err)) /\ (cfg.handler => ~Handed(cfg, Append(sent, m), got))
OnePlace == Len(got) * Len(err) = 0
=============================================================================
