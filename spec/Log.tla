--------------------------------- MODULE Log ---------------------------------
(* Diagnostics. A message is [file, func, line, level, id, want] (want: the text its number and arguments stand for);
   a configuration is [handler, level, oom]: a handler is set, the threshold, formatting finds no memory.
   An operation with diagnostics emits its messages one after another; each goes to exactly one place. *)
EXTENDS Integers, Sequences, TLC
Names == <<"ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL", "OFF">>
Name(l) == IF l \in 0..7 THEN Names[l + 1] ELSE "Unknown"
ToHandler(cfg, m) == cfg.handler
ToStderr(cfg, m) == ~cfg.handler /\ m.level >= cfg.level
Backtrace(m) == m.level <= 2       \* preceded by where it came from
Line(m, oom) == Name(m.level) \o ": in " \o m.file \o " " \o m.func \o "() line " \o ToString(m.line) \o ": "
                \o (IF oom THEN "Out of memory formating error message #" \o ToString(m.id) ELSE m.want)
(* the error stream accepts exactly the messages ms under cfg *)
RECURSIVE Accepts(_, _, _)
Accepts(cfg, ms, err) ==
  IF ms = <<>> THEN err = <<>>
  ELSE IF ~ToStderr(cfg, Head(ms)) THEN Accepts(cfg, Tail(ms), err)
  ELSE LET k == IF Backtrace(Head(ms)) THEN IF err # <<>> /\ \E f \in 0..8 : err[1] = "Obtained " \o ToString(f) \o " stack frames."
                                           THEN 1 + CHOOSE f \in 0..8 : err[1] = "Obtained " \o ToString(f) \o " stack frames." ELSE 100000
                ELSE 0 IN
       IF Len(err) <= k THEN FALSE
       ELSE IF err[k + 1] # Line(Head(ms), cfg.oom) THEN FALSE
       ELSE Accepts(cfg, Tail(ms), SubSeq(err, k + 2, Len(err)))
SameMessage(a, b) == a.file = b.file /\ a.func = b.func /\ a.line = b.line /\ a.level = b.level /\ a.id = b.id /\ a.want = b.want
Handed(cfg, ms, got) == IF ~cfg.handler THEN got = <<>>
                        ELSE IF Len(got) # Len(ms) THEN FALSE
                        ELSE \A i \in 1..Len(ms) : SameMessage(ms[i], got[i]) /\ (IF cfg.oom THEN got[i].made = 0 ELSE got[i].made = 1 /\ got[i].text = got[i].want)
=============================================================================
