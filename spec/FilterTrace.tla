----------------------------- MODULE FilterTrace -----------------------------
(* Recorded histories of real filtered observables. *)
EXTENDS Filter, TLC, Json, IOUtils
Rows == ndJsonDeserialize(IOEnv.CASES)
RECURSIVE Walk(_, _, _)
Walk(ev, i, s) == IF i > Len(ev) THEN 0 ELSE IF Ok(s, ev[i]) THEN Walk(ev, i + 1, After(s, ev[i])) ELSE i
VARIABLES line, v
Init == line \in 1..Len(Rows) /\ v = -1
Next == v = -1 /\ line' = line /\ v' = Walk(Rows[line].ev, 1, Start(Rows[line].replay))
TraceSpec == Init /\ [][Next]_<<line, v>>
Report == v > 0 => PrintT("REJECT " \o ToJson([line |-> line, at |-> v, bad |-> {"C23"}, event |-> Rows[line].ev[v]]))
=============================================================================
