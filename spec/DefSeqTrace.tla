----------------------------- MODULE DefSeqTrace -----------------------------
(* Histories recorded from the real default sequence under a controlled scheduler. *)
EXTENDS DefSeq, TLC, Json, IOUtils
Rows == ndJsonDeserialize(IOEnv.CASES)
RECURSIVE Walk(_, _, _)
Walk(ev, i, g) == IF i > Len(ev) THEN [at |-> 0, bad |-> {}]
                  ELSE LET h == After(g, ev[i]) IN IF h.bad # {} THEN [at |-> i, bad |-> h.bad] ELSE Walk(ev, i + 1, h)
VARIABLES line, v
Init == line \in 1..Len(Rows) /\ v = [at |-> -1, bad |-> {}]
Next == v.at = -1 /\ line' = line /\ v' = Walk(Rows[line].ev, 1, Start)
TraceSpec == Init /\ [][Next]_<<line, v>>
Report == v.at > 0 => PrintT("REJECT " \o ToJson([line |-> line, at |-> v.at, bad |-> v.bad, event |-> Rows[line].ev[v.at]]))
=============================================================================
