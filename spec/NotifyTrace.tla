----------------------------- MODULE NotifyTrace -----------------------------
(* Histories recorded from the real notifier under a controlled scheduler. *)
EXTENDS Notify, TLC, Json, IOUtils
Rows == ndJsonDeserialize(IOEnv.CASES)
RECURSIVE Walk(_, _, _, _)     \* g.bad grows; first: the first event that was not allowed
Walk(ev, i, g, first) ==
  IF i > Len(ev) THEN [at |-> first, bad |-> g.bad]
  ELSE LET h == After(g, ev[i]) IN
       IF ev[i].e \in {"stuck", "panic"} THEN [at |-> IF first = 0 THEN i ELSE first, bad |-> h.bad]
       ELSE Walk(ev, i + 1, h, IF first = 0 /\ h.bad # {} THEN i ELSE first)
VARIABLES line, v
Init == line \in 1..Len(Rows) /\ v = [at |-> -1, bad |-> {}]
Next == v.at = -1 /\ line' = line /\ v' = Walk(Rows[line].ev, 1, Start, 0)
TraceSpec == Init /\ [][Next]_<<line, v>>
Report == v.at > 0 => PrintT("REJECT " \o ToJson([line |-> line, at |-> v.at, bad |-> v.bad, event |-> Rows[line].ev[v.at]]))
=============================================================================
