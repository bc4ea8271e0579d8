---------------------------- MODULE ShortVecTrace ----------------------------
(* Recorded histories of real short vectors. After a wrong request or drop the contents are still judged. *)
EXTENDS ShortVec, TLC, Json, IOUtils
Rows == ndJsonDeserialize(IOEnv.CASES)
RECURSIVE Walk(_, _, _, _, _)
Walk(ev, i, s, bad, first) ==
  IF i > Len(ev) \/ "C21" \in bad THEN [bad |-> bad, at |-> first]
  ELSE LET b == Bad(s, ev[i]) IN
       IF ev[i].e = "panic" THEN [bad |-> bad \union b, at |-> IF first = 0 THEN i ELSE first]
       ELSE Walk(ev, i + 1, After(s, ev[i]), bad \union b, IF first = 0 /\ b # {} THEN i ELSE first)
Verdict(r) == Walk(r.ev, 1, Start(r.n, r.isz, r.al, r.drops), {}, 0)
VARIABLES line, v
Init == line \in 1..Len(Rows) /\ v = [bad |-> {}, at |-> -1]
Next == v.at = -1 /\ line' = line /\ v' = Verdict(Rows[line])
TraceSpec == Init /\ [][Next]_<<line, v>>
Report == v.at > 0 =>
  PrintT("REJECT " \o ToJson([line |-> line, at |-> v.at, bad |-> v.bad, event |-> Rows[line].ev[v.at]]))
=============================================================================
