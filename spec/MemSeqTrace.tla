----------------------------- MODULE MemSeqTrace -----------------------------
(* Recorded histories of real in-memory inputs. *)
EXTENDS MemSeq, TLC, Json, IOUtils
Rows == ndJsonDeserialize(IOEnv.CASES)
VARIABLES line, i, s, first
vars == <<line, i, s, first>>
Init == line \in 1..Len(Rows) /\ i = 1 /\ s = Begin(Rows[line].full, Rows[line].size) /\ first = 0
E == Rows[line].ev[i]
Next == /\ i <= Len(Rows[line].ev) /\ first = 0
        /\ i' = i + 1 /\ line' = line
        /\ first' = IF IF Rows[line].brief THEN Brief(s, E, Rows[line].start) ELSE Ok(s, E, Rows[line].start) THEN 0 ELSE i
        /\ s' = IF E.e = "panic" THEN s ELSE After(s, E)
TraceSpec == Init /\ [][Next]_vars
Report == first # 0 =>
  PrintT("REJECT " \o ToJson([line |-> line, at |-> first, bad |-> {IF Rows[line].measured THEN "C10" ELSE "C09"}, event |-> Rows[line].ev[first]]))
=============================================================================
