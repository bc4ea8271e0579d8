----------------------------- MODULE LineColTrace -----------------------------
(* Recorded measurements of real texts. Each row: a start, pieces fed one after another, the position after each. *)
EXTENDS LineCol, TLC, Json, IOUtils
Rows == ndJsonDeserialize(IOEnv.CASES)
VARIABLES line, i, fed, first
vars == <<line, i, fed, first>>
Init == line \in 1..Len(Rows) /\ i = 1 /\ fed = <<>> /\ first = 0
R == Rows[line]
E == R.ev[i]
Start == IF R.before = <<>> THEN Zero ELSE Place(R.conv, Zero, R.before)
Ok(t) == LET p == Place(R.conv, Start, t) IN
  /\ E.e = "piece" /\ E.count = p.count /\ E.line = p.line /\ E.column = p.column /\ E.again
  (* the count orders positions; equal counts within a text are the same position *)
  /\ E.order = (IF E.piece = <<>> THEN "eq" ELSE "lt")
  /\ E.order0 = (IF t = <<>> THEN "eq" ELSE "lt")
Next == /\ i <= Len(R.ev) /\ first = 0
        /\ i' = i + 1 /\ line' = line
        /\ LET t == IF E.e = "piece" THEN fed \o E.piece ELSE fed IN
             fed' = t /\ first' = IF Ok(t) THEN 0 ELSE i
TraceSpec == Init /\ [][Next]_vars
Report == first # 0 => PrintT("REJECT " \o ToJson([line |-> line, at |-> first, bad |-> {"C11"}, event |-> R.ev[first]]))
=============================================================================
