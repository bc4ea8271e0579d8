----------------------------- MODULE UniformTrace -----------------------------
(* Recorded runs of real parsers on long uniform inputs. *)
EXTENDS Uniform, Json, IOUtils
Rows == ndJsonDeserialize(IOEnv.CASES)
VARIABLES line, i, first
vars == <<line, i, first>>
Init == line \in 1..Len(Rows) /\ i = 1 /\ first = 0
R == Rows[line]
E == R.ev[i]
(* of the input there remain n - at items 0; positions are told from the start *)
Fine == LET o == Outcome(R.x, R.n - R.at, R.t) IN
  /\ E.e = "run" /\ E.ok = o.ok /\ E.calls = o.calls
  /\ E.p = R.at + (IF o.ok THEN o.p ELSE 0)
  /\ o.ok => E.c = o.c /\ E.even
Next == /\ i <= Len(R.ev) /\ first = 0
        /\ i' = i + 1 /\ line' = line /\ first' = IF Fine THEN 0 ELSE i
TraceSpec == Init /\ [][Next]_vars
Report == first # 0 =>
  PrintT("REJECT " \o ToJson([line |-> line, at |-> first, bad |-> {"any"}, event |-> R.ev[first]]))
=============================================================================
