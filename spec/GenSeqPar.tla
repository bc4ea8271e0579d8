----------------------------- MODULE GenSeqPar -----------------------------
(* A reader of the generic sequence beside a thread that loads: runs of real threads. The items are
   1, 2, 3, ...; `lo` is how many were certainly published before a call, `hi` how many can have been
   published when it returned. The reader gets each item once, in order, and reports the end only where
   the published items end.                                                                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Rows == ndJsonDeserialize(IOEnv.CASES)
VARIABLES line, i, pos, at, bad
vars == <<line, i, pos, at, bad>>
Init == line \in 1..Len(Rows) /\ i = 1 /\ pos = 0 /\ at = 0 /\ bad = 0
E == Rows[line].ev[i]
Total == Rows[line].ev[1].total
Follows(p, seg) == \A k \in 1..Len(seg) : seg[k] = p + k
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Ok == CASE E.e = "start" -> TRUE
        [] E.e = "next" -> IF E.some THEN Follows(at, E.seg) /\ at + Len(E.seg) <= E.hi ELSE at >= E.lo
        [] E.e = "consume" -> /\ E.ret <= E.n
                              /\ E.n - E.ret <= E.hi - pos
                              /\ E.n - E.ret >= Min(E.n, Max(E.lo - pos, 0))
        [] E.e = "rest" -> Follows(pos, E.seg) /\ pos + Len(E.seg) = Total
        [] OTHER -> FALSE
Next ==
  /\ i <= Len(Rows[line].ev) /\ bad = 0
  /\ i' = i + 1 /\ line' = line
  /\ bad' = IF Ok THEN 0 ELSE i
  /\ at' = IF E.e = "next" THEN at + Len(E.seg) ELSE IF E.e = "consume" THEN pos + E.n - E.ret ELSE at
  /\ pos' = IF E.e = "consume" THEN pos + E.n - E.ret ELSE pos
TraceSpec == Init /\ [][Next]_vars
Report == bad # 0 => PrintT("REJECT " \o ToJson([line |-> line, at |-> bad, bad |-> {"C14"}, event |-> Rows[line].ev[bad]]))
=============================================================================
