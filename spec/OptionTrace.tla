----------------------------- MODULE OptionTrace -----------------------------
EXTENDS OptionFuture
Rows == ndJsonDeserialize(IOEnv.CASES)
VARIABLES line, v
Bad(r) == IF Len(r.ev) # r.polls THEN Len(r.ev) + 1
          ELSE LET b == {k \in 1..Len(r.ev) : ~Ok(r, k, r.ev[k])} IN
               IF b = {} THEN 0 ELSE CHOOSE k \in b : \A j \in b : k <= j
Init == line \in 1..Len(Rows) /\ v = -1 /\ some = TRUE /\ pend = 0 /\ n = 0 /\ wakes = TRUE
Next == v = -1 /\ line' = line /\ v' = Bad(Rows[line]) /\ UNCHANGED <<some, pend, n, wakes>>
TraceSpec == Init /\ [][Next]_<<line, v>>
Report == v > 0 => PrintT("REJECT " \o ToJson([line |-> line, at |-> v, bad |-> {"C20"},
                     event |-> IF v <= Len(Rows[line].ev) THEN Rows[line].ev[v] ELSE [e |-> "missing"]]))
=============================================================================
