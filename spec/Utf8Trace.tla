------------------------------ MODULE Utf8Trace ------------------------------
(* Recorded histories of the real validator. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
U == INSTANCE Utf8
G == INSTANCE GenSeq
Rows == ndJsonDeserialize(IOEnv.CASES)
VARIABLES line, i, s, g, bad, first
vars == <<line, i, s, g, bad, first>>
Init == line \in 1..Len(Rows) /\ i = 1 /\ s = U!Start /\ g = G!Init0 /\ bad = {} /\ first = 0
E == Rows[line].ev[i]
Writer == E.e \in G!WriterEvents
Load == E.e = "load"
Bad == CASE E.e = "panic" -> {"C15", "C16"}
         [] Writer -> G!Bad(g, E)
         [] Load -> IF s.over THEN {}
                    ELSE IF U!Allowed(s, E) /\ U!IsPrefix(E.deliv, U!Before(s, E)) /\ Len(E.deliv) <= E.total THEN {} ELSE {"C16"}
         [] E.e = "end" -> IF s.over \/ (E.deliv = SubSeq(s.src, 1, s.d) /\ E.total = s.d) THEN {} ELSE {"C16"}
         [] OTHER -> {}
Next == /\ i <= Len(Rows[line].ev)
        /\ i' = i + 1 /\ line' = line
        /\ bad' = bad \cup (IF first = 0 THEN Bad ELSE Bad \cap {"C15"})
        /\ first' = IF first = 0 /\ Bad # {} THEN i ELSE first
        /\ s' = IF Load THEN U!After(s, E) ELSE s
        /\ g' = IF Writer THEN G!After(g, E) ELSE IF Load THEN G!Init0 ELSE g
TraceSpec == Init /\ [][Next]_vars
Report == (i = Len(Rows[line].ev) + 1 /\ bad # {}) =>
  PrintT("REJECT " \o ToJson([line |-> line, at |-> first, bad |-> bad, event |-> Rows[line].ev[first]]))
=============================================================================
