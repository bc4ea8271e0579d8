---------------------------- MODULE GenSeqTrace ----------------------------
(* Recorded histories of the real generic sequence against GenSeq. *)
EXTENDS GenSeq, TLC, Json, IOUtils

Rows == ndJsonDeserialize(IOEnv.CASES)
VARIABLES line, i, s, bad, first
vars == <<line, i, s, bad, first>>
TInit == line \in 1..Len(Rows) /\ i = 1 /\ s = Init0 /\ bad = {} /\ first = 0
(* large histories carry their item numbers as runs <<first, last>> *)
RECURSIVE Spread(_)
Spread(q) == IF q = <<>> THEN <<>> ELSE [k \in 1..(Head(q)[2] - Head(q)[1] + 1) |-> Head(q)[1] + k - 1] \o Spread(Tail(q))
Numbers == {"items", "items2", "ids", "acc", "rej", "seen", "gone", "seg"}
Wide(e) == [f \in DOMAIN e |-> IF f \in Numbers \/ (f = "back" /\ e.e = "fill") THEN Spread(e[f]) ELSE e[f]]
Event == LET e == Rows[line].ev[i] IN IF Rows[line].runs /\ e.e # "panic" THEN Wide(e) ELSE e
(* after a first deviation the state is not known well enough to judge reports and views; what is
   delivered is judged against what was written, which wrong reports and releases do not affect *)
Counted(b) == IF bad \subseteq {"C25"} THEN b
              ELSE b \cap ({"C15", "C25"} \cup IF bad \subseteq {"C13", "C15", "C25"} THEN {"C12"} ELSE {})
TNext ==
  /\ i <= Len(Rows[line].ev)
  /\ s' = After(s, Event)
  /\ LET b == Bad(s, Event) IN
       /\ bad' = bad \cup Counted(b)
       /\ first' = IF first = 0 /\ b # {} THEN i ELSE first
  /\ i' = i + 1 /\ line' = line
TraceSpec == TInit /\ [][TNext]_vars
Report == (i = Len(Rows[line].ev) + 1 /\ bad # {}) =>
  PrintT("REJECT " \o ToJson([line |-> line, at |-> first, bad |-> bad, event |-> Rows[line].ev[first]]))
Accepted == (i = Len(Rows[line].ev) + 1 /\ bad = {} /\ Rows[line].src = "script") => Sound(s)
=============================================================================
