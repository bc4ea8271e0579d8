------------------------------ MODULE MemSeqMC ------------------------------
(* The operations as the library implements them, on slices (base, end) of one memory block and a meter
   that is fed what an advance drops; checked to follow MemSeq. Histories are printed to be run on the code. *)
EXTENDS MemSeq, TLC, Json
CONSTANTS MaxLen, Steps, Past   \* Past: how far beyond the end an advance may ask

VARIABLES s, lo, fed, anc, cmds, ok
vars == <<s, lo, fed, anc, cmds, ok>>
(* implementation: lo, offset of the visible part in the block; fed: what the meter got; anc: saved copies *)
Init == /\ s \in {Start([i \in 1..n |-> i]) : n \in 0..MaxLen}
        /\ lo = 0 /\ fed = <<>> /\ anc = <<>> /\ cmds = <<>> /\ ok = TRUE
Block == s.full
Vis(o) == SubSeq(Block, o + 1, Len(Block))
Clip(o, n) == IF o + n > Len(Block) THEN Len(Block) ELSE o + n
Do(e, lo2, fed2) ==
  /\ lo' = lo2 /\ fed' = fed2 /\ s' = After(s, e)
  /\ ok' = Ok(s, e @@ [content |-> Vis(lo2), metric |-> fed2], <<>>)
  /\ cmds' = Append(cmds, e)
Adv(n) == Do([e |-> "adv", n |-> n], Clip(lo, n), fed \o SubSeq(Block, lo + 1, Clip(lo, n))) /\ UNCHANGED anc
Read == Do([e |-> "read"], lo, fed) /\ UNCHANGED anc
Side(k, n) == Do([e |-> k, n |-> n, side |-> Vis(lo), side2 |-> Vis(Clip(lo, n)),
                  metric2 |-> fed \o SubSeq(Block, lo + 1, Clip(lo, n))], lo, fed) /\ UNCHANGED anc
(* the checked split of what is visible; a character may take two of the positions asked for *)
Split(n, inside) == LET v == Vis(lo) IN
  Do([e |-> "split", n |-> n, inside |-> inside, fits |-> ~inside /\ n <= Len(v), agree |-> TRUE]
     @@ (IF n <= Len(v) /\ ~inside THEN [left |-> SubSeq(v, 1, n), right |-> SubSeq(v, n + 1, Len(v))] ELSE <<>>), lo, fed) /\ UNCHANGED anc
Anchor == Do([e |-> "anchor"], lo, fed) /\ anc' = Append(anc, [lo |-> lo, fed |-> fed])
Rewind(i) == /\ anc[i].lo <= lo
             /\ Do([e |-> "rewind", i |-> i], anc[i].lo, anc[i].fed)
             /\ anc' = Without(anc, i)
Next == Len(cmds) < Steps /\
  \/ \E n \in 0..(Len(Block) + Past - lo) : Adv(n)
  \/ Read
  \/ \E n \in 0..(Len(Block) + Past - lo) : Side("peek", n)
  \/ \E n \in 0..(Len(Block) + Past - lo), b \in BOOLEAN : (b => n < Len(Block) - lo) /\ Split(n, b)
  \/ Anchor
  \/ \E i \in 1..Len(anc) : Rewind(i)
Spec == Init /\ [][Next]_vars
Follows == ok /\ lo = s.pos /\ fed = Taken(s)
AnchorsMatch == Len(anc) = Len(s.anchors) /\ \A i \in 1..Len(anc) : anc[i].lo = s.anchors[i]
Emit == Len(cmds) = Steps => PrintT("CASE " \o ToJson([full |-> s.full, cmds |-> [i \in 1..Len(cmds) |->
   [op |-> cmds[i].e] @@ (IF "n" \in DOMAIN cmds[i] THEN [n |-> cmds[i].n] ELSE <<>>) @@ (IF "inside" \in DOMAIN cmds[i] THEN [inside |-> cmds[i].inside] ELSE <<>>) @@ (IF "i" \in DOMAIN cmds[i] THEN [i |-> cmds[i].i] ELSE <<>>)]]))
=============================================================================
