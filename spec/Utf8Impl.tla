------------------------------ MODULE Utf8Impl ------------------------------
(* The validator as built: up to three carried bytes, each load validates carry and chunk together.
   Mode "check": the state is only the carry and what the specification needs of the past, so TLC covers
   streams of any length over the alphabet. Mode "hist": histories of bounded length, printed to be run
   on the code.                                                                                        *)
EXTENDS Utf8, TLC, Json
CONSTANTS Mode, Alphabet, MaxChunk, MaxLoads, MaxBytes

VARIABLES carry, \* the bytes carried
          rest,  \* specification: the source's bytes not delivered yet
          over, ok, cmds
vars == <<carry, rest, over, ok, cmds>>
Chunks == UNION {[1..n -> Alphabet] : n \in 0..MaxChunk}
Init == carry = <<>> /\ rest = <<>> /\ over = FALSE /\ ok = TRUE /\ cmds = <<>>

(* Allowed is about whole streams; what has been delivered is complete characters, so only the rest matters *)
Spec0 == [src |-> rest, d |-> 0, over |-> over]
Step(e) == /\ ok' = Allowed(Spec0, e)
           /\ LET t == After(Spec0, e) IN rest' = SubSeq(t.src, t.d + 1, Len(t.src)) /\ over' = t.over
Hist(c) == cmds' = (IF Mode = "hist" THEN Append(cmds, c) ELSE <<>>)
More == Mode = "check" \/ Len(cmds) < MaxLoads
Done == cmds # <<>> /\ cmds[Len(cmds)].out = "fin"
RECURSIVE Bytes(_, _)
Bytes(q, i) == IF i > Len(q) THEN 0 ELSE Len(q[i].bytes) + Bytes(q, i + 1)

Adv == \E b \in Chunks :
  LET x == Scan(carry \o b)
      inv == Len(carry) + Len(b) - x.w
  IN /\ Mode = "hist" => Bytes(cmds, 1) + Len(b) <= MaxBytes
     /\ Step([out |-> "adv", bytes |-> b, res |-> IF inv > 3 THEN "invalid" ELSE "ok", total |-> IF inv > 3 THEN 0 ELSE x.w, errno |-> 0])
     /\ carry' = IF inv > 3 THEN carry ELSE SubSeq(carry \o b, x.w + 1, Len(carry) + Len(b))
     /\ Hist([out |-> "adv", bytes |-> b])
Fin == /\ Step([out |-> "fin", bytes |-> <<>>, res |-> IF carry = <<>> THEN "done" ELSE "invalid", total |-> 0, errno |-> 0])
       /\ UNCHANGED carry /\ Hist([out |-> "fin", bytes |-> <<>>])
Fail == \E o \in {"ctl", "cancel", "abandon"} :
  /\ Mode = "hist" => Len(cmds) = 1
  /\ Step([out |-> o, bytes |-> <<>>, res |-> IF o = "abandon" THEN "none" ELSE "inner", total |-> 0,
           errno |-> CASE o = "ctl" -> 77 [] o = "cancel" -> 78 [] OTHER -> 0])
  /\ UNCHANGED carry /\ Hist([out |-> o, bytes |-> IF o = "ctl" THEN <<>> ELSE <<226, 130>>])
Next == ~over /\ ~Done /\ ((More /\ (Adv \/ Fail)) \/ Fin)
Spec == Init /\ [][Next]_vars

Refines == ok
CarryIsRest == over \/ carry = rest
CarryShort == Len(carry) <= 3
Emit == (Mode = "hist" /\ Done) => PrintT("CASE " \o ToJson([cmds |-> cmds]))
=============================================================================
