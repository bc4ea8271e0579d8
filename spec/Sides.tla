------------------------------- MODULE Sides --------------------------------
(***************************************************************************)
(* What a choice holds (one side, or both), asked for by side.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Vals
VARIABLES c, f
(* sides: which there are; a, b: what is held on the first and on the last *)
Held(x) == x.sides
Choices == [sides : {{"first"}, {"last"}, {"first", "last"}}, a : Vals, b : Vals]
(* unify: whatever the one side holds, converted; unwrap: a side, refused if it is not the one there;
   always: a side, when the type says there can be no other *)
Asks == {"unify", "unwrap_first", "unwrap_last", "always_first", "always_last"}
Side(k) == IF k \in {"unwrap_first", "always_first"} THEN "first" ELSE "last"
Of(x, side) == IF side = "first" THEN x.a ELSE x.b
CanAsk(x, k) == IF k = "unify" THEN Cardinality(Held(x)) = 1
                ELSE IF k \in {"unwrap_first", "unwrap_last"} THEN Cardinality(Held(x)) = 1
                ELSE Held(x) = {Side(k)}
(* converted values tell which side they come from *)
Answer(x, k) ==
  IF k = "unify" THEN LET s == CHOOSE s \in Held(x) : TRUE IN <<s, Of(x, s)>>
  ELSE IF Side(k) \in Held(x) THEN <<Side(k), Of(x, Side(k))>> ELSE <<"refused", 0>>
(* an answer is never of a side that is not there, and never a value not held there *)
AnswersHeld == LET r == Answer(c, f) IN r[1] = "refused" \/ (r[1] \in Held(c) /\ r[2] = Of(c, r[1]))
RefusesOnlyUnwrap == Answer(c, f)[1] = "refused" => f \in {"unwrap_first", "unwrap_last"}

Init == c \in Choices /\ f \in {k \in Asks : CanAsk(c, k)}
Next == UNCHANGED <<c, f>>
Spec == Init /\ [][Next]_<<c, f>>
Emit == PrintT("CASE " \o ToJson([first |-> "first" \in Held(c), last |-> "last" \in Held(c), a |-> c.a, b |-> c.b, ask |-> f, want |-> Answer(c, f)]))
=============================================================================
