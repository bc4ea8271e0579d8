------------------------------ MODULE LineColMC ------------------------------
(* The meter as built, fed character by character; checked to give Position for every text. Texts and
   their cuts are printed to be run on the code.                                                      *)
EXTENDS LineCol, TLC, Json
CONSTANTS MaxLen, Deep
VARIABLES conv, text, cuts, loc, nl, cr
vars == <<conv, text, cuts, loc, nl, cr>>
Init == conv \in {"lf", "cr", "crlf"} /\ text = <<>> /\ cuts = <<>> /\ loc = Zero /\ nl = TRUE /\ cr = FALSE
Feed(c) ==
  LET l0 == IF nl THEN [loc EXCEPT !.line = @ + 1, !.column = 0] ELSE loc
      m == CASE conv = "lf" -> c = "n" [] conv = "cr" -> c = "r" [] OTHER -> cr /\ c = "n"
  IN /\ loc' = [l0 EXCEPT !.count = @ + 1, !.column = @ + 1]
     /\ nl' = m
     /\ cr' = (conv = "crlf" /\ c = "r")
     /\ text' = Append(text, c)
Next == /\ Len(text) < MaxLen /\ UNCHANGED conv
        /\ \E c \in {"r", "n", "x"}, cut \in (IF Deep THEN BOOLEAN ELSE {FALSE}) : Feed(c) /\ cuts' = Append(cuts, cut)
Spec == Init /\ [][Next]_vars
Exact == /\ loc = Position(conv, Zero, text)
         /\ FeedAll(conv, Begin(Zero), text) = [loc |-> loc, nl |-> nl, cr |-> cr]
Repeat(u, k) == [i \in 1..(Len(u) * k) |-> u[((i - 1) % Len(u)) + 1]]
(* runs are what they stand for, whatever was before *)
RunsExact == Len(text) <= 6 =>
  \A u \in {<<"r">>, <<"n">>, <<"r", "n">>}, k \in 0..7 :
    LET st == Many(conv, [loc |-> loc, nl |-> nl, cr |-> cr], u, k) IN
      /\ st = FeedAll(conv, [loc |-> loc, nl |-> nl, cr |-> cr], Repeat(u, k))
      /\ st.loc = Position(conv, Zero, text \o Repeat(u, k))
Emit == PrintT("CASE " \o ToJson([conv |-> conv, text |-> text, cuts |-> cuts]))
=============================================================================
