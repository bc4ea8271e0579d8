------------------------------ MODULE StreamImpl ------------------------------
(* The primitive parsers as built, on a sequence that is still being filled: they ask for segment after segment,
   compare, and advance. The sequence keeps the promises of DefSeq: a request is answered when there is a segment,
   or the end; an advance when there are items enough, or the end. Whatever the division and whenever the segments
   come, a parser must come to what Peg says it does on the whole input (C26).

   The known ways to get it wrong: EmptyIsEnd (an empty segment is taken for the end), NowIsEnd (nothing more being
   there now is taken for the end), Rest (what remains of a pattern is not kept from one segment to the next). *)
EXTENDS Peg
CONSTANTS MaxLen, MaxSegs, EmptyIsEnd, NowIsEnd, ForgetRest

VARIABLES come,    \* segments to come
          ends,    \* whether the end is to be marked
          segs, done,
          leaf,    \* the parser
          st, it, rest, verdict
svars == <<vars, come, ends, segs, done, leaf, st, it, rest, verdict>>

RECURSIVE Flat(_, _), Divisions(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)
(* all ways to divide w into at most k segments, empty ones too *)
Divisions(w, k) ==
  IF k = 0 THEN IF w = <<>> THEN {<<>>} ELSE {}
  ELSE (IF w = <<>> THEN {<<>>} ELSE {})
       \cup UNION {{<<SubSeq(w, 1, c)>> \o d : d \in Divisions(SubSeq(w, c + 1, Len(w)), k - 1)} : c \in 0..Len(w)}
Words(n) == UNION {[1..k -> {0, 1}] : k \in 0..n}
Leaves == {[k |-> "any"], [k |-> "the", c |-> 0]} \cup {[k |-> "atom", w |-> w] : w \in Words(2)}
Looks(n) == IF n.k = "atom" /\ n.w # <<>> THEN Len(n.w) ELSE 1

SInit == \E w \in Words(MaxLen), n \in Leaves :
  /\ Start(w, <<>>)
  /\ come \in Divisions(w, MaxSegs) /\ ends \in BOOLEAN
  /\ segs = <<>> /\ done = FALSE /\ leaf = n
  /\ st = "ask" /\ it = 0 /\ verdict = "none" /\ rest = IF n.k = "atom" THEN n.w ELSE <<>>

Fill == /\ come # <<>>
        /\ segs' = Append(segs, Head(come)) /\ come' = Tail(come)
        /\ UNCHANGED <<vars, ends, done, leaf, st, it, rest, verdict>>
End == /\ come = <<>> /\ ends /\ ~done /\ done' = TRUE
       /\ UNCHANGED <<vars, come, ends, segs, leaf, st, it, rest, verdict>>

Say(v) == /\ verdict' = v /\ st' = "end" /\ UNCHANGED <<it, rest>>
Move == /\ st' = "advance" /\ UNCHANGED <<it, rest, verdict>>
(* an answer: a segment, or <<>> with last = TRUE for the end *)
Answer(last, s) ==
  CASE leaf.k = "any" ->
         IF last THEN Say("no")
         ELSE IF s = <<>> THEN IF EmptyIsEnd THEN Say("no") ELSE /\ it' = it + 1 /\ UNCHANGED <<st, rest, verdict>>
         ELSE Move
    [] leaf.k = "the" ->
         IF last THEN Say("no")
         ELSE IF s = <<>> THEN IF EmptyIsEnd THEN Say("no") ELSE /\ it' = it + 1 /\ UNCHANGED <<st, rest, verdict>>
         ELSE IF s[1] = leaf.c THEN Move ELSE Say("no")
    [] leaf.k = "atom" ->
         IF last THEN IF rest = <<>> THEN Say("yes") ELSE Say("no")
         ELSE IF Len(s) >= Len(rest)
              THEN IF SubSeq(s, 1, Len(rest)) = rest THEN Move ELSE Say("no")
              ELSE IF s # SubSeq(rest, 1, Len(s)) THEN Say("no")
                   ELSE /\ it' = it + 1 /\ UNCHANGED <<st, verdict>>
                        /\ rest' = IF ForgetRest THEN leaf.w ELSE SubSeq(rest, Len(s) + 1, Len(rest))
Ask == /\ st = "ask"
       /\ \/ it < Len(segs) /\ Answer(FALSE, segs[it + 1])
          \/ it >= Len(segs) /\ (done \/ NowIsEnd) /\ Answer(TRUE, <<>>)
       /\ UNCHANGED <<vars, come, ends, segs, done, leaf>>
Width == IF leaf.k = "atom" THEN Len(leaf.w) ELSE 1
Advance == /\ st = "advance"
           /\ Len(Flat(segs, 1)) >= Width \/ done
           /\ Say("yes") /\ UNCHANGED <<vars, come, ends, segs, done, leaf>>
SNext == Fill \/ End \/ Ask \/ Advance
SSpec == SInit /\ [][SNext]_svars

Want == LeafResult(leaf, 0)
(* whatever comes when: what is said is what holds of the whole input, when there is one *)
Right == verdict # "none" => (verdict = "yes") = Want.ok
(* it is only left waiting when more could have come that mattered *)
AtRest == (verdict = "none" /\ ~ENABLED SNext) => ~ends /\ Looks(leaf) > Len(input)
=============================================================================
