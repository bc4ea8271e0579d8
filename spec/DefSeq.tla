------------------------------- MODULE DefSeq -------------------------------
(* What a sequence that is still being filled promises its one reader (C17, C18), over the events of a history:

     append(ids)    the producer has added a segment             done   ... has marked the end
     send_b         the producer starts to signal what it did before
     iter           the reader starts to read what is there from the front
     next           the reader asks for the next segment          adv(n) ... asks to skip n items
     poll_b(w)      the reader polls what it asked for, to be woken by waker w
     poll_e(r, ids) the poll returns "pending", a segment "seg" with its items, "end" or, for adv, "ok"
     wake(w)        w is called
     park           everybody else is finished, and the reader is never woken again, however long it waits
     spin           everybody else is finished, and the reader is woken over and over all the same
     stuck, panic   the code cannot go on

   Positions count whole segments passed and items passed of the next one. *)
EXTENDS Integers, Sequences

Start == [segs |-> <<>>, done |-> FALSE, tsegs |-> 0, tdone |-> FALSE, base |-> [i |-> 0, off |-> 0],
          at |-> {[i |-> 0, off |-> 0]}, moved |-> FALSE, first |-> TRUE, mode |-> "", n |-> 0, bad |-> {}]

Blame(g, p) == [g EXCEPT !.bad = @ \cup {p}]
RECURSIVE Total(_, _)
Total(g, p) == IF p.i >= Len(g.segs) THEN 0 ELSE Len(g.segs[p.i + 1]) - p.off + Total(g, [i |-> p.i + 1, off |-> 0])
(* the items from position p on, of the segments known to be there *)
RECURSIVE Skip(_, _, _)
Skip(g, p, n) ==
  IF n = 0 \/ p.i >= Len(g.segs) THEN p
  ELSE LET have == Len(g.segs[p.i + 1]) - p.off IN
       IF n < have THEN [p EXCEPT !.off = @ + n] ELSE Skip(g, [i |-> p.i + 1, off |-> 0], n - have)
(* an empty rest of a segment right where an advance ended may be left out *)
Empty(g, p) == p.i < Len(g.segs) /\ p.off = Len(g.segs[p.i + 1])
RECURSIVE Fronts(_, _)
Fronts(g, p) == {p} \cup IF g.moved /\ g.first /\ Empty(g, p) THEN Fronts(g, [i |-> p.i + 1, off |-> 0]) ELSE {}
(* where reading may have been when it delivered `ids`; which of several empty segments it was cannot be told *)
Candidates(g) == UNION {Fronts(g, p) : p \in g.at}
Delivered(g, ids) == {p \in Candidates(g) : p.i < Len(g.segs) /\ ids = SubSeq(g.segs[p.i + 1], p.off + 1, Len(g.segs[p.i + 1]))}
AtEnd(g) == \E p \in Candidates(g) : p.i >= Len(g.segs)
Mine(g) == IF g.mode = "adv" \/ (g.moved /\ g.first) THEN "C18" ELSE "C17"
(* something to deliver was there and signalled *)
RECURSIVE AllEmpty(_, _, _)
AllEmpty(g, p, k) == p.i >= k \/ (Empty(g, p) /\ AllEmpty(g, [i |-> p.i + 1, off |-> 0], k))
Owed(g) == \/ g.tdone
           \/ g.mode = "next" /\ \A p \in g.at : IF g.moved /\ g.first THEN ~AllEmpty(g, p, g.tsegs) ELSE p.i < g.tsegs
           \/ g.mode = "adv" /\ Total([g EXCEPT !.segs = SubSeq(@, 1, g.tsegs)], g.base) >= g.n

Polled(g, e) ==
  CASE e.r = "pending" -> g
    [] e.r = "seg" -> LET d == Delivered(g, e.ids) IN
         IF g.mode # "next" \/ d = {} THEN Blame(g, Mine(g))
         ELSE [g EXCEPT !.at = {[i |-> p.i + 1, off |-> 0] : p \in d}, !.first = FALSE, !.mode = ""]
    [] e.r = "end" -> IF g.mode = "next" /\ g.done /\ AtEnd(g) THEN [g EXCEPT !.mode = ""] ELSE Blame(g, "C17")
    [] e.r = "ok" -> IF g.mode = "adv" /\ (g.done \/ Total(g, g.base) >= g.n)
                       THEN [g EXCEPT !.base = Skip(g, @, g.n), !.moved = TRUE, !.mode = ""] ELSE Blame(g, "C18")

After(g, e) ==
  CASE e.e = "append" -> [g EXCEPT !.segs = Append(@, e.ids)]
    [] e.e = "done" -> [g EXCEPT !.done = TRUE]
    [] e.e = "send_b" -> [g EXCEPT !.tsegs = Len(g.segs), !.tdone = g.done]
    [] e.e = "iter" -> [g EXCEPT !.at = {g.base}, !.first = TRUE, !.mode = ""]
    [] e.e = "next" -> [g EXCEPT !.mode = "next"]
    [] e.e = "adv" -> [g EXCEPT !.mode = "adv", !.n = e.n]
    [] e.e = "poll_e" -> Polled(g, e)
    [] e.e = "park" -> IF Owed(g) THEN Blame(g, IF g.mode = "adv" THEN "C18" ELSE "C17") ELSE g
    [] e.e \in {"spin", "stuck", "panic"} -> Blame(g, IF g.mode = "adv" THEN "C18" ELSE "C17")
    [] OTHER -> g          \* poll_b, wake, send_e, end
=============================================================================
