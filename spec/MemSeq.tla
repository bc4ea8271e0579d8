------------------------------- MODULE MemSeq -------------------------------
(* In-memory inputs, plain and measured. State: full content, how much is consumed, live anchors (each a
   position). The measure of a position is what a meter gives for the units consumed so far; a meter that
   remembers everything it was fed stands for every meter.

   Ok(s, e): the observations of event e are those of the state After(s, e).                          *)
EXTENDS Integers, Sequences

(* of a brief history (long contents) only the size is known, and views are told as the position they begin at *)
Begin(full, size) == [full |-> full, size |-> size, pos |-> 0, anchors |-> <<>>]
Start(full) == Begin(full, Len(full))
Rest(s, p) == SubSeq(s.full, p + 1, Len(s.full))
Taken(s) == SubSeq(s.full, 1, s.pos)
Plus(s, p, n) == IF p + n > s.size THEN s.size ELSE p + n
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

After(s, e) ==
  CASE e.e = "adv" -> [s EXCEPT !.pos = Plus(s, @, e.n)]
    [] e.e = "anchor" -> [s EXCEPT !.anchors = Append(@, s.pos)]
    [] e.e = "rewind" -> [s EXCEPT !.pos = s.anchors[e.i], !.anchors = Without(@, e.i)]
    [] OTHER -> s
Counts(s, e, start) ==
  LET t == After(s, e) IN
  /\ "count" \in DOMAIN e => e.count = Len(start) + t.pos
  /\ "count2" \in DOMAIN e => e.count2 = Len(start) + Plus(t, t.pos, e.n)
(* a segment can be split after any of its units, and nowhere else (never within one) *)
Fits(t, e) == ~e.inside /\ t.pos + e.n <= t.size
Sides(t, e) == <<SubSeq(Rest(t, t.pos), 1, e.n), Rest(t, t.pos + e.n)>>
Brief(s, e, start) ==
  LET t == After(s, e) IN
  /\ e.e # "panic"
  /\ e.c = t.pos
  /\ Counts(s, e, start)
  /\ "m" \in DOMAIN e => e.m = t.pos
  /\ e.e = "split" => e.fits = Fits(t, e) /\ (e.fits => e.at0 = t.pos /\ e.at = t.pos + e.n /\ e.agree)
  /\ "s" \in DOMAIN e => /\ e.s = t.pos
                         /\ e.s2 = Plus(t, t.pos, e.n)
                         /\ "m2" \in DOMAIN e => e.m2 = Plus(t, t.pos, e.n)
(* start: what the meter had been given before *)
Ok(s, e, start) ==
  LET t == After(s, e) IN
  /\ e.e # "panic"
  /\ e.content = Rest(t, t.pos)
  /\ "metric" \in DOMAIN e => e.metric = start \o Taken(t)
  /\ Counts(s, e, start)
  (* the two sides, and the same from the operation that takes it for granted that there are *)
  /\ e.e = "split" => e.fits = Fits(t, e) /\ (e.fits => <<e.left, e.right>> = Sides(t, e) /\ e.agree)
  (* a view made on the side (a peek, a copy) and moved on by itself *)
  /\ "side" \in DOMAIN e => /\ e.side = Rest(t, t.pos)
                            /\ e.side2 = Rest(t, Plus(t, t.pos, e.n))
                            /\ "metric2" \in DOMAIN e => e.metric2 = start \o SubSeq(t.full, 1, Plus(t, t.pos, e.n))
=============================================================================
