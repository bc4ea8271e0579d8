------------------------------- MODULE GenSeq -------------------------------
(* The generic sequence of parcom-sequences as its users see it: a source writes items through a
   writer, a loader publishes them in segments, a buffer shows what is published and not yet consumed.

   The state is a record; an event is a record. After(s, e) is the state after e, Bad(s, e) the set of
   properties that e, happening in s, violates ({} when the specification allows e). An execution is
   allowed when no event of it is bad. What is left open on purpose: how much each load publishes and
   how the published items are cut into segments.

   Items are numbers. Labels: C12 faithful delivery, C13 reports, C14 the reader's view, C15 writers,
   C25 release.                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets

NoWriter == [on |-> FALSE, cap |-> 0, items |-> <<>>]
Init0 ==
  [wr    |-> <<>>,       \* items the source has written, in order
   pub   |-> 0,          \* how many of them are published
   pos   |-> 0,          \* how many of the published ones are consumed
   its   |-> <<>>,       \* readers: position of each, in order of creation
   w     |-> NoWriter,   \* the writer of the load under way
   buf   |-> TRUE, ldr |-> TRUE,
   ended |-> FALSE,
   made  |-> {}, gone |-> {}, lost |-> {},
   ngone |-> 0, nlost |-> 0,  \* how many of them
   ends  |-> {0}]        \* known ends of published segments

Range(q) == {q[i] : i \in 1..Len(q)}
Min(a, b) == IF a < b THEN a ELSE b
Held(s) == SubSeq(s.wr, s.pub + 1, Len(s.wr))
Visible(s) == SubSeq(s.wr, s.pos + 1, s.pub)
Slice(q, from, n) == SubSeq(q, from + 1, from + n)
IsSlice(q, from, seg) == from + Len(seg) <= Len(q) /\ Slice(q, from, Len(seg)) = seg

WriterEvents == {"req", "push", "fill", "raw", "shrink"}

(* what an event says is published after it *)
SeenPub(s, e) == IF e.live THEN s.pos + Len(e.seen)
                 ELSE IF e.e = "load" /\ "r" \in DOMAIN e THEN s.pub + e.r.c
                 ELSE IF e.e = "burst" THEN s.pub + e.c
                 ELSE s.pub
Ends(from, cuts) == {from + cuts[i] : i \in 1..Len(cuts)}

(* the items a load adds: what its writer holds, or the chunk of an iterator source *)
Added(s, e) == IF e.e = "load" /\ e.out = "adv" THEN (IF "ids" \in DOMAIN e THEN e.ids ELSE s.w.items) ELSE <<>>

Core(s, e) ==
  CASE e.e = "req" -> [s EXCEPT !.w = [on |-> TRUE, cap |-> e.cap, items |-> <<>>]]
    [] e.e = "push" ->
        LET a == e.back = 0
        IN [s EXCEPT !.w.items = IF a THEN Append(@, e.id) ELSE @, !.made = @ \cup {e.id},
                     !.lost = IF a THEN @ ELSE @ \cup {e.id}, !.nlost = IF a THEN @ ELSE @ + 1]
    [] e.e = "fill" -> [s EXCEPT !.w.items = @ \o e.acc, !.made = @ \cup Range(e.acc) \cup Range(e.rej), !.lost = @ \cup Range(e.rej),
                                 !.nlost = @ + Len(e.rej)]
    [] e.e = "raw" -> [s EXCEPT !.w.items = @ \o e.ids, !.made = @ \cup Range(e.ids)]
    [] e.e = "shrink" ->
        LET k == Min(e.n, Len(s.w.items))
        IN [s EXCEPT !.w.items = SubSeq(@, 1, k), !.lost = @ \cup Range(SubSeq(s.w.items, k + 1, Len(s.w.items))),
                     !.nlost = @ + Len(s.w.items) - k]
    [] e.e = "load" ->
        LET all == s.wr \o Added(s, e)
            ok == e.out \in {"adv", "fin"}
            p == Min(SeenPub(s, e), Len(all))
        IN [s EXCEPT !.wr = all, !.made = @ \cup Range(Added(s, e)),
                     !.pub = IF e.out = "fin" THEN Len(all) ELSE IF ok /\ p > s.pub THEN p ELSE s.pub,
                     !.lost = IF ok THEN @ ELSE @ \cup Range(s.w.items),
                     !.nlost = IF ok THEN @ ELSE @ + Len(s.w.items),
                     !.ended = @ \/ e.out = "fin",
                     !.w = NoWriter]
    (* many loads in a row, each accepting all its source writes, watched as one *)
    [] e.e = "burst" ->
        LET all == s.wr \o e.ids
            p == Min(SeenPub(s, e), Len(all))
        IN [s EXCEPT !.wr = all, !.made = @ \cup Range(e.ids), !.pub = IF p > s.pub THEN p ELSE s.pub, !.w = NoWriter]
    [] e.e = "force" -> [s EXCEPT !.pub = Len(s.wr)]
    [] e.e = "consume" -> [s EXCEPT !.pos = @ + Min(e.n, s.pub - s.pos), !.its = [i \in DOMAIN s.its |-> 0 - 1]]
    [] e.e = "iter" -> [s EXCEPT !.its = Append(@, s.pos)]
    [] e.e \in {"next", "drain"} -> [s EXCEPT !.its[e.i] = @ + Len(e.seg)]
    [] e.e = "dropbuf" -> [s EXCEPT !.buf = FALSE, !.its = [i \in DOMAIN s.its |-> 0 - 1]]
    [] e.e = "dropldr" -> [s EXCEPT !.ldr = FALSE]
    [] OTHER -> s
After(s, e) ==
  LET t == Core(s, e)
      k == {t.pos} \cup (IF e.e \in WriterEvents \/ e.e = "panic" THEN {} ELSE Ends(t.pos, e.cuts))
  IN IF e.e = "panic" THEN s ELSE [t EXCEPT !.gone = @ \cup Range(e.gone), !.ngone = @ + Len(e.gone), !.ends = @ \cup (k \ {t.pos})]

(* ---- release: what may be released, what must be ---- *)
MayGo(t) ==
  t.lost
  \cup Range(SubSeq(t.wr, 1, IF t.buf THEN t.pos ELSE t.pub))
  \cup (IF t.ldr THEN {} ELSE Range(Held(t)))
ReleasedTo(t) == LET E == {x \in t.ends : x <= t.pos} IN CHOOSE x \in E : \A y \in E : y <= x
MustGo(t) ==
  t.lost
  \cup Range(SubSeq(t.wr, 1, IF t.buf THEN ReleasedTo(t) ELSE t.pub))
  \cup (IF t.ldr THEN {} ELSE Range(Held(t)))
BadRelease(s, t, e) ==
  \/ Cardinality(Range(e.gone)) # Len(e.gone)
  \/ Range(e.gone) \cap s.gone # {}
  \/ ~(t.gone \subseteq MayGo(t))
  \/ ~(MustGo(t) \subseteq t.gone)
(* the same by numbers alone, for items that are all alike *)
BadNumber(t) ==
  LET held == IF t.ldr THEN 0 ELSE Len(Held(t)) IN
  \/ t.ngone > t.nlost + (IF t.buf THEN t.pos ELSE t.pub) + held
  \/ t.ngone < t.nlost + (IF t.buf THEN ReleasedTo(t) ELSE t.pub) + held

Label(b, l) == IF b THEN {l} ELSE {}
Bad(s, e) ==
  IF e.e = "panic" THEN {"C12", "C13", "C14", "C15", "C25"} ELSE
  LET t == After(s, e) IN
  Label("drops" \in DOMAIN e /\ e.drops /\ BadRelease(s, t, e), "C25") \cup
  Label("alike" \in DOMAIN e /\ e.alike /\ BadNumber(t), "C25") \cup
  (IF e.e \in WriterEvents THEN
     Label(\/ e.items # t.w.items \/ e.items2 # t.w.items
           \/ e.len # Len(t.w.items) \/ e.cap # t.w.cap
           \/ e.spare # e.cap - e.len
           \/ e.e = "req" /\ e.cap < e.n
           \/ e.e = "push" /\ ((e.back = 0) # (Len(s.w.items) < s.w.cap))
           \/ e.e = "push" /\ e.back \notin {0, e.id}
           (* many pushes at once: accepted while there is room, the others given back *)
           \/ e.e = "fill" /\ (\/ Len(e.acc) # Min(e.n, s.w.cap - Len(s.w.items))
                               \/ e.back # e.rej
                               \/ Len(e.acc) + Len(e.rej) # e.n
                               \/ e.late # 0), "C15")
   ELSE
   (* the readable items are the published, unconsumed ones *)
   Label(e.live /\ e.seen # Visible(t) /\ e.e # "consume", "C12") \cup
   (* once something is consumed, or when something readable before is not now, the view itself is off *)
   Label(e.live /\ e.seen # Visible(t) /\
         (t.pos > 0 \/ e.e = "consume" \/ SubSeq(e.seen, 1, Min(Len(e.seen), s.pub - s.pos)) # Visible(s)), "C14") \cup
   (CASE e.e = "load" ->
          (* published items stay, and only written ones appear *)
          Label(e.out \in {"adv", "fin"} /\ ("r" \in DOMAIN e) /\
                (\/ e.r.c # t.pub - s.pub
                 \/ e.r.u # Len(t.wr) - t.pub
                 \/ e.r.u > e.r.cap
                 (* the buffer that holds them is the one its writer wrote to: its room there, and what it held before *)
                 \/ e.out = "adv" /\ "ids" \notin DOMAIN e /\ e.r.cap # s.w.cap + (e.r.u - Len(s.w.items))
                 \/ e.r.done # (e.out = "fin")
                 \/ e.r.done /\ e.r.cap # 0), "C13") \cup
          (* a source that goes on is not reported to have ended *)
          Label(e.out = "adv" /\ ("r" \in DOMAIN e) /\ e.r.done, "C12") \cup
          Label(e.live /\ SeenPub(s, e) # t.pub, IF e.out \in {"adv", "fin"} THEN "C12" ELSE "C13") \cup
          Label(e.out \in {"adv", "fin"} /\ "r" \notin DOMAIN e, "C13") \cup
          Label(e.out \in {"ctl", "cancel"} /\ ("err" \notin DOMAIN e \/ e.err # (IF e.out = "ctl" THEN 77 ELSE 78)), "C12")
       [] e.e = "burst" ->
          Label(e.c # t.pub - s.pub \/ e.u # Len(t.wr) - t.pub, "C13") \cup Label(e.live /\ SeenPub(s, e) # t.pub, "C12")
       [] e.e = "drain" -> Label(e.seg # SubSeq(s.wr, s.its[e.i] + 1, s.pub), "C14")
       [] e.e = "force" -> Label(e.live /\ SeenPub(s, e) # t.pub, "C13")
       [] e.e = "consume" ->
          Label(e.ret # e.n - (t.pos - s.pos), "C14") \cup Label(~e.same, "C13")
       [] e.e = "next" ->
          Label(~e.some /\ s.its[e.i] # s.pub, "C14") \cup
          Label(s.its[e.i] + Len(e.seg) > s.pub \/ ~IsSlice(s.wr, s.its[e.i], e.seg), "C14")
       [] e.e = "dropbuf" -> Label(~e.same, "C13")
       [] OTHER -> {}))

(* ---- what the specification promises about any allowed execution ---- *)
Sound(s) ==
  /\ s.pos <= s.pub /\ s.pub <= Len(s.wr)
  /\ \A i \in 1..Len(s.its) : s.its[i] = 0 - 1 \/ (s.its[i] >= s.pos /\ s.its[i] <= s.pub)
  /\ Cardinality(Range(s.wr)) = Len(s.wr)
  /\ s.w.on => Len(s.w.items) <= s.w.cap
  /\ s.gone \subseteq s.made
  /\ ~s.ldr /\ ~s.buf /\ ~s.w.on => s.gone = s.made
  /\ s.lost \cap Range(s.wr) = {}
=============================================================================
