----------------------------- MODULE DefSeqImpl -----------------------------
(* The default sequence as built, filled by a producer, read by one reader. The notifier is the one Notify.tla
   promises: a poll of a wait tells of a signal since the wait was made, or registers the waker, which the next
   signal calls. The reader makes any requests it likes, and may drop them between polls.
   EndFirst: the end is looked at before the segments (FALSE: after them, as first found).
   Keep:     what is left to skip is kept over a poll (FALSE: forgotten, as first found).
   WaitFirst: the wait is made before the last look (FALSE: after it).
   Asleep:    a wait kept from the last poll is looked at (FALSE: everything is looked at again instead).
   The producer appends segments of sizes in Sizes, at most MaxSegs, signals when it likes but at last. *)
EXTENDS DefSeq, TLC
CONSTANTS EndFirst, Keep, WaitFirst, Asleep, Sizes, MaxSegs, Skips, Budget

VARIABLES g,       \* the history so far, judged
          segs, done, version, reg,            \* shared: reg the registered wakers
          base, it,                            \* the buffer's front, the reader's place
          pc, wait, new, remain, sawEnd, woken, wid, left, \* the reader
          untold                               \* the producer has something to signal
vars == <<g, segs, done, version, reg, base, it, pc, wait, new, remain, sawEnd, woken, wid, left, untold>>
None == -1
Init == /\ g = Start /\ segs = <<>> /\ done = FALSE /\ version = 0 /\ reg = {}
        /\ base = [i |-> 0, off |-> 0] /\ it = [i |-> 0, off |-> 0]
        /\ pc = "idle" /\ wait = None /\ new = None /\ remain = 0 /\ sawEnd = FALSE
        /\ woken = FALSE /\ wid = 0 /\ left = Budget /\ untold = FALSE
Ev(e) == g' = After(g, e)
reader == <<base, it, pc, wait, new, remain, sawEnd, wid, left>>
(* the producer *)
Ids(k) == LET n == Total([segs |-> segs], [i |-> 0, off |-> 0]) IN [j \in 1..k |-> n + j]
PAppend == /\ ~done /\ Len(segs) < MaxSegs
           /\ \E k \in Sizes : segs' = Append(segs, Ids(k)) /\ Ev([e |-> "append", ids |-> Ids(k)])
           /\ untold' = TRUE /\ UNCHANGED <<done, version, reg, reader, woken>>
PDone == /\ ~done /\ done' = TRUE /\ Ev([e |-> "done"]) /\ untold' = TRUE
         /\ UNCHANGED <<segs, version, reg, reader, woken>>
PSend == /\ untold /\ Ev([e |-> "send_b"]) /\ untold' = FALSE /\ version' = version + 1
         /\ woken' = (woken \/ wid \in reg) /\ reg' = {} /\ UNCHANGED <<segs, done, reader>>
shared == <<segs, done, version, untold>>
(* the reader asks *)
Ask == pc \in {"idle", "next?"} /\ left > 0 /\ left' = left - 1
Iter == /\ Ask /\ Ev([e |-> "iter"]) /\ it' = base /\ pc' = "idle" /\ wait' = None
        /\ UNCHANGED <<shared, reg, base, new, remain, sawEnd, wid, woken>>
AskNext == /\ Ask /\ Ev([e |-> "next"]) /\ pc' = "next?" /\ wait' = None /\ woken' = TRUE
           /\ UNCHANGED <<shared, reg, base, it, new, remain, sawEnd, wid>>
AskAdv == /\ Ask /\ \E n \in Skips : Ev([e |-> "adv", n |-> n]) /\ remain' = n
          /\ pc' = "adv?" /\ wait' = None /\ woken' = TRUE
          /\ UNCHANGED <<shared, reg, base, it, new, sawEnd, wid>>
(* a poll begins: the wait kept from the last one is polled *)
Poll == /\ pc \in {"next?", "adv?"} /\ woken
        /\ LET w == wid + 1 IN
           /\ wid' = w
           /\ IF wait = None \/ wait # version \/ ~Asleep
                THEN /\ woken' = FALSE /\ reg' = reg /\ pc' = IF pc = "next?" THEN "n1" ELSE "a1"
                     /\ UNCHANGED g
                ELSE /\ woken' = FALSE /\ reg' = reg \cup {w} /\ Ev([e |-> "poll_e", r |-> "pending"]) /\ UNCHANGED pc
        /\ UNCHANGED <<shared, base, it, wait, new, remain, sawEnd, left>>
rest == <<shared, reg, base, wid, left>>
Seg(p) == SubSeq(segs[p.i + 1], p.off + 1, Len(segs[p.i + 1]))
Deliver == /\ Ev([e |-> "poll_e", r |-> "seg", ids |-> Seg(it)]) /\ it' = [i |-> it.i + 1, off |-> 0] /\ pc' = "idle"
Has(p) == p.i < Len(segs)
Pend(p) == /\ Ev([e |-> "poll_e", r |-> "pending"]) /\ woken' = TRUE /\ pc' = p /\ wait' = new
N1 == /\ pc = "n1" /\ UNCHANGED rest /\ UNCHANGED <<woken, wait, new, remain, sawEnd>>
      /\ IF Has(it) THEN Deliver ELSE pc' = (IF WaitFirst THEN "n2" ELSE "n3") /\ UNCHANGED <<g, it>>
N2 == /\ pc = "n2" /\ new' = version /\ pc' = (IF WaitFirst THEN "n3" ELSE "n6")
      /\ UNCHANGED rest /\ UNCHANGED <<g, it, woken, wait, remain, sawEnd>>
(* the last look, in two steps, in either order *)
N3 == /\ pc = "n3" /\ UNCHANGED rest /\ UNCHANGED <<woken, wait, new, remain>>
      /\ IF EndFirst THEN sawEnd' = done /\ pc' = "n4" /\ UNCHANGED <<g, it>>
         ELSE IF Has(it) THEN Deliver /\ UNCHANGED <<sawEnd>> ELSE pc' = "n4" /\ UNCHANGED <<g, it, sawEnd>>
NEnd == Ev([e |-> "poll_e", r |-> "end"]) /\ pc' = "idle"
N4 == /\ pc = "n4" /\ UNCHANGED rest /\ UNCHANGED <<woken, wait, new, remain, sawEnd>>
      /\ IF EndFirst /\ Has(it) THEN Deliver
         ELSE IF (IF EndFirst THEN sawEnd ELSE done) THEN NEnd /\ UNCHANGED it
         ELSE pc' = (IF WaitFirst THEN "n6" ELSE "n2") /\ UNCHANGED <<g, it>>
N6 == /\ pc = "n6" /\ Pend("next?") /\ UNCHANGED rest /\ UNCHANGED <<it, new, remain, sawEnd>>
(* advancing *)
A1 == /\ pc = "a1" /\ pc' = (IF WaitFirst THEN "a2" ELSE "a3") /\ new' = (IF WaitFirst THEN version ELSE new)
      /\ UNCHANGED rest /\ UNCHANGED <<g, it, woken, wait, remain, sawEnd>>
Move == LET have == Total([segs |-> segs], base) IN
        /\ base' = (IF have <= remain THEN [i |-> Len(segs), off |-> 0] ELSE Skip([segs |-> segs], base, remain))
        /\ remain' = (IF have >= remain THEN 0 ELSE remain - have)
A2 == /\ pc = "a2" /\ UNCHANGED <<shared, reg, wid, left>> /\ UNCHANGED <<g, it, woken, wait, new>>
      /\ IF EndFirst THEN sawEnd' = done /\ UNCHANGED <<base, remain>> ELSE Move /\ UNCHANGED sawEnd
      /\ pc' = "a3"
A3 == /\ pc = "a3" /\ UNCHANGED <<shared, reg, wid, left>> /\ UNCHANGED <<g, it, woken, wait, new>>
      /\ IF EndFirst THEN Move /\ UNCHANGED sawEnd ELSE sawEnd' = done /\ UNCHANGED <<base, remain>>
      /\ pc' = "a4"
A4 == /\ pc = "a4" /\ UNCHANGED <<shared, reg, wid, left, base>> /\ UNCHANGED <<it, new, sawEnd>>
      /\ IF remain = 0 \/ sawEnd
           THEN Ev([e |-> "poll_e", r |-> "ok"]) /\ pc' = "idle" /\ UNCHANGED <<woken, wait, remain>>
           ELSE Pend("adv?") /\ remain' = (IF Keep THEN remain ELSE 0)
Producer == PAppend \/ PDone \/ PSend
Reader == Iter \/ AskNext \/ AskAdv \/ Poll \/ N1 \/ N2 \/ N3 \/ N4 \/ N6 \/ A1 \/ A2 \/ A3 \/ A4
(* nobody can do anything more for the reader *)
Parked == pc \in {"next?", "adv?"} /\ ~woken /\ ~untold
Next == Producer \/ Reader \/ (pc \in {"idle", "next?", "adv?"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Kept == g.bad = {}
AtRest == Parked => After(g, [e |-> "park"]).bad = {}
(* every poll is paid for by a request or a signal *)
Restful == wid <= 2 * (Budget - left) + 3 * version
(* the front is where the history says, whenever the reader is not at it *)
Front == pc = "idle" => Total([segs |-> segs], base) = Total([segs |-> segs], g.base)
=============================================================================
