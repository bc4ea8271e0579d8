------------------------------- MODULE Notify -------------------------------
(* What a notifier promises, as a machine that reads begin and end of every call and every call of a waker.
   Calls of different threads overlap; a call inside a waker is nested in the send that woke it.
   C19: no lost wake-ups, nothing blocks. C20: nothing completes too early, what completed stays complete. *)
EXTENDS Integers, Sequences, FiniteSets

(* waits: per wait, whether it is created, whether a send could have completed it, whether it must be complete,
   whether it was seen ready, the waker of its last pending poll (0: none), the waker of a running poll and
   whether that poll must say ready.  woken: wakers called.  sends: running sends with the waits that existed
   before they began.  owner: waker -> wait.  owed: wakers that must be called before some running sends return;
   excused: wakers a send took that then panicked in another waker.
   Each poll has a waker of its own number; those of polls by the same task (tag) are one and the same, and called at once. *)
Start == [waits |-> <<>>, sends |-> {}, woken |-> {}, owner |-> <<>>, tag |-> <<>>, owed |-> {}, excused |-> {}, bad |-> {}]
Wait0(could) == [made |-> FALSE, could |-> could, must |-> FALSE, ready |-> FALSE, last |-> 0, cur |-> 0, due |-> FALSE]
Made(g) == {k \in DOMAIN g.waits : g.waits[k].made}
Flag(g, c, label) == IF c THEN g ELSE [g EXCEPT !.bad = @ \union label]
Ids(sends) == {x.s : x \in sends}
(* every waker of ws not called yet is owed by the sends running now *)
Owe(g, ws) == [g EXCEPT !.owed = @ \union {[w |-> w, by |-> Ids(g.sends)] : w \in (ws \ g.woken) \ g.excused}]
(* a debt nobody is left to pay *)
Settle(g) == Flag([g EXCEPT !.owed = {o \in @ : o.by # {}}], \A o \in g.owed : o.by # {}, {"C19"})

(* waits and wakers are numbered in order of their begin events *)
After(g, e) ==
  CASE e.e = "wait_b" -> [g EXCEPT !.waits = Append(@, Wait0(g.sends # {}))]
    [] e.e = "wait_e" -> [g EXCEPT !.waits[e.k].made = TRUE]
    [] e.e = "send_b" ->
         [g EXCEPT !.sends = @ \union {[s |-> e.s, all |-> Made(g)]},
                   !.waits = [k \in DOMAIN @ |-> [@[k] EXCEPT !.could = TRUE]]]
    [] e.e = "send_e" ->      \* its waits are complete; those pending were woken, if not by another send that took the waker
         LET s == CHOOSE x \in g.sends : x.s = e.s
             h == [g EXCEPT !.sends = @ \ {s},
                            !.waits = [k \in DOMAIN @ |-> IF k \in s.all THEN [@[k] EXCEPT !.must = TRUE] ELSE @[k]],
                            !.owed = {[o EXCEPT !.by = @ \ {e.s}] : o \in @}]
         IN Settle(Owe(h, {g.waits[k].last : k \in {j \in s.all : g.waits[j].cur = 0 /\ g.waits[j].last # 0}}))
    [] e.e = "send_x" ->      \* a waker panicked: the wakers this send may have taken are not promised to be called
         [g EXCEPT !.sends = {x \in @ : x.s # e.s}, !.owed = {o \in @ : e.s \notin o.by},
                   !.excused = @ \union UNION {{g.waits[k].last, g.waits[k].cur} : k \in DOMAIN g.waits}]
    [] e.e = "poll_b" -> [g EXCEPT !.waits[e.k].cur = e.w, !.waits[e.k].due = g.waits[e.k].must, !.owner = Append(@, e.k), !.tag = Append(@, e.t)]
    [] e.e = "poll_e" ->
         LET w == g.waits[e.k] IN
         IF e.ready
           THEN Flag([g EXCEPT !.waits[e.k].cur = 0, !.waits[e.k].last = 0, !.waits[e.k].ready = TRUE], w.could, {"C20"})
           ELSE LET h == Flag(Flag([g EXCEPT !.waits[e.k].cur = 0, !.waits[e.k].last = w.cur],
                                   ~w.due, {"C19", "C20"}),
                              ~w.ready, {"C20"})
                IN IF w.must THEN Settle(Owe(h, {w.cur})) ELSE h
    [] e.e = "wake" ->
         LET ws == {w \in DOMAIN g.tag : g.tag[w] = e.t} IN
         Flag([g EXCEPT !.woken = @ \union ws, !.owed = {o \in @ : o.w \notin ws}], \E w \in ws : g.waits[g.owner[w]].could, {"C20"})
    [] e.e = "gone" ->        \* the wait is dropped: nobody waits for its waker any more
         LET ws == {g.waits[e.k].last} \ {0} IN
         [g EXCEPT !.excused = @ \union ws, !.owed = {o \in @ : o.w \notin ws}, !.waits[e.k].last = 0]
    [] e.e = "end" -> g
    [] OTHER -> Flag(g, FALSE, {"C19"})        \* "stuck": nobody can go on; "panic"
=============================================================================
