---------------------------- MODULE OptionFuture ----------------------------
(* An optional future: empty, it is ready at once with nothing; otherwise every poll of it is one poll of the
   future inside with the same waker, and it is ready exactly when that is, with its value. The future inside
   is a script: pend times not ready (calling the waker if wakes), then ready with value.
   Events: a poll with waker w, the wakers the inside was polled with, those called, and the result. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Result(some, pend, value, n) == IF ~some THEN <<"none">> ELSE IF n <= pend THEN <<"pending">> ELSE <<"some", value>>
Ok(r, n, e) == /\ e.e = "poll"
               /\ e.result = Result(r.some, r.pend, r.value, n)
               /\ e.inside = IF r.some THEN <<e.w>> ELSE <<>>
               /\ e.woken = IF r.some /\ r.wakes /\ n <= r.pend THEN <<e.w>> ELSE <<>>
(* scripts to run: polled until ready, and some shorter *)
MaxPend == 4
VARIABLES some, pend, n, wakes
MCInit == some \in BOOLEAN /\ pend \in 0..MaxPend /\ wakes \in BOOLEAN /\ n \in 0..(MaxPend + 1) /\ n <= (IF some THEN pend + 1 ELSE 1)
MCNext == UNCHANGED <<some, pend, n, wakes>>
MCSpec == MCInit /\ [][MCNext]_<<some, pend, n, wakes>>
Emit == PrintT("CASE " \o ToJson([some |-> some, pend |-> pend, value |-> pend * 10 + n, wakes |-> wakes, polls |-> n]))
=============================================================================
