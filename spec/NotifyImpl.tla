----------------------------- MODULE NotifyImpl -----------------------------
(* The notifier as built: a version number, a lock, a set of registered wakers. Every access to a shared
   variable is one step. Threads make any calls they like, a given number of them; a waker may send again
   when called. HoldLock TRUE is the notifier as first found, which calls wakers while holding the lock.
   Tasks TRUE: a thread polls all its waits with one waker, its task's. Dedup: "no" is the notifier as built; "keep"
   registers a task's waker once; "withdraw" does so, and takes it away again when a poll finds itself complete after
   all, which others still need.                                                                                 *)
EXTENDS Notify, TLC
CONSTANTS Threads, Budget, MaxWaits, HoldLock, Recheck, Actions, Tasks, Dedup   \* Actions: what wakers may do: "none", "send", "wait"

VARIABLES version, lock, slab, act, stack, left, g, nsend
vars == <<version, lock, slab, act, stack, left, g, nsend>>
(* stack: per thread, frames of calls in progress, innermost first; seen: per wait, the version it saw (in act) *)
Init == /\ version = 0 /\ lock = 0 /\ slab = <<>> /\ g = Start /\ nsend = 0
        /\ act = [seen |-> <<>>, of |-> <<>>, by |-> <<>>]
        /\ stack = [t \in Threads |-> <<>>] /\ left = [t \in Threads |-> Budget]
Top(t) == Head(stack[t])
Set(t, f) == stack' = [stack EXCEPT ![t] = <<f>> \o Tail(@)]
Pop(t) == stack' = [stack EXCEPT ![t] = Tail(@)]
Idle(t) == stack[t] = <<>> /\ left[t] > 0
Use(t) == left' = [left EXCEPT ![t] = @ - 1]

WaitB(t) == /\ Idle(t) /\ Len(act.seen) < MaxWaits /\ Use(t)
            /\ g' = After(g, [e |-> "wait_b"])
            /\ act' = [act EXCEPT !.seen = Append(@, -1), !.by = Append(@, t)]
            /\ stack' = [stack EXCEPT ![t] = <<[op |-> "wait", k |-> Len(act.seen) + 1]>>]
            /\ UNCHANGED <<version, lock, slab, nsend>>
WaitLoad(t) == /\ stack[t] # <<>> /\ Top(t).op = "wait"
               /\ act' = [act EXCEPT !.seen[Top(t).k] = version]
               /\ g' = After(g, [e |-> "wait_e", k |-> Top(t).k])
               /\ Pop(t) /\ UNCHANGED <<version, lock, slab, left, nsend>>
PollB(t) == /\ Idle(t) /\ Use(t)
            /\ \E k \in {j \in DOMAIN act.seen : act.by[j] = t}, a \in Actions :
                 /\ act' = [act EXCEPT !.of = Append(@, a)]
                 /\ g' = After(g, [e |-> "poll_b", k |-> k, w |-> Len(act.of) + 1, t |-> IF Tasks THEN -t ELSE Len(act.of) + 1])
                 /\ stack' = [stack EXCEPT ![t] = <<[op |-> "poll1", k |-> k, w |-> Len(act.of) + 1]>>]
            /\ UNCHANGED <<version, lock, slab, nsend>>
PollEnd(t, ready) == g' = After(g, [e |-> "poll_e", k |-> Top(t).k, ready |-> ready])
Poll1(t) == /\ stack[t] # <<>> /\ Top(t).op = "poll1"
            /\ IF act.seen[Top(t).k] # version THEN PollEnd(t, TRUE) /\ Pop(t)
               ELSE Set(t, [Top(t) EXCEPT !.op = "poll2"]) /\ UNCHANGED g
            /\ UNCHANGED <<version, lock, slab, act, left, nsend>>
Poll2(t) == /\ stack[t] # <<>> /\ Top(t).op = "poll2" /\ lock = 0
            /\ slab' = (IF Dedup # "no" /\ \E i \in DOMAIN slab : g.tag[slab[i]] = g.tag[Top(t).w] THEN slab ELSE Append(slab, Top(t).w))
            /\ lock' = t
            /\ Set(t, [Top(t) EXCEPT !.op = "poll3"]) /\ UNCHANGED <<version, act, left, g, nsend>>
Poll3(t) == /\ stack[t] # <<>> /\ Top(t).op = "poll3"
            /\ lock' = 0
            /\ LET w == Top(t).w IN
               IF Recheck /\ act.seen[Top(t).k] # version
                 THEN slab' = SelectSeq(slab, LAMBDA x : CASE Dedup = "no" -> x # w [] Dedup = "keep" -> TRUE [] OTHER -> g.tag[x] # g.tag[w]) /\ PollEnd(t, TRUE)
                 ELSE UNCHANGED slab /\ PollEnd(t, FALSE)
            /\ Pop(t) /\ UNCHANGED <<version, act, left, nsend>>

SendFrame == [op |-> "send1", s |-> nsend + 1]
Begin(t) == /\ g' = After(g, [e |-> "send_b", s |-> nsend + 1]) /\ nsend' = nsend + 1
SendB(t) == /\ Idle(t) /\ Use(t) /\ Begin(t)
            /\ stack' = [stack EXCEPT ![t] = <<SendFrame>>] /\ UNCHANGED <<version, lock, slab, act>>
Send1(t) == /\ stack[t] # <<>> /\ Top(t).op = "send1" /\ version' = version + 1
            /\ Set(t, [Top(t) EXCEPT !.op = "send2"]) /\ UNCHANGED <<lock, slab, act, left, g, nsend>>
Send2(t) == /\ stack[t] # <<>> /\ Top(t).op = "send2" /\ lock = 0
            /\ lock' = IF HoldLock THEN t ELSE 0
            /\ Set(t, [op |-> "send3", s |-> Top(t).s, q |-> slab]) /\ slab' = <<>>
            /\ UNCHANGED <<version, act, left, g, nsend>>
Send3(t) == /\ stack[t] # <<>> /\ Top(t).op = "send3"
            /\ LET f == Top(t) IN
               IF f.q = <<>>
                 THEN /\ lock' = IF HoldLock THEN 0 ELSE lock
                      /\ g' = After(g, [e |-> "send_e", s |-> f.s]) /\ Pop(t) /\ UNCHANGED nsend
                 ELSE LET w == Head(f.q)
                          h == After(g, [e |-> "wake", t |-> g.tag[w]])
                          rest == [f EXCEPT !.q = Tail(@)] IN
                      IF act.of[w] = "send" /\ nsend < 4
                        THEN /\ g' = After(h, [e |-> "send_b", s |-> nsend + 1]) /\ nsend' = nsend + 1
                             /\ stack' = [stack EXCEPT ![t] = <<SendFrame, rest>> \o Tail(@)] /\ UNCHANGED lock
                        ELSE g' = h /\ Set(t, rest) /\ UNCHANGED <<lock, nsend>>
            /\ UNCHANGED <<version, slab, act, left>>
Step(t) == WaitB(t) \/ WaitLoad(t) \/ PollB(t) \/ Poll1(t) \/ Poll2(t) \/ Poll3(t) \/ SendB(t) \/ Send1(t) \/ Send2(t) \/ Send3(t)
AllDone == \A t \in Threads : stack[t] = <<>>
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Kept == g.bad = {}
(* whatever was promised is visible at rest: polling any wait that must be complete would say so *)
AtRest == AllDone => \A k \in DOMAIN g.waits : g.waits[k].must => act.seen[k] # version
=============================================================================
