----------------------------- MODULE GenSeqImpl -----------------------------
(* The generic sequence as it is built: a vector being filled (`cur`), a chain of published segments, a
   head (segment, offset). Histories of commands run on it; every event it produces is checked against
   GenSeq (invariant Refines), and every complete history is printed to be run on the real code.      *)
EXTENDS GenSeq, TLC, Json

CONSTANTS Family,   \* which commands
          Steps,    \* how many commands
          Random,   \* one random command at each step (for simulation) instead of all
          StratK, StratA     \* the growth strategy

VARIABLES c,        \* the implementation's state
          a,        \* the state of the specification GenSeq
          cmds,     \* the history so far
          bad,      \* labels of the events seen so far
          left      \* commands still to come
vars == <<c, a, cmds, bad, left>>

Strat == [k |-> StratK, a |-> StratA]
CalcCap(n) == CASE Strat.k = "exact" -> n [] Strat.k = "plus" -> n + Strat.a
                [] Strat.k = "mul" -> n * Strat.a [] OTHER -> (IF n > Strat.a THEN n ELSE Strat.a)

CInit == [cur |-> [items |-> <<>>, cap |-> 0], chain |-> <<>>, head |-> 1, off |-> 0, its |-> <<>>,
          buf |-> TRUE, ldr |-> TRUE, id |-> 0, fin |-> FALSE]

(* ---- observations ---- *)
SegsFrom(st, h, o) ==
  [i \in 1..(Len(st.chain) - h + 1) |-> SubSeq(st.chain[h + i - 1], (IF i = 1 THEN o ELSE 0) + 1, Len(st.chain[h + i - 1]))]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Cuts(q) == [i \in 1..Len(q) |-> Len(Flat(SubSeq(q, 1, i)))]
SetToSeq(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
Obs(st, gone) == LET g == IF st.buf THEN SegsFrom(st, st.head, st.off) ELSE <<>> IN
  [live |-> st.buf, seen |-> Flat(g), cuts |-> Cuts(g), gone |-> SetToSeq(gone), drops |-> TRUE]

(* ---- one command: the state after it and its events ---- *)
Commit(st, items) == [st EXCEPT !.chain = Append(@, items)]
(* what goes with a published segment when nothing can read the chain any more *)
Unread(st, items) == IF st.buf THEN {} ELSE Range(items)

RECURSIVE Ops(_, _, _, _, _, _)
\* st.cur is the vector, off where the request starts; returns [st, ev]
Ops(st, off, ops, i, k, ev) ==
  IF i > Len(ops) THEN [st |-> st, ev |-> ev]
  ELSE LET op == ops[i]
           w == SubSeq(st.cur.items, off + 1, Len(st.cur.items))
           cap == st.cur.cap - off
           View(x, n, more) == [items |-> x, items2 |-> x, len |-> Len(x), cap |-> cap, spare |-> cap - Len(x)] @@ more
       IN IF "push" \in DOMAIN op THEN
            IF k = 0 THEN Ops(st, off, ops, i + 1, IF i < Len(ops) /\ "push" \in DOMAIN ops[i + 1] THEN ops[i + 1].push ELSE 0, ev)
            ELSE LET id == st.id + 1
                     ok == Len(w) < cap
                     w2 == IF ok THEN Append(w, id) ELSE w
                     st2 == [st EXCEPT !.id = id, !.cur.items = IF ok THEN Append(@, id) ELSE @]
                 IN Ops(st2, off, ops, i, k - 1,
                        Append(ev, View(w2, 0, [e |-> "push", id |-> id, back |-> IF ok THEN 0 ELSE id,
                                                gone |-> IF ok THEN <<>> ELSE <<id>>, drops |-> TRUE])))
          ELSE IF "raw" \in DOMAIN op THEN
            LET n == Min(op.raw, cap - Len(w))
                ids == [x \in 1..n |-> st.id + x]
                st2 == [st EXCEPT !.id = @ + n, !.cur.items = @ \o ids]
            IN Ops(st2, off, ops, i + 1, IF i < Len(ops) /\ "push" \in DOMAIN ops[i + 1] THEN ops[i + 1].push ELSE 0,
                   Append(ev, View(w \o ids, 0, [e |-> "raw", ids |-> ids, gone |-> <<>>, drops |-> TRUE])))
          ELSE LET m == Min(op.shrink, Len(w))
                   st2 == [st EXCEPT !.cur.items = SubSeq(@, 1, off + m)]
               IN Ops(st2, off, ops, i + 1, IF i < Len(ops) /\ "push" \in DOMAIN ops[i + 1] THEN ops[i + 1].push ELSE 0,
                      Append(ev, View(SubSeq(w, 1, m), 0, [e |-> "shrink", n |-> op.shrink,
                                       gone |-> SubSeq(w, m + 1, Len(w)), drops |-> TRUE])))

LoadWriter(st, cmd) ==
  LET len == Len(st.cur.items)
      roomy == st.cur.cap - len >= cmd.n
      old == IF roomy THEN [items |-> <<>>, cap |-> 0] ELSE st.cur
      st1 == IF roomy THEN st ELSE [st EXCEPT !.cur = [items |-> <<>>, cap |-> CalcCap(cmd.n)]]
      off == IF roomy THEN len ELSE 0
      cap == st1.cur.cap - off
      req == [e |-> "req", n |-> cmd.n, len |-> 0, cap |-> cap, items |-> <<>>, items2 |-> <<>>, spare |-> cap,
              gone |-> <<>>, drops |-> TRUE]
      r == Ops(st1, off, cmd.ops, 1, IF cmd.ops # <<>> /\ "push" \in DOMAIN cmd.ops[1] THEN cmd.ops[1].push ELSE 0, <<req>>)
      st2 == r.st
      w == SubSeq(st2.cur.items, off + 1, Len(st2.cur.items))
  IN IF cmd.out = "adv" THEN
       LET st3 == IF old.items = <<>> THEN st2 ELSE Commit(st2, old.items)
           rep == [c |-> Len(old.items), u |-> Len(st2.cur.items), cap |-> st2.cur.cap, done |-> FALSE]
       IN [st |-> st3, ev |-> Append(r.ev, [e |-> "load", out |-> "adv", r |-> rep] @@ Obs(st3, Unread(st3, old.items)))]
     ELSE
       LET back == [st2 EXCEPT !.cur = IF old.items = <<>> THEN [st2.cur EXCEPT !.items = SubSeq(@, 1, off)] ELSE old]
       IN [st |-> back,
           ev |-> Append(r.ev, (IF cmd.out = "cancel" THEN [e |-> "load", out |-> "cancel", err |-> 78]
                                ELSE [e |-> "load", out |-> cmd.out]) @@ Obs(back, Range(w)))]

RECURSIVE Walk(_, _, _, _)
Walk(st, h, o, n) ==
  IF h > Len(st.chain) THEN [h |-> h, o |-> 0, n |-> n]
  ELSE LET l == Len(st.chain[h]) - o IN
       IF n < l THEN [h |-> h, o |-> o + n, n |-> 0] ELSE Walk(st, h + 1, 0, n - l)

Exec(st, cmd) ==
  CASE cmd.op = "load" /\ cmd.out = "abandon" /\ "late" \in DOMAIN cmd /\ cmd.late = "fin" ->
        [st |-> st, ev |-> <<[e |-> "load", out |-> "abandon"] @@ Obs(st, {})>>]
    [] cmd.op = "load" /\ cmd.out = "fin" ->
        LET st2 == [Commit(st, st.cur.items) EXCEPT !.cur = [items |-> <<>>, cap |-> 0], !.fin = TRUE]
        IN [st |-> st2, ev |-> <<[e |-> "load", out |-> "fin", r |-> [c |-> Len(st.cur.items), u |-> 0, cap |-> 0, done |-> TRUE]]
                                 @@ Obs(st2, Unread(st2, st.cur.items))>>]
    [] cmd.op = "load" /\ cmd.out = "ctl" ->
        [st |-> st, ev |-> <<[e |-> "load", out |-> "ctl", err |-> 77] @@ Obs(st, {})>>]
    [] cmd.op = "load" -> LoadWriter(st, cmd)
    [] cmd.op = "force" ->
        LET st2 == [Commit(st, st.cur.items) EXCEPT !.cur = [items |-> <<>>, cap |-> 0]]
        IN [st |-> st2, ev |-> <<[e |-> "force"] @@ Obs(st2, Unread(st2, st.cur.items))>>]
    [] cmd.op = "consume" ->
        LET r == Walk(st, st.head, st.off, cmd.n)
            st2 == [st EXCEPT !.head = r.h, !.off = r.o, !.its = [i \in DOMAIN st.its |-> [h |-> 0, o |-> 0]]]
        IN [st |-> st2, ev |-> <<[e |-> "consume", n |-> cmd.n, ret |-> r.n, same |-> TRUE]
                                 @@ Obs(st2, UNION {Range(st.chain[i]) : i \in st.head..(r.h - 1)})>>]
    [] cmd.op = "iter" ->
        [st |-> [st EXCEPT !.its = Append(@, [h |-> st.head, o |-> st.off])], ev |-> <<[e |-> "iter", i |-> cmd.i] @@ Obs(st, {})>>]
    [] cmd.op = "next" ->
        LET t == st.its[cmd.i] IN
        IF t.h > Len(st.chain) THEN [st |-> st, ev |-> <<[e |-> "next", i |-> cmd.i, some |-> FALSE, seg |-> <<>>] @@ Obs(st, {})>>]
        ELSE [st |-> [st EXCEPT !.its[cmd.i] = [h |-> t.h + 1, o |-> 0]],
              ev |-> <<[e |-> "next", i |-> cmd.i, some |-> TRUE, seg |-> SubSeq(st.chain[t.h], t.o + 1, Len(st.chain[t.h]))] @@ Obs(st, {})>>]
    [] cmd.op = "dropbuf" ->
        LET st2 == [st EXCEPT !.buf = FALSE, !.its = [i \in DOMAIN st.its |-> [h |-> 0, o |-> 0]]]
        IN [st |-> st2, ev |-> <<[e |-> "dropbuf", same |-> TRUE]
                                 @@ Obs(st2, UNION {Range(st.chain[i]) : i \in st.head..Len(st.chain)})>>]
    [] cmd.op = "dropldr" ->
        LET st2 == [st EXCEPT !.ldr = FALSE, !.cur.items = <<>>]
        IN [st |-> st2, ev |-> <<[e |-> "dropldr"] @@ Obs(st2, Range(st.cur.items))>>]

RECURSIVE Fold(_, _, _, _)
Fold(s, ev, i, b) == IF i > Len(ev) THEN [s |-> s, b |-> b] ELSE Fold(After(s, ev[i]), ev, i + 1, b \cup Bad(s, ev[i]))

(* ---- commands ---- *)
L(n, ops, out) == [op |-> "load", n |-> n, ops |-> ops, out |-> out]
(* given up after the source has said how the load ends: it was to publish, to cancel, to finish *)
Late(n, ops, late) == [op |-> "load", n |-> n, ops |-> ops, out |-> "abandon", late |-> late]
P(k) == [push |-> k]
S(m) == [shrink |-> m]
R(m) == [raw |-> m]
LoadsOf ==
  CASE Family = "hist" -> {L(1, <<P(1)>>, "adv"), L(2, <<P(2)>>, "adv"), L(2, <<P(1)>>, "adv"), L(0, <<>>, "adv"),
                           L(3, <<P(3), S(1)>>, "adv"), L(2, <<P(1)>>, "cancel"), L(1, <<P(1)>>, "cancel"), L(2, <<P(2)>>, "abandon"),
                           Late(2, <<P(1)>>, "adv"), Late(1, <<P(1)>>, "adv"), Late(0, <<>>, "fin"),
                           L(0, <<>>, "fin"), L(0, <<>>, "ctl")}
    [] Family = "writer" -> {L(n, o, out) : n \in {0, 1, 3}, out \in {"adv", "cancel", "abandon"},
                             o \in {<<>>, <<P(2)>>, <<P(5)>>, <<P(1), S(0), R(2)>>, <<P(3), S(2), S(5), P(2)>>}}
    [] Family = "life" -> {L(1, <<P(1)>>, "adv"), L(2, <<P(3)>>, "adv"), L(2, <<P(1)>>, "cancel"), L(3, <<P(2), S(1)>>, "adv"),
                           L(2, <<P(1)>>, "abandon"), Late(2, <<P(1)>>, "adv"), Late(0, <<>>, "fin"), L(0, <<>>, "fin")}
    [] Family = "read" -> {L(1, <<P(1)>>, "adv"), L(2, <<P(2)>>, "adv"), L(0, <<>>, "fin")}
    [] OTHER -> {L(n, o, "adv") : n \in {0, 1, 2, 5}, o \in {<<P(1)>>, <<P(2)>>, <<P(4)>>, <<P(2), S(1), P(2)>>}} \cup
                {L(n, o, out) : n \in {1, 4}, o \in {<<P(1)>>, <<P(3)>>}, out \in {"cancel", "abandon"}} \cup
                {Late(n, o, l) : n \in {1, 4}, o \in {<<P(1)>>, <<P(3)>>}, l \in {"adv", "cancel"}} \cup {Late(0, <<>>, "fin")} \cup
                {L(0, <<>>, "ctl"), L(0, <<>>, "fin")}
Consumes == CASE Family = "hist" -> {1, 3} [] Family = "life" -> {1, 4} [] Family = "writer" -> {} [] OTHER -> {0, 1, 2, 5}
Readers == CASE Family \in {"writer", "life"} -> 0 [] Family = "hist" -> 1 [] OTHER -> 2

Cmds(st) ==
  (IF st.ldr THEN {l \in LoadsOf : ~st.fin \/ l.out \in {"fin", "ctl"}} \cup {[op |-> "force"]} ELSE {}) \cup
  (IF st.buf THEN {[op |-> "consume", n |-> n] : n \in Consumes}
                  \cup (IF Len(st.its) < Readers THEN {[op |-> "iter", i |-> Len(st.its) + 1]} ELSE {})
                  \cup {[op |-> "next", i |-> i] : i \in {i \in DOMAIN st.its : st.its[i].h # 0}}
             ELSE {}) \cup
  (IF Family \in {"life", "long"} THEN (IF st.buf THEN {[op |-> "dropbuf"]} ELSE {}) \cup (IF st.ldr THEN {[op |-> "dropldr"]} ELSE {}) ELSE {})

(* the end of every history: publish, read, take apart (in either order) *)
Closing(st) ==
  (IF st.ldr THEN <<[op |-> "force"]>> ELSE <<>>) \o
  (IF Len(cmds) % 2 = 0
   THEN (IF st.buf THEN <<[op |-> "dropbuf"]>> ELSE <<>>) \o (IF st.ldr THEN <<[op |-> "dropldr"]>> ELSE <<>>)
   ELSE (IF st.ldr THEN <<[op |-> "dropldr"]>> ELSE <<>>) \o (IF st.buf THEN <<[op |-> "dropbuf"]>> ELSE <<>>))

Init == c = CInit /\ a = Init0 /\ cmds = <<>> /\ bad = {} /\ left = Steps

Run(list) ==
  LET RECURSIVE F(_, _, _, _)
      F(st, s, b, i) == IF i > Len(list) THEN [st |-> st, s |-> s, b |-> b]
                        ELSE LET x == Exec(st, list[i])
                                 y == Fold(s, x.ev, 1, b)
                             IN F(x.st, y.s, y.b, i + 1)
      r == F(c, a, bad, 1)
  IN c' = r.st /\ a' = r.s /\ bad' = r.b /\ cmds' = cmds \o list

Next ==
  \/ left > 0 /\ \E cmd \in (IF Random /\ Cmds(c) # {} THEN {RandomElement(Cmds(c))} ELSE Cmds(c)) : Run(<<cmd>>) /\ left' = left - 1
  \/ left = 0 /\ Closing(c) # <<>> /\ Run(Closing(c)) /\ left' = 0 - 1
Spec == Init /\ [][Next]_vars

(* the implementation follows the specification: every event it produces is allowed *)
Refines == bad = {}
SpecSound == Sound(a)
(* the two states correspond *)
Corresponds ==
  /\ Held(a) = c.cur.items \/ ~c.ldr
  /\ Flat(c.chain) = SubSeq(a.wr, 1, a.pub)
  /\ Len(Flat(SubSeq(c.chain, 1, c.head - 1))) + c.off = a.pos
  /\ c.buf = a.buf /\ c.ldr = a.ldr
Emit == (left = 0 - 1 \/ (left = 0 /\ Closing(c) = <<>>) \/ (left > 0 /\ Cmds(c) = {})) => PrintT("CASE " \o ToJson([strat |-> Strat, src |-> "script", runs |-> FALSE, cmds |-> cmds]))
=============================================================================
