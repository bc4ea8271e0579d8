------------------------------ MODULE FilterMC ------------------------------
(* Filters as built: a filter holds the observable under it and its predicate; subscribing wraps the observer
   and subscribes the wrapper underneath, so the source ends up with nested observers. Checked to follow
   Filter, and Filter to give every observer the matching items; histories are printed. *)
EXTENDS Filter, TLC, Json
CONSTANTS Steps, ChainSet, Items, MaxSubs, Echo

Chains == CASE ChainSet = "few" -> {<<1>>, <<6>>, <<2, 1>>, <<1, 6, 2>>}
            [] ChainSet = "all" -> UNION {[1..k -> Preds] : k \in 0..3}
VARIABLES s, obs, asked, told, given, hist, ok
vars == <<s, obs, asked, told, given, hist, ok>>
(* obs: observers at the source, nested: <<"end", o>> or <<"wrap", p, inner>>; told: what each observer got;
   given: per observer, what was published (or replayed) to it *)
RECURSIVE Wrap(_, _)      \* subscribing inner through a filter chain, outermost predicate last
Wrap(chain, inner) == IF chain = <<>> THEN inner
                      ELSE Wrap(SubSeq(chain, 1, Len(chain) - 1), <<"wrap", chain[Len(chain)], inner>>)
RECURSIVE Tell(_, _, _, _), TellAll(_, _, _, _)   \* the observer is told x; a = [asked, log, given]
Tell(ob, x, a, busy) ==
  IF ob[1] = "end" THEN LET b == [a EXCEPT !.log = Append(@, <<"got", ob[2], x>>)] IN
                        IF ob[2] <= Len(obs) /\ obs[ob[2]].echo /\ x > 0 THEN TellAll(1, x - 1, b, busy \cup {ob[2]}) ELSE b
  ELSE LET b == [a EXCEPT !.asked[ob[2]] = @ + 1, !.log = Append(@, <<"ask", ob[2], x>>)] IN
       IF Answer(ob[2], x, a.asked[ob[2]]) THEN Tell(ob[3], x, b, busy) ELSE b
TellAll(k, x, a, busy) ==
  IF k > Len(obs) THEN a
  ELSE TellAll(k + 1, x, IF obs[k].live /\ k \notin busy THEN Tell(obs[k].ob, x, [a EXCEPT !.given[k] = Append(@, x)], busy) ELSE a, busy)
RECURSIVE TellPast(_, _, _)
TellPast(ob, k, a) == IF k > Len(s.past) THEN a ELSE TellPast(ob, k + 1, Tell(ob, s.past[k], a, {}))
Got(log, o) == LET q == SelectSeq(log, LAMBDA z : z[1] = "got" /\ z[2] = o) IN [i \in 1..Len(q) |-> q[i][3]]
None == [asked |-> asked, log |-> <<>>, given |-> given]
Init == /\ \E r \in BOOLEAN : s = Start(r)
        /\ obs = <<>> /\ asked = [p \in Preds |-> 0] /\ told = <<>> /\ given = <<>> /\ hist = <<>> /\ ok = TRUE
Do(e, a, cmd) == /\ ok' = Ok(s, e @@ [log |-> a.log]) /\ s' = After(s, e) /\ asked' = a.asked
                 /\ told' = [o \in 1..Len(obs') |-> (IF o <= Len(told) THEN told[o] ELSE <<>>) \o Got(a.log, o)]
                 /\ hist' = Append(hist, cmd)
Make(c) == UNCHANGED <<obs, given>> /\ Do([e |-> "make", chain |-> c], None, [op |-> "make", chain |-> c])
Sub(f, echo) == LET chain == IF f = 0 THEN <<>> ELSE s.filters[f]
              ob == Wrap(chain, <<"end", Len(obs) + 1>>) IN
          /\ echo => ~s.replay /\ \A k \in 1..Len(obs) : ~obs[k].echo
          /\ obs' = Append(obs, [ob |-> ob, live |-> TRUE, echo |-> echo])
          /\ given' = Append(given, IF s.replay THEN s.past ELSE <<>>)
          /\ Do([e |-> "sub", f |-> f, echo |-> echo], IF s.replay THEN TellPast(ob, 1, None) ELSE None, [op |-> "sub", f |-> f, echo |-> echo])
Pub(x) == LET a == TellAll(1, x, None, {}) IN
          /\ UNCHANGED obs /\ Do([e |-> "pub", x |-> x], a, [op |-> "pub", x |-> x]) /\ given' = a.given
Unsub(o) == /\ obs[o].live /\ obs' = [obs EXCEPT ![o].live = FALSE] /\ UNCHANGED given
            /\ Do([e |-> "unsub", o |-> o], None, [op |-> "unsub", o |-> o])
Kept(f) == \A i \in 1..Len(hist) : hist[i].op = "unmake" => hist[i].f # f
Unmake(f) == UNCHANGED <<obs, given>> /\ Do([e |-> "unmake", f |-> f], None, [op |-> "unmake", f |-> f])
Next == Len(hist) < Steps /\
  \/ \E c \in Chains : Len(s.filters) < 2 /\ Make(c)
  \/ \E f \in 0..Len(s.filters) : Len(obs) < MaxSubs /\ Kept(f) /\ \E echo \in Echo : Sub(f, echo)
  \/ \E f \in 1..Len(s.filters) : Kept(f) /\ Unmake(f)
  \/ \E x \in Items : Pub(x)
  \/ \E o \in 1..Len(obs) : Unsub(o)
Spec == Init /\ [][Next]_vars
Follows == ok /\ asked = s.asked
(* the guarantee itself, for predicates that do not depend on being asked *)
Passes(chain, x) == \A i \in 1..Len(chain) : Answer(chain[i], x, 0)
Exact == \A o \in 1..Len(obs) : LET chain == s.subs[o].chain IN
           (\A i \in 1..Len(chain) : chain[i] # 6) =>
              told[o] = SelectSeq(given[o], LAMBDA x : Passes(chain, x))
Emit == Len(hist) = Steps => PrintT("CASE " \o ToJson([replay |-> s.replay, cmds |-> hist]))
=============================================================================
