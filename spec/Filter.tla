------------------------------- MODULE Filter -------------------------------
(* Filtered observables: a subscription goes through a chain of predicates; it is told the items published
   while it lasts that pass all of them, in order - even if the filter it was made from is gone - and no predicate is asked about an item more than once per
   subscription. An observer that echoes publishes x - 1 itself whenever it is told an x > 0; it is not told what is
   published while it is being told something, the others are. The log is what happened, in order: <<"ask", p, x>> and <<"got", o, x>>. *)
EXTENDS Integers, Sequences

(* predicates on small numbers; the last one depends on how often it was asked *)
Preds == 1..6
Answer(p, x, asked) ==
  CASE p = 1 -> x % 2 = 0
    [] p = 2 -> x > 2
    [] p = 3 -> TRUE
    [] p = 4 -> FALSE
    [] p = 5 -> x % 3 # 1
    [] p = 6 -> asked % 2 = 0
(* replay: the source tells a new subscriber all earlier items *)
Start(replay) == [replay |-> replay, filters |-> <<>>, subs |-> <<>>, past |-> <<>>, asked |-> [p \in Preds |-> 0], log |-> <<>>]

(* item x through the predicates of chain for subscription o, while those in busy are being told something *)
RECURSIVE Through(_, _, _, _, _), ToAll(_, _, _, _)
Through(s, chain, o, x, busy) ==
  IF chain = <<>>
    THEN LET t == [s EXCEPT !.log = Append(@, <<"got", o, x>>)] IN
         IF o <= Len(s.subs) /\ s.subs[o].echo /\ x > 0
           THEN [ToAll(t, 1, x - 1, busy \cup {o}) EXCEPT !.past = Append(@, x - 1)] ELSE t
  ELSE LET p == Head(chain)
           t == [s EXCEPT !.log = Append(@, <<"ask", p, x>>), !.asked[p] = @ + 1] IN
       IF Answer(p, x, s.asked[p]) THEN Through(t, Tail(chain), o, x, busy) ELSE t
ToAll(s, o, x, busy) ==
  IF o > Len(s.subs) THEN s
  ELSE ToAll(IF s.subs[o].live /\ o \notin busy THEN Through(s, s.subs[o].chain, o, x, busy) ELSE s, o + 1, x, busy)
RECURSIVE Past(_, _, _, _)
Past(s, k, chain, o) == IF k > Len(s.past) THEN s ELSE Past(Through(s, chain, o, s.past[k], {}), k + 1, chain, o)

After(s0, e) ==
  LET s == [s0 EXCEPT !.log = <<>>] IN
  CASE e.e = "make" -> [s EXCEPT !.filters = Append(@, e.chain)]
    [] e.e = "sub" ->
         LET chain == IF e.f = 0 THEN <<>> ELSE s.filters[e.f]
             t == IF s.replay THEN Past(s, 1, chain, Len(s.subs) + 1) ELSE s
         IN [t EXCEPT !.subs = Append(@, [chain |-> chain, live |-> TRUE, echo |-> "echo" \in DOMAIN e /\ e.echo])]
    [] e.e = "pub" -> [ToAll(s, 1, e.x, {}) EXCEPT !.past = Append(@, e.x)]
    [] e.e = "unmake" -> [s EXCEPT !.filters[e.f] = <<>>]
    [] e.e = "unsub" -> [s EXCEPT !.subs[e.o].live = FALSE]
    [] OTHER -> s
Ok(s, e) == e.e # "panic" /\ e.log = After(s, e).log
=============================================================================
