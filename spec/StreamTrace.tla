----------------------------- MODULE StreamTrace -----------------------------
(* Recorded outcomes of real parsers on a real sequence that was being filled (C26), against the machine of Peg, which
   is given the whole content. Whatever the division, the pauses and the interleaving:
     - a parse that ended has the outcome, the calls and the rest the machine comes to; and, where the end was not
       marked, the machine comes to the same when more follows;
     - a parse left suspended did what the machine does up to a leaf that cannot tell yet. *)
EXTENDS Peg, Json, IOUtils

Rows == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid,  \* which recorded outcome
          more  \* what might have followed
tvars == <<vars, cid, more>>
Behind == {<<0>>, <<1>>, <<0, 1>>, <<1, 1>>, <<2, 0, 1, 0>>}
Ended(r) == r.ev[1].res \in {"ok", "err"}
TraceInit ==
  \E i \in 1..Len(Rows) :
    /\ cid = i
    /\ more \in {<<>>} \cup (IF ~Rows[i].done /\ Ended(Rows[i]) THEN Behind ELSE {})
    /\ Start(Rows[i].input \o more, <<[op |-> "parse", n |-> Rows[i].n, at |-> 0]>>)
TraceNext == Next /\ UNCHANGED <<cid, more>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Row == Rows[cid]
Ev == Row.ev[1]
Suffix(p) == SubSeq(Row.input, p + 1, Len(Row.input))

Outcome ==
  /\ Ev.res = obs[1].r /\ Ev.v = obs[1].v /\ Ev.p = obs[1].p
  /\ Ev.f = (IF obs[1].r = "err" THEN obs[1].f ELSE FALSE)
  /\ Ev.log = log
Rest == Ev.rest = Suffix(Ev.p) /\ Ev.ended = Row.done

RECURSIVE Calls(_)
(* the calls there may be *)
Calls(n) ==
  (IF n.k \in LeafKinds \cup {"iscript"} THEN {n} ELSE {})
  \cup (IF "a" \in DOMAIN n THEN Calls(n.a) ELSE {})
  \cup (IF "b" \in DOMAIN n THEN Calls(n.b) ELSE {})
StartsWith(w, u) == Len(u) <= Len(w) /\ SubSeq(w, 1, Len(u)) = u
(* the leaf has not seen enough to tell *)
Waits(n, p) ==
  CASE n.k \in {"any", "the"} -> p >= Len(input)
    [] n.k = "atom" -> p + (IF n.w = <<>> THEN 1 ELSE Len(n.w)) > Len(input) /\ (n.w = <<>> \/ StartsWith(n.w, Suffix(p)))
    [] n.k = "eat" -> p + n.n > Len(input)
    [] n.k = "pure" -> FALSE
WaitingCall(c) ==
  \E n \in Calls(Row.n) :
    IF n.k = "iscript"
    THEN \E i \in 1..Len(n.sc) : ScriptName([i |-> i], c.p) = c /\ c.p + n.sc[i].w > Len(input)
    ELSE LogEntry(n, c.p) = c /\ Waits(n, c.p)
Suspended ==
  /\ ~Row.done
  /\ Ev.log # <<>> /\ StartsWith(log, Ev.log)
  /\ "p" \in DOMAIN Ev.log[Len(Ev.log)] /\ WaitingCall(Ev.log[Len(Ev.log)])

Bad ==
  IF more # <<>> THEN IF Outcome THEN {} ELSE {"rash"}
  ELSE IF Ended(Row)
  THEN (IF Outcome THEN {} ELSE {"outcome"}) \cup (IF Rest THEN {} ELSE {"rest"})
  ELSE IF Ev.res = "none" THEN IF Suspended THEN {} ELSE {"suspended"}
  ELSE {Ev.res}
Report == Done => (Bad = {} \/ PrintT("REJECT " \o ToJson([line |-> cid, at |-> 1, bad |-> Bad, event |-> Ev])))
(* no recorded parse is beyond the machine *)
Moves == Done \/ ENABLED Next
=============================================================================
