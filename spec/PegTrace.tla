------------------------------ MODULE PegTrace ------------------------------
(***************************************************************************)
(* Recorded runs of real parsers, checked against the machine of Peg: the  *)
(* machine runs the recorded commands on the recorded input; what it shows *)
(* and which leaves and mappings it calls must be what was recorded.  A    *)
(* view limits the comparison to what one property speaks of.              *)
(***************************************************************************)
EXTENDS Peg, Json, IOUtils

CONSTANT View   \* "full", "positions", "fatal" or "values"

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE cid    \* which recorded case
tvars == <<vars, cid>>

TraceInit == \E i \in 1..Len(Cases) : cid = i /\ Start(Cases[i].input, Cases[i].cmds)
TraceNext == Next /\ UNCHANGED cid
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Rec == Cases[cid]

Has(r, f) == f \in DOMAIN r
Only(r, fs) == [f \in DOMAIN r \cap fs |-> r[f]]
ObsView(o) ==
  CASE View = "full"      -> o
    [] View = "positions" -> Only(o, {"r", "p"})
    [] View = "fatal"     -> Only(o, {"r", "f"})
    [] View = "values"    -> Only(o, {"r", "v", "f"})
(* calls of leaves are the records with a position                          *)
Calls(l) == SelectSeq(l, LAMBDA x : Has(x, "p"))
LogView(l) ==
  CASE View = "full"      -> l
    [] View = "positions" -> Calls(l)
    [] View = "fatal"     -> LET c == Calls(l) IN [i \in 1..Len(c) |-> c[i].n]
    [] View = "values"    -> <<>>
Same(o, l) == /\ [i \in 1..Len(obs) |-> ObsView(obs[i])] = [i \in 1..Len(o) |-> ObsView(o[i])]
              /\ LogView(log) = LogView(l)
Conforms == Same(Rec.obs, Rec.log)

(* a stuck machine would be a case outside the specification               *)
Stuck == ~Done /\ ~ENABLED Next
Report ==
  IF Done THEN Conforms \/ PrintT("MISMATCH " \o ToJson([line |-> cid, obs |-> obs, log |-> log]))
  ELSE Stuck => PrintT("STUCK " \o ToString(cid))
=============================================================================
