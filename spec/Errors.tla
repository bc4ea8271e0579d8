------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* Composite errors: an either, a both, an optional, a reference, or an    *)
(* explicit class around errors.  Which of them ask the parser to stop.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANT Depth
VARIABLE e

Leaves == {[k |-> "leaf", f |-> f] : f \in BOOLEAN} \cup {[k |-> "none"]}
Around == {"first", "last", "some", "ref"}
Classes == {"fatal", "miss"}
Wrap(X) == {[k |-> k, a |-> a] : k \in Around \cup Classes, a \in X}
           \cup {[k |-> "both", a |-> a, b |-> b] : a \in X, b \in X}
RECURSIVE All(_)
All(d) == IF d = 0 THEN Leaves ELSE Leaves \cup Wrap(All(d - 1))

RECURSIVE Terminates(_)
Terminates(x) ==
  CASE x.k = "leaf"  -> x.f
    [] x.k = "none"  -> FALSE
    [] x.k = "fatal" -> TRUE
    [] x.k = "miss"  -> FALSE
    [] x.k = "both"  -> Terminates(x.a) \/ Terminates(x.b)
    [] OTHER         -> Terminates(x.a)

(* the errors a composite holds: what its eithers, boths, optionals and references lead to *)
RECURSIVE Holds(_)
Holds(x) ==
  CASE x.k = "both" -> Holds(x.a) \cup Holds(x.b)
    [] x.k \in Around -> Holds(x.a)
    [] x.k = "none" -> {}
    [] OTHER -> {x}
TerminatesIffOneHeldDoes == Terminates(e) <=> \E x \in Holds(e) : Terminates(x)

Init == e \in All(Depth)
Next == UNCHANGED e
Spec == Init /\ [][Next]_e
Emit == PrintT("CASE " \o ToJson([e |-> e, t |-> Terminates(e)]))
=============================================================================
