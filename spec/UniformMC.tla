------------------------------ MODULE UniformMC ------------------------------
(* The numbers of Uniform are those of PegSem, for all short inputs and small pipelines. *)
EXTENDS PegSem
CONSTANTS MaxN, Depth
U == INSTANCE Uniform
VARIABLES un, ut, tree
uvars == <<vars, un, ut, tree>>

Base == {[k |-> "irep", a |-> U!Item0], [k |-> "iopt", a |-> U!Item0]}
AllClasses == <<0, 1, 2, 3, 4, 5, 6>>
Over(X) == {[k |-> k, a |-> a] : k \in {"each", "iref", "iunit"}, a \in X}
           \cup {[k |-> "take", a |-> a, n |-> n] : a \in X, n \in 0..MaxN}
           \cup {[k |-> "scan", a |-> a, n |-> 1] : a \in X}
           \cup {[k |-> "mwhile", a |-> a, acc |-> AllClasses] : a \in X}
           \cup {[k |-> "tryeach", a |-> a, acc |-> AllClasses, f |-> TRUE] : a \in X}
Pipes == IF Depth = 1 THEN Base \cup Over(Base) ELSE Base \cup Over(Base) \cup Over(Over(Base))
Things == {[k |-> "rep"], [k |-> "opt"], [k |-> "try"], [k |-> "bin"]} \cup {[k |-> "atom", w |-> w] : w \in 0..MaxN + 1}
          \cup {[k |-> k, a |-> a] : k \in {"collect", "fold"}, a \in Pipes}
RepP == [k |-> "rep", a |-> U!Item0]
(* the parser of Peg that is meant *)
Meant(x) ==
  CASE x.k = "rep" -> RepP
    [] x.k = "opt" -> [k |-> "opt", a |-> U!Item0]
    [] x.k = "atom" -> [k |-> "atom", w |-> [i \in 1..x.w |-> 0]]
    [] x.k = "try" -> [k |-> "or", a |-> [k |-> "join", a |-> RepP, b |-> [k |-> "the", c |-> 7]], b |-> RepP]
    [] x.k = "bin" -> [k |-> "bin", a |-> U!Item0, b |-> U!Item0, ops |-> <<[r |-> 1, right |-> FALSE]>>, show |-> "tree"]
    [] OTHER -> x

MCInit == /\ un \in 0..MaxN /\ ut \in 0..1 /\ tree \in Things
        /\ Start([i \in 1..(un + ut) |-> IF i <= un THEN 0 ELSE 1], <<>>)
MCSpec == MCInit /\ [][UNCHANGED uvars]_uvars

Mine == Sem(Meant(tree), 0)
CallsIn(l) == Len(SelectSeq(l, LAMBDA x : "p" \in DOMAIN x))
(* as many items as the value shows *)
Zeros(c) == [i \in 1..c |-> V("t0", 0)]
RECURSIVE Terms(_)
Terms(c) == IF c = 1 THEN V("t0", 0) ELSE BinV(Terms(c - 1), V("t0", 0), V("t0", 0))
Shown(o) == CASE tree.k = "rep" -> Mine.v = ListV(Zeros(o.c), ";m")
              [] tree.k = "try" -> Mine.v = Last_(ListV(Zeros(o.c), ";m"))
              [] tree.k = "opt" -> Mine.v.s = IF o.c = 1 THEN "S(t0)" ELSE "N(m)"
              [] tree.k = "atom" -> Mine.v.s = "w" \o ToString(o.c)
              [] tree.k = "bin" -> Mine.v.s = "X(" \o Terms(o.c).s \o ";)"
              [] tree.k = "collect" /\ tree.a.k \in {"irep", "iopt"}
                   -> Mine.v = ListV(Zeros(o.c), "")
              [] OTHER -> TRUE
Agrees == LET o == U!Outcome(tree, un, ut) IN
  /\ o.ok = Mine.ok /\ o.calls = CallsIn(Mine.l)
  /\ o.ok => o.p = Mine.p /\ Shown(o)
=============================================================================
