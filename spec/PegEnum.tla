------------------------------- MODULE PegEnum ------------------------------
(***************************************************************************)
(* Exhaustive families of small parsers and inputs.  For every member the  *)
(* machine of Peg is run and compared with the direct meaning of PegSem;   *)
(* the machine's properties are checked on the way; and the outcome is     *)
(* printed as a case to be replayed on the real parsers.                   *)
(***************************************************************************)
EXTENDS PegSem, Json

CONSTANTS Family,   \* which family
          MaxLen,   \* longest input
          Deep      \* larger families (thorough)

Inputs == UNION {[1..k -> {0, 1}] : k \in 0..(IF Family = "bintree" THEN 2 * MaxLen + 1 ELSE MaxLen)}

N(k) == [k |-> k]
AnyP      == N("any")
The1     == [k |-> "the", c |-> 1]
Atom01   == [k |-> "atom", w |-> <<0, 1>>]
Pure     == N("pure")
Eat(n, out, id) == [k |-> "eat", n |-> n, out |-> out, id |-> id]
EatSoft  == Eat(1, "miss", 1)      \* consumes, then fails
EatFatal == Eat(1, "fatal", 2)
EatTwo   == Eat(2, "ok", 3)        \* consumes what there is; fails if short
Fatal0   == Eat(0, "fatal", 4)

Leaves   == {AnyP, The1, Atom01, Pure, EatSoft, EatFatal, EatTwo}
Moving   == {AnyP, The1, Atom01, EatSoft, EatFatal, EatTwo}   \* never succeed without moving
Core     == {AnyP, The1, EatSoft, EatFatal, EatTwo}

U(k, a)       == [k |-> k, a |-> a]
B(k, a, b)    == [k |-> k, a |-> a, b |-> b]
MapErrN(a, c) == [k |-> "maperr", a |-> a, cls |-> c]
AndThenN(a, acc, f) == [k |-> "andthen", a |-> a, acc |-> acc, f |-> f]
BinN(a, b, ops) == [k |-> "bin", a |-> a, b |-> b, ops |-> ops,
                    show |-> CASE Family = "bintree" -> "tree" [] Family = "binstop" -> "stop" [] OTHER -> "both"]

Unary(X) ==
  {U(k, a) : k \in {"map", "opt", "ref", "boxed"}, a \in X}
  \cup {MapErrN(a, c) : a \in X, c \in {"fatal", "miss", "some", "none", "refe"}}
  \cup {[k |-> "etype", a |-> a, cls |-> c] : a \in X, c \in {"zm", "zf", "be"}}
  \cup {AndThenN(a, acc, f) : a \in X, acc \in {<<0>>, <<1>>}, f \in BOOLEAN}
Reps(X) == {U("rep", a) : a \in X}
Binary(X, Y) == {B(k, a, b) : k \in {"join", "or", "unify", "unifyerr"}, a \in X, b \in Y}

Ops1 == <<[r |-> 1, right |-> FALSE], [r |-> 0, right |-> TRUE]>>
Bins(X, Y) == {BinN(a, b, Ops1) : a \in X, b \in Y}

(* iterations *)
Script(sc) == [k |-> "iscript", sc |-> sc]
S(o, w) == [o |-> o, w |-> w]
Scripts == {Script(<<S("item", 1), S("end", 1), S("item", 0), S("miss", 1), S("item", 1)>>),
            Script(<<S("item", 1), S("fatal", 1)>>),
            Script(<<S("item", 1), S("miss", 1), S("item", 1)>>),
            Script(<<S("item", 0), S("item", 1), S("item", 2)>>),
            Script(<<>>)}
Iter0 == {U("irep", a) : a \in Core} \cup {U("iopt", a) : a \in Core} \cup Scripts
Adapters(X) ==
  {U(k, a) : k \in {"each", "iref"}, a \in X}
  \cup {[k |-> "tryeach", a |-> a, acc |-> <<0, 2, 4>>, f |-> f] : a \in X, f \in BOOLEAN}
  \cup {[k |-> "mwhile", a |-> a, acc |-> <<1, 2, 4>>] : a \in X}
  \cup {[k |-> "scan", a |-> a, n |-> 1] : a \in X}
  \cup {[k |-> "take", a |-> a, n |-> n] : a \in X, n \in 0..2}
Iter1 == Iter0 \cup Adapters(Iter0)
IterSmall == {U("irep", AnyP), U("irep", EatTwo), U("irep", The1)} \cup Scripts
Iter2 == Adapters(Adapters(IterSmall))
Consumers(X) ==
  {U("collect", a) : a \in X} \cup {U("fold", a) : a \in X}
  \cup {[k |-> "drive", a |-> a, n |-> n] : a \in X, n \in {1, 4}}

(* parts whose errors are of other types *)
ET(a, c) == [k |-> "etype", a |-> a, cls |-> c]
TypedErrs(X, Y) ==
  {U(k, ET(a, c)) : k \in {"opt", "rep"}, a \in X, c \in {"zm", "zf", "be"}}
  \cup {B(k, ET(a, c), b) : k \in {"or", "join", "unify"}, a \in X, b \in Y, c \in {"zm", "zf", "be"}}
  \cup {B("or", ET(a, "zm"), ET(b, "zm")) : a \in X, b \in Y}
  \cup {BinN(ET(a, "zm"), b, <<[r |-> 1, right |-> FALSE]>>) : a \in X, b \in Y}
  \cup {BinN(a, ET(b, "zm"), <<[r |-> 1, right |-> FALSE]>>) : a \in X, b \in Y}
  \cup {U("collect", U("irep", ET(a, c))) : a \in X, c \in {"zm", "zf", "be"}}

D1 == Leaves \cup Unary(Leaves) \cup Reps(Moving) \cup Binary(Leaves, Leaves)
(* a thinner depth-one layer to build on *)
Mid == Core \cup {U("opt", a) : a \in Core} \cup Reps({The1, EatTwo, EatSoft})
       \cup {B("or", a, b) : a \in Core, b \in Core} \cup {B("join", a, b) : a \in Core, b \in Core}
       \cup {MapErrN(a, c) : a \in {The1, EatFatal}, c \in {"fatal", "miss"}}
Heads == {The1, EatSoft, EatTwo}

(* joins of two moving parsers move, so they may be repeated *)
MovingMid == {B("join", a, b) : a \in Core, b \in Core} \cup {B("or", a, b) : a \in Core, b \in Core}

(* operator tables for items 0..2 of the precedence ranks 0..2 (or, deep, all 7) *)
Row == [r : 0..(IF Deep THEN 3 ELSE 2), right : BOOLEAN]
Tables == {<<a, b>> : a \in Row, b \in Row} \cup {<<[r |-> 6, right |-> FALSE], [r |-> 6, right |-> x]>> : x \in BOOLEAN}

(* every pattern of up to three items, alone, twice in a row, and as alternatives *)
Pats == UNION {[1..k -> {0, 1}] : k \in 0..(IF Deep THEN 4 ELSE 3)}
AtomN(w, f) == [k |-> "atom", w |-> w, form |-> f]
Prims == {AnyP, The1, [k |-> "the", c |-> 0]} \cup {AtomN(w, f) : w \in Pats, f \in 0..2}
SmallPrims == {AnyP, The1} \cup {AtomN(w, 0) : w \in {x \in Pats : Len(x) <= 2}}
PrimTrees == Prims \cup {B("join", a, b) : a \in SmallPrims, b \in SmallPrims}
             \cup {B("or", a, b) : a \in SmallPrims, b \in SmallPrims}

(* for inputs that come in while they are parsed (C26): a pattern in front of any other part *)
SLeaves == {AnyP, The1, Atom01, AtomN(<<>>, 0), AtomN(<<1, 0, 1>>, 1), EatTwo}
SSteps  == {AnyP, The1, Atom01}
Streams == SLeaves \cup {U(k, a) : k \in {"opt", "map"}, a \in SSteps} \cup Reps(SSteps)
           \cup {B(k, a, b) : k \in {"join", "or"}, a \in SSteps, b \in SLeaves}
           \cup {B("or", B("join", a, b), a) : a \in SSteps, b \in SSteps}
           \cup {U(k, B("join", a, b)) : k \in {"opt", "rep"}, a \in SSteps, b \in SSteps}
           \cup Bins({AnyP}, {The1, Atom01})
           \cup {U(k, U("irep", a)) : k \in {"collect", "fold"}, a \in SSteps}
           \cup {U("collect", [k |-> "take", a |-> U("irep", a), n |-> 2]) : a \in SSteps}
           \cup {U("fold", Script(<<S("item", 1), S("item", 2), S("end", 0)>>))}

Trees ==
  CASE Family = "basic" -> D1 \cup Consumers(Iter0) \cup Bins(Moving, Leaves)
    [] Family = "nest"  -> {U("opt", a) : a \in Mid} \cup Reps(MovingMid)
                           \cup {U("map", a) : a \in Mid}
                           \cup {B("or", a, b) : a \in Mid, b \in Heads}
                           \cup TypedErrs({The1, EatSoft, EatTwo} \cup {B("join", a, The1) : a \in {AnyP, EatTwo}}, Heads)
                           \cup {B("join", a, b) : a \in Mid, b \in Heads}
                           \cup {B("join", a, b) : a \in Heads, b \in Mid}
                           \cup {B("or", a, b) : a \in Heads, b \in Mid}
                           \cup {U("collect", U("irep", a)) : a \in MovingMid}
                           \cup (IF Deep THEN Binary(Mid, Mid) \cup Unary(Mid) ELSE {})
    [] Family = "iter"  -> Consumers(Iter1) \cup (IF Deep THEN Consumers(Iter2) ELSE {})
    [] Family \in {"bin", "binstop"} -> Bins(Moving, Leaves) \cup
                           (IF Deep THEN Bins(MovingMid, Heads) \cup Bins(Heads, Mid) ELSE {})
    [] Family = "bintree" -> {BinN(AnyP, AnyP, ops) : ops \in Tables}
    [] Family = "prim" -> PrimTrees
    [] Family = "stream" -> Streams
    [] OTHER -> {}

(* re-use: the same parser twice, or two iterations of it interleaved       *)
ReuseIters == Adapters(IterSmall) \cup IterSmall
Schedules == [1..4 -> {1, 2}]
ReuseCmds ==
  { <<[op |-> "iter", slot |-> 1, n |-> t, at |-> 0], [op |-> "iter", slot |-> 2, n |-> t, at |-> 0]>>
      \o [i \in 1..4 |-> [op |-> "step", slot |-> s[i]]] : t \in ReuseIters, s \in Schedules }
ReuseTrees == {U("collect", a) : a \in ReuseIters} \cup {U("fold", a) : a \in ReuseIters}
              \cup Reps({The1, EatTwo}) \cup Unary({The1})
ReuseParse ==
  { <<[op |-> "parse", n |-> t, at |-> 0], [op |-> "parse", n |-> t, at |-> 0]>> : t \in ReuseTrees }

Init ==
  \E in \in Inputs :
    IF Family = "reuse"
    THEN \E cs \in ReuseCmds \cup ReuseParse : Start(in, cs)
    ELSE \E t \in Trees : Start(in, <<[op |-> "parse", n |-> t, at |-> 0]>>)

EnumSpec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Slot(k) == SelectSeq([i \in 1..Len(cmds) |-> i],
                     LAMBDA i : cmds[i].op = "step" /\ cmds[i].slot = k)
(* position in obs of the command number i *)
ObsAt(i) == obs[Cardinality({j \in 1..i : cmds[j].op # "iter"})]

MatchesMeaning ==
  Done =>
    IF cmds[1].op = "parse"
    THEN \A i \in 1..Len(cmds) : obs[i] = SemObs(cmds[i].n, cmds[i].at)
    ELSE \A k \in {1, 2} :
           LET is == Slot(k) IN
           [i \in 1..Len(is) |-> ObsAt(is[i])] = StepsAlone(cmds[1].n, InitSt(cmds[1].n), 0, Len(is))
CallsMatchMeaning ==
  (Done /\ Len(cmds) = 1) => log = Sem(cmds[1].n, cmds[1].at).l

(* every command ends: no state but the final one is stuck *)
NoStuck == Done \/ ENABLED Next

Emit == Done => PrintT("CASE " \o ToJson([input |-> input, cmds |-> cmds, obs |-> obs, log |-> log]))
=============================================================================
