-------------------------------- MODULE Peg --------------------------------
(***************************************************************************)
(* Small-step machine of parcom's parsers.                                 *)
(*                                                                         *)
(* A parser is a tree (nested records, field k = kind).  The machine runs  *)
(* one command after the other; a command starts a parser or steps one of  *)
(* several live iterations, and produces one observation.  Each recursive  *)
(* use of a sub-parser is a frame on the stack; a frame that can recover   *)
(* from a failure keeps the anchor (position) it took before the attempt.  *)
(*                                                                         *)
(* Values are [s |-> printed form, h |-> small hash]; checked mappings     *)
(* decide on h.  Errors are [s |-> printed form, f |-> terminating?].      *)
(* Positions count items from the start of the input.  The position inside *)
(* a failure is the "unknown location": it only matters that it may differ *)
(* from the anchor.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
  input,   \* sequence of item codes
  cmds,    \* commands to run
  pc,      \* number of the current command
  ctl,     \* control: call / ret / next / iret / idle
  stk,     \* frames, top last
  slots,   \* live iterations: slot -> [n, st, p]
  log,     \* calls of leaves, script steps (with position) and mappings (with value)
  obs      \* observations produced so far

vars == <<input, cmds, pc, ctl, stk, slots, log, obs>>

Mod == 7
V(s, h) == [s |-> s, h |-> h % Mod]
E(s, f) == [s |-> s, f |-> f]
In(x, seq) == \E i \in 1..Len(seq) : seq[i] = x

Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE JoinS(_, _)
JoinS(ss, i) == IF i > Len(ss) THEN ""
                ELSE (IF i = 1 THEN "" ELSE ",") \o ss[i].s \o JoinS(ss, i + 1)
RECURSIVE SumH(_, _)
SumH(ss, i) == IF i > Len(ss) THEN 0 ELSE ss[i].h + 1 + SumH(ss, i + 1)

-----------------------------------------------------------------------------
(* Controls *)
Call(n, p)      == [m |-> "call", n |-> n, p |-> p]
RetOk(v, p)     == [m |-> "ret", ok |-> TRUE, v |-> v, p |-> p]
RetErr(e, p)    == [m |-> "ret", ok |-> FALSE, e |-> e, p |-> p]
Next_(n, st, p) == [m |-> "next", n |-> n, st |-> st, p |-> p]
IItem(v, p, st) == [m |-> "iret", k |-> "item", v |-> v, p |-> p, st |-> st]
IEnd(p, st)     == [m |-> "iret", k |-> "end", p |-> p, st |-> st]
IErr(e, p, st)  == [m |-> "iret", k |-> "err", e |-> e, p |-> p, st |-> st]
Idle            == [m |-> "idle"]

Miss == E("m", FALSE)

-----------------------------------------------------------------------------
(* Leaves: the primitive parsers and scripted sub-parsers.                  *)

LeafKinds == {"any", "the", "atom", "eat", "pure"}

PrefixAt(pat, p) ==
  /\ p + Len(pat) <= Len(input)
  /\ \A i \in 1..Len(pat) : input[p + i] = pat[i]

(* "eat": move over up to n items, then succeed, miss or fail terminally;   *)
(* it fails softly when fewer than n items are left and short = TRUE.       *)
LeafResult(n, p) ==
  CASE n.k = "any" ->
         IF p < Len(input)
         THEN RetOk(V("c" \o ToString(input[p + 1]), input[p + 1]), p + 1)
         ELSE RetErr(Miss, p)
    [] n.k = "the" ->
         IF p < Len(input) /\ input[p + 1] = n.c
         THEN RetOk(V("t" \o ToString(n.c), n.c), p + 1)
         ELSE RetErr(Miss, p)
    [] n.k = "atom" ->
         IF PrefixAt(n.w, p)
         THEN RetOk(V("w" \o ToString(Len(n.w)), Len(n.w)), p + Len(n.w))
         ELSE RetErr(Miss, p)
    [] n.k = "eat" ->
         LET q == Min(p + n.n, Len(input)) IN
         IF n.out = "ok"
         THEN IF q = p + n.n THEN RetOk(V("e" \o ToString(n.id), n.n), q)
              ELSE RetErr(E("x" \o ToString(n.id), FALSE), q)
         ELSE RetErr(E("x" \o ToString(n.id), n.out = "fatal"), q)
    [] n.k = "pure" -> RetOk(V("p", 0), p)

LeafName(n) ==
  CASE n.k = "any" -> "any"
    [] n.k = "the" -> "the" \o ToString(n.c)
    [] n.k = "atom" -> "atom" \o ToString(Len(n.w))
    [] n.k = "eat" -> "eat" \o ToString(n.id)
    [] n.k = "pure" -> "pure"
LogEntry(n, p) == [n |-> LeafName(n), p |-> p]
(* ... and of a mapping                                                     *)
Mapping(name, s) == [n |-> name, v |-> s]

-----------------------------------------------------------------------------
(* Iteration states *)
RECURSIVE InitSt(_)
InitSt(n) ==
  CASE n.k = "irep"    -> [x |-> 0]
    [] n.k = "iopt"    -> [used |-> FALSE]
    [] n.k = "iscript" -> [i |-> 1]
    [] n.k = "iref"    -> InitSt(n.a)
    [] n.k \in {"each", "tryeach", "mwhile", "iunit", "ibig", "ietype"} -> [in |-> InitSt(n.a)]
    [] n.k = "scan"    -> [acc |-> n.n, in |-> InitSt(n.a)]
    [] n.k = "take"    -> [left |-> n.n, in |-> InitSt(n.a)]

-----------------------------------------------------------------------------
(* Mappings used by the trees *)
(* values of other types: nothing at all, and large ones *)
AsType(k, v) == IF k \in {"unit", "iunit"} THEN V("u", 0) ELSE V("b(" \o v.s \o ")", v.h)
(* errors of other types: nothing at all (a kind of its own for terminating ones), and large ones *)
ErrType(cls, e) == CASE cls = "zm" -> E("z", FALSE) [] cls = "zf" -> E("Z", TRUE) [] OTHER -> E("b(" \o e.s \o ")", e.f)
MapV(v)    == V("m(" \o v.s \o ")", v.h + 3)
Keep(v)    == V("k(" \o v.s \o ")", v.h)
Reject(v, f) == E("r(" \o v.s \o ")", f)
Conv(e)    == E("a(" \o e.s \o ")", e.f)          \* From<inner error>
ErrClass(cls, e) ==
  CASE cls = "fatal" -> E("Fatal(" \o e.s \o ")", TRUE)
    [] cls = "miss"  -> E("Miss(" \o e.s \o ")", FALSE)
    [] cls = "some"  -> E("Some(" \o e.s \o ")", e.f)
    [] cls = "none"  -> E("None", FALSE)
    [] cls = "refe"  -> E("Ref(" \o e.s \o ")", e.f)
Pair(a, b) == V("(" \o a.s \o "," \o b.s \o ")", 2 * a.h + b.h)
First(v)   == V("F(" \o v.s \o ")", v.h)
Last_(v)   == V("L(" \o v.s \o ")", v.h + 1)
EFirst(e)  == E("f(" \o e.s \o ")", e.f)
ELast(e)   == E("l(" \o e.s \o ")", e.f)
EBoth(e, g) == E("B(" \o e.s \o "," \o g.s \o ")", e.f \/ g.f)
ListV(vs, tail) == V("[" \o JoinS(vs, 1) \o tail \o "]", SumH(vs, 1))
ScanAcc(acc, v) == (2 * acc + v.h + 1) % Mod
ScanV(acc, v) == V("s" \o ToString(acc) \o "(" \o v.s \o ")", acc)
FoldV(acc, v) == V("(" \o acc.s \o v.s \o ")", 2 * acc.h + v.h)

(* Operators of a binary expression: table of [r (precedence rank), right]  *)
OpOf(n, v) == LET row == n.ops[(v.h % Len(n.ops)) + 1]
              IN [s |-> v.s, h |-> v.h, r |-> row.r, right |-> row.right]
BinV(l, o, r) == V("{" \o l.s \o " " \o o.s \o " " \o r.s \o "}", l.h + 2 * o.h + r.h)
(* op2 binds its left operand tighter than op1 keeps its right one          *)
Tighter(op2, op1) == IF op1.right THEN op2.r >= op1.r ELSE op2.r > op1.r
RECURSIVE Reduce(_, _, _)
Reduce(pend, rhs, op) ==      \* pend: sequence of [l, o]; result [pend, rhs]
  IF pend = <<>> THEN [pend |-> <<[l |-> rhs, o |-> op]>>]
  ELSE LET top == pend[Len(pend)] IN
       IF Tighter(op, top.o) THEN [pend |-> Append(pend, [l |-> rhs, o |-> op])]
       ELSE Reduce(SubSeq(pend, 1, Len(pend) - 1), BinV(top.l, top.o, rhs), op)
RECURSIVE Close(_, _)
Close(pend, rhs) ==
  IF pend = <<>> THEN rhs
  ELSE LET top == pend[Len(pend)] IN
       Close(SubSeq(pend, 1, Len(pend) - 1), BinV(top.l, top.o, rhs))
(* what is printed of a binary expression: the tree, why it stopped, or both *)
BinV_(show, e, reason) ==
  V("X(" \o (IF show = "stop" THEN "" ELSE e.s) \o ";" \o (IF show = "tree" THEN "" ELSE reason.s) \o ")", e.h)
BinResult(n, pend, rhs, reason) == BinV_(n.show, Close(pend, rhs), reason)

-----------------------------------------------------------------------------
(* Stack helpers *)
Push(f) == Append(stk, f)
Pop     == SubSeq(stk, 1, Len(stk) - 1)
Top     == stk[Len(stk)]
Unch    == UNCHANGED <<input, cmds, pc, slots, obs>>

IsCall(k) == ctl.m = "call" /\ ctl.n.k = k
IsNext(k) == ctl.m = "next" /\ ctl.n.k = k
InFrame(k) == stk # <<>> /\ Top.k = k
RetsOk(k)   == ctl.m = "ret" /\ InFrame(k) /\ ctl.ok
RetsMiss(k) == ctl.m = "ret" /\ InFrame(k) /\ ~ctl.ok /\ ~ctl.e.f
RetsFatal(k) == ctl.m = "ret" /\ InFrame(k) /\ ~ctl.ok /\ ctl.e.f
RetsErr(k)  == ctl.m = "ret" /\ InFrame(k) /\ ~ctl.ok

Go(c, s) == /\ ctl' = c /\ stk' = s /\ UNCHANGED log /\ Unch
GoL(c, s, entry) == /\ ctl' = c /\ stk' = s /\ log' = Append(log, entry) /\ Unch
Enter(n, fr) == Go(Call(n, ctl.p), Push(fr))

-----------------------------------------------------------------------------
(* Leaf call: the only action that looks at the input.                      *)
Leaf ==
  /\ ctl.m = "call" /\ ctl.n.k \in LeafKinds
  /\ ctl' = LeafResult(ctl.n, ctl.p)
  /\ log' = Append(log, LogEntry(ctl.n, ctl.p))
  /\ UNCHANGED stk /\ Unch

(* by-reference and boxed parsers are transparent                           *)
Transparent ==
  /\ ctl.m = "call" /\ ctl.n.k \in {"ref", "boxed"}
  /\ Go(Call(ctl.n.a, ctl.p), stk)

CallAs      == ctl.m = "call" /\ ctl.n.k \in {"unit", "big"} /\ Enter(ctl.n.a, [k |-> ctl.n.k])
CallEType   == IsCall("etype") /\ Enter(ctl.n.a, [k |-> "etype", cls |-> ctl.n.cls])
ETypeOk     == RetsOk("etype") /\ Go(ctl, Pop)
ETypeErr    == RetsErr("etype") /\ Go(RetErr(ErrType(Top.cls, ctl.e), ctl.p), Pop)
AsOk        == \E k \in {"unit", "big"} : RetsOk(k) /\ Go(RetOk(AsType(k, ctl.v), ctl.p), Pop)
AsErr       == \E k \in {"unit", "big"} : RetsErr(k) /\ Go(ctl, Pop)

CallMap     == IsCall("map")     /\ Enter(ctl.n.a, [k |-> "map"])
MapOk       == RetsOk("map")     /\ GoL(RetOk(MapV(ctl.v), ctl.p), Pop, Mapping("map", ctl.v.s))
MapErr_     == RetsErr("map")    /\ Go(ctl, Pop)
CallMapErr  == IsCall("maperr")  /\ Enter(ctl.n.a, [k |-> "maperr", cls |-> ctl.n.cls])
MapErrOk    == RetsOk("maperr")  /\ Go(ctl, Pop)
MapErrErr   == RetsErr("maperr") /\ GoL(RetErr(ErrClass(Top.cls, ctl.e), ctl.p), Pop, Mapping("err", ctl.e.s))

CallAndThen == IsCall("andthen") /\ Enter(ctl.n.a, [k |-> "andthen", acc |-> ctl.n.acc, f |-> ctl.n.f])
AndThenOk   == RetsOk("andthen") /\
  GoL(IF In(ctl.v.h, Top.acc) THEN RetOk(Keep(ctl.v), ctl.p)
      ELSE RetErr(Reject(ctl.v, Top.f), ctl.p), Pop, Mapping("chk", ctl.v.s))
AndThenErr  == RetsErr("andthen") /\ Go(RetErr(Conv(ctl.e), ctl.p), Pop)

CallJoin    == ctl.m = "call" /\ ctl.n.k \in {"join", "unifyerr"} /\
               Enter(ctl.n.a, [k |-> "join1", n |-> ctl.n])
JoinFirstOk == RetsOk("join1") /\ Go(Call(Top.n.b, ctl.p), Append(Pop, [k |-> "join2", n |-> Top.n, v |-> ctl.v]))
JoinFirstErr == RetsErr("join1") /\
  Go(RetErr(IF Top.n.k = "join" THEN EFirst(ctl.e) ELSE E("0(" \o ctl.e.s \o ")", ctl.e.f), ctl.p), Pop)
JoinLastOk  == RetsOk("join2") /\ Go(RetOk(Pair(Top.v, ctl.v), ctl.p), Pop)
JoinLastErr == RetsErr("join2") /\
  Go(RetErr(IF Top.n.k = "join" THEN ELast(ctl.e) ELSE E("1(" \o ctl.e.s \o ")", ctl.e.f), ctl.p), Pop)

CallOr      == ctl.m = "call" /\ ctl.n.k \in {"or", "unify"} /\
               Enter(ctl.n.a, [k |-> "or1", n |-> ctl.n, a |-> ctl.p])
OrFirstOk   == RetsOk("or1") /\
  Go(RetOk(IF Top.n.k = "or" THEN First(ctl.v) ELSE V("0(" \o ctl.v.s \o ")", ctl.v.h), ctl.p), Pop)
OrFirstMiss == RetsMiss("or1") /\     \* recover: back to the anchor, try the other
  Go(Call(Top.n.b, Top.a), Append(Pop, [k |-> "or2", n |-> Top.n, a |-> Top.a, e |-> ctl.e]))
OrFirstFatal == RetsFatal("or1") /\ Go(RetErr(EFirst(ctl.e), ctl.p), Pop)
OrLastOk    == RetsOk("or2") /\
  Go(RetOk(IF Top.n.k = "or" THEN Last_(ctl.v) ELSE V("1(" \o ctl.v.s \o ")", ctl.v.h + 1), ctl.p), Pop)
OrLastMiss  == RetsMiss("or2") /\ Go(RetErr(EBoth(Top.e, ctl.e), ctl.p), Pop)
OrLastFatal == RetsFatal("or2") /\ Go(RetErr(ELast(ctl.e), ctl.p), Pop)

CallOpt     == IsCall("opt") /\ Enter(ctl.n.a, [k |-> "opt", a |-> ctl.p])
OptOk       == RetsOk("opt") /\ Go(RetOk(V("S(" \o ctl.v.s \o ")", ctl.v.h), ctl.p), Pop)
OptMiss     == RetsMiss("opt") /\ Go(RetOk(V("N(" \o ctl.e.s \o ")", 6), Top.a), Pop)
OptFatal    == RetsFatal("opt") /\ Go(ctl, Pop)

CallRep     == IsCall("rep") /\ Enter(ctl.n.a, [k |-> "rep", n |-> ctl.n, a |-> ctl.p, vs |-> <<>>])
RepItem     == RetsOk("rep") /\
  Go(Call(Top.n.a, ctl.p), Append(Pop, [Top EXCEPT !.a = ctl.p, !.vs = Append(@, ctl.v)]))
RepMiss     == RetsMiss("rep") /\ Go(RetOk(ListV(Top.vs, ";" \o ctl.e.s), Top.a), Pop)
RepFatal    == RetsFatal("rep") /\ Go(ctl, Pop)

-----------------------------------------------------------------------------
(* Binary expressions *)
CallBin     == IsCall("bin") /\ Enter(ctl.n.a, [k |-> "bin0", n |-> ctl.n])
BinHeadErr  == RetsErr("bin0") /\ Go(RetErr(ELast(ctl.e), ctl.p), Pop)
BinHeadOk   == RetsOk("bin0") /\
  Go(Call(Top.n.b, ctl.p), Append(Pop, [k |-> "binop", n |-> Top.n, a |-> ctl.p, pend |-> <<>>, rhs |-> ctl.v]))
BinOpOk     == RetsOk("binop") /\
  Go(Call(Top.n.a, ctl.p), Append(Pop, [k |-> "binterm", n |-> Top.n, a |-> Top.a, pend |-> Top.pend,
                                        rhs |-> Top.rhs, op |-> OpOf(Top.n, ctl.v)]))
BinOpMiss   == RetsMiss("binop") /\ Go(RetOk(BinResult(Top.n, Top.pend, Top.rhs, EFirst(ctl.e)), Top.a), Pop)
BinOpFatal  == RetsFatal("binop") /\ Go(RetErr(EFirst(ctl.e), ctl.p), Pop)
BinTermOk   == RetsOk("binterm") /\
  Go(Call(Top.n.b, ctl.p),
     Append(Pop, [k |-> "binop", n |-> Top.n, a |-> ctl.p,
                  pend |-> Reduce(Top.pend, Top.rhs, Top.op).pend, rhs |-> ctl.v]))
BinTermMiss == RetsMiss("binterm") /\ Go(RetOk(BinResult(Top.n, Top.pend, Top.rhs, ELast(ctl.e)), Top.a), Pop)
BinTermFatal == RetsFatal("binterm") /\ Go(RetErr(ELast(ctl.e), ctl.p), Pop)

-----------------------------------------------------------------------------
(* Consumers of iterations *)
CallCollect == IsCall("collect") /\
  Go(Next_(ctl.n.a, InitSt(ctl.n.a), ctl.p), Push([k |-> "collect", n |-> ctl.n, a |-> ctl.p, vs |-> <<>>]))
InIter(k, r) == ctl.m = "iret" /\ InFrame(k) /\ ctl.k = r
CollectItem == InIter("collect", "item") /\
  Go(Next_(Top.n.a, ctl.st, ctl.p), Append(Pop, [Top EXCEPT !.a = ctl.p, !.vs = Append(@, ctl.v)]))
CollectEnd  == InIter("collect", "end") /\ Go(RetOk(ListV(Top.vs, ""), Top.a), Pop)
CollectErr  == InIter("collect", "err") /\ Go(RetOk(ListV(Top.vs, ";" \o ctl.e.s), Top.a), Pop)

CallFold    == IsCall("fold") /\
  Go(Next_(ctl.n.a, InitSt(ctl.n.a), ctl.p), Push([k |-> "fold", n |-> ctl.n, acc |-> V("z", 1)]))
FoldItem    == InIter("fold", "item") /\
  GoL(Next_(Top.n.a, ctl.st, ctl.p), Append(Pop, [Top EXCEPT !.acc = FoldV(@, ctl.v)]), Mapping("fold", ctl.v.s))
FoldEnd     == InIter("fold", "end") /\ Go(RetOk(Top.acc, ctl.p), Pop)
FoldErr     == InIter("fold", "err") /\ Go(RetErr(ctl.e, ctl.p), Pop)

(* "drive": a user's own loop that steps n times, going on after the end     *)
CallDrive   == IsCall("drive") /\
  Go(IF ctl.n.n = 0 THEN RetOk(ListV(<<>>, ""), ctl.p) ELSE Next_(ctl.n.a, InitSt(ctl.n.a), ctl.p),
     IF ctl.n.n = 0 THEN stk ELSE Push([k |-> "drive", n |-> ctl.n, vs |-> <<>>]))
DriveStep(v) ==
  LET vs == Append(Top.vs, v) IN
  IF Len(vs) = Top.n.n THEN Go(RetOk(ListV(vs, ""), ctl.p), Pop)
  ELSE Go(Next_(Top.n.a, ctl.st, ctl.p), Append(Pop, [Top EXCEPT !.vs = vs]))
DriveItem   == InIter("drive", "item") /\ DriveStep(V("I(" \o ctl.v.s \o ")@" \o ToString(ctl.p), ctl.v.h))
DriveEnd    == InIter("drive", "end") /\ DriveStep(V("E@" \o ToString(ctl.p), 0))
DriveErr    == InIter("drive", "err") /\ Go(RetErr(ctl.e, ctl.p), Pop)

-----------------------------------------------------------------------------
(* Iterations *)
NextRep     == IsNext("irep") /\ Go(Call(ctl.n.a, ctl.p), Push([k |-> "irep", a |-> ctl.p, st |-> ctl.st]))
IRepOk      == RetsOk("irep") /\ Go(IItem(ctl.v, ctl.p, Top.st), Pop)
IRepMiss    == RetsMiss("irep") /\ Go(IEnd(Top.a, Top.st), Pop)
IRepFatal   == RetsFatal("irep") /\ Go(IErr(ctl.e, ctl.p, Top.st), Pop)

NextOpt     == IsNext("iopt") /\
  IF ctl.st.used THEN Go(IEnd(ctl.p, ctl.st), stk)
  ELSE Go(Call(ctl.n.a, ctl.p), Push([k |-> "iopt", a |-> ctl.p]))
IOptOk      == RetsOk("iopt") /\ Go(IItem(ctl.v, ctl.p, [used |-> TRUE]), Pop)
IOptMiss    == RetsMiss("iopt") /\ Go(IEnd(Top.a, [used |-> TRUE]), Pop)
IOptFatal   == RetsFatal("iopt") /\ Go(IErr(ctl.e, ctl.p, [used |-> TRUE]), Pop)

(* "iscript": a user's iteration that plays a script, ending when it is used up; *)
(* each entry moves over w items (as far as there are any) and then yields   *)
(* an item, an end, a miss or a terminating error.                           *)
ScriptStep(n, st, p) ==
  IF st.i > Len(n.sc) THEN IEnd(p, st)
  ELSE LET s == n.sc[st.i]
           q == Min(p + s.w, Len(input))
           nst == [i |-> st.i + 1]
       IN CASE s.o = "item" -> IItem(V("i" \o ToString(st.i), st.i), q, nst)
            [] s.o = "end"  -> IEnd(q, nst)
            [] s.o = "miss" -> IErr(E("y" \o ToString(st.i), FALSE), q, nst)
            [] s.o = "fatal" -> IErr(E("y" \o ToString(st.i), TRUE), q, nst)
ScriptName(st, p) == [n |-> "s" \o ToString(st.i), p |-> p]
NextScript  == IsNext("iscript") /\
  GoL(ScriptStep(ctl.n, ctl.st, ctl.p), stk, ScriptName(ctl.st, ctl.p))

NextRef     == IsNext("iref") /\ Go(Next_(ctl.n.a, ctl.st, ctl.p), stk)

NextAdapter ==
  /\ ctl.m = "next" /\ ctl.n.k \in {"each", "tryeach", "mwhile", "scan", "iunit", "ibig", "ietype"}
  /\ Go(Next_(ctl.n.a, ctl.st.in, ctl.p), Push([k |-> ctl.n.k, n |-> ctl.n, st |-> ctl.st]))

Inner       == [Top.st EXCEPT !.in = ctl.st]
EachItem    == InIter("each", "item") /\ GoL(IItem(MapV(ctl.v), ctl.p, Inner), Pop, Mapping("map", ctl.v.s))
ETypeItem   == InIter("ietype", "item") /\ Go(IItem(ctl.v, ctl.p, Inner), Pop)
ETypeIErr   == InIter("ietype", "err") /\ Go(IErr(ErrType(Top.n.cls, ctl.e), ctl.p, Inner), Pop)
AsItem      == \E k \in {"iunit", "ibig"} : InIter(k, "item") /\ Go(IItem(AsType(k, ctl.v), ctl.p, Inner), Pop)
TryItem     == InIter("tryeach", "item") /\
  GoL(IF In(ctl.v.h, Top.n.acc) THEN IItem(Keep(ctl.v), ctl.p, Inner)
      ELSE IF Top.n.f THEN IErr(Reject(ctl.v, TRUE), ctl.p, Inner)
      ELSE IEnd(ctl.p, Inner), Pop, Mapping("chk", ctl.v.s))
TryErr      == InIter("tryeach", "err") /\ Go(IErr(Conv(ctl.e), ctl.p, Inner), Pop)
WhileItem   == InIter("mwhile", "item") /\
  GoL(IF In(ctl.v.h, Top.n.acc) THEN IItem(Keep(ctl.v), ctl.p, Inner)
      ELSE IEnd(ctl.p, Inner), Pop, Mapping("chk", ctl.v.s))
ScanItem    == InIter("scan", "item") /\
  LET acc == ScanAcc(Top.st.acc, ctl.v) IN
  GoL(IItem(ScanV(acc, ctl.v), ctl.p, [Inner EXCEPT !.acc = acc]), Pop, Mapping("scan", ToString(Top.st.acc) \o " " \o ctl.v.s))
AdapterEnd  == /\ \E k \in {"each", "tryeach", "mwhile", "scan", "take", "iunit", "ibig", "ietype"} : InIter(k, "end")
               /\ Go(IEnd(ctl.p, Inner), Pop)
AdapterErr  == /\ \E k \in {"each", "mwhile", "scan", "take", "iunit", "ibig"} : InIter(k, "err")
               /\ Go(IErr(ctl.e, ctl.p, Inner), Pop)

NextTake    == IsNext("take") /\
  IF ctl.st.left = 0 THEN Go(IEnd(ctl.p, ctl.st), stk)
  ELSE Go(Next_(ctl.n.a, ctl.st.in, ctl.p), Push([k |-> "take", n |-> ctl.n, st |-> ctl.st]))
TakeItem    == InIter("take", "item") /\ Go(IItem(ctl.v, ctl.p, [Inner EXCEPT !.left = @ - 1]), Pop)

-----------------------------------------------------------------------------
(* Commands *)
Running == pc <= Len(cmds)
Cmd == cmds[pc]

(* observation of one command; on failure the caller rewinds to its anchor  *)
ObsOk(v, p)  == [r |-> "ok", v |-> v.s, p |-> p]
ObsErr(e, p) == [r |-> "err", v |-> e.s, p |-> p, f |-> e.f]
ObsEnd(p)    == [r |-> "end", p |-> p]

StartParse ==
  /\ ctl.m = "idle" /\ Running /\ Cmd.op = "parse"
  /\ ctl' = Call(Cmd.n, Cmd.at)
  /\ UNCHANGED <<input, cmds, pc, stk, slots, log, obs>>
StartIter ==
  /\ ctl.m = "idle" /\ Running /\ Cmd.op = "iter"
  /\ slots' = (Cmd.slot :> [n |-> Cmd.n, st |-> InitSt(Cmd.n), p |-> Cmd.at]) @@ slots
  /\ pc' = pc + 1
  /\ UNCHANGED <<input, cmds, ctl, stk, log, obs>>
StartStep ==
  /\ ctl.m = "idle" /\ Running /\ Cmd.op = "step"
  /\ LET s == slots[Cmd.slot] IN ctl' = Next_(s.n, s.st, s.p)
  /\ UNCHANGED <<input, cmds, pc, stk, slots, log, obs>>

Finish(o) ==
  /\ ctl' = Idle /\ pc' = pc + 1 /\ obs' = Append(obs, o)
  /\ UNCHANGED <<input, cmds, stk, log>>
FinishOk  == ctl.m = "ret" /\ stk = <<>> /\ ctl.ok /\ Finish(ObsOk(ctl.v, ctl.p)) /\ UNCHANGED slots
FinishErr == ctl.m = "ret" /\ stk = <<>> /\ ~ctl.ok /\ Finish(ObsErr(ctl.e, Cmd.at)) /\ UNCHANGED slots
FinishItem == ctl.m = "iret" /\ stk = <<>> /\ ctl.k = "item" /\ Finish(ObsOk(ctl.v, ctl.p))
              /\ slots' = [slots EXCEPT ![Cmd.slot].st = ctl.st, ![Cmd.slot].p = ctl.p]
FinishEnd == ctl.m = "iret" /\ stk = <<>> /\ ctl.k = "end" /\ Finish(ObsEnd(ctl.p))
              /\ slots' = [slots EXCEPT ![Cmd.slot].st = ctl.st, ![Cmd.slot].p = ctl.p]
FinishIErr == ctl.m = "iret" /\ stk = <<>> /\ ctl.k = "err"
              /\ Finish(ObsErr(ctl.e, slots[Cmd.slot].p))
              /\ slots' = [slots EXCEPT ![Cmd.slot].st = ctl.st]   \* position: rewound by the caller

Done == ctl.m = "idle" /\ ~Running

-----------------------------------------------------------------------------
ParserStep ==
  \/ Leaf \/ Transparent \/ CallAs \/ AsOk \/ AsErr \/ AsItem
  \/ CallEType \/ ETypeOk \/ ETypeErr \/ ETypeItem \/ ETypeIErr
  \/ CallMap \/ MapOk \/ MapErr_ \/ CallMapErr \/ MapErrOk \/ MapErrErr
  \/ CallAndThen \/ AndThenOk \/ AndThenErr
  \/ CallJoin \/ JoinFirstOk \/ JoinFirstErr \/ JoinLastOk \/ JoinLastErr
  \/ CallOr \/ OrFirstOk \/ OrFirstMiss \/ OrFirstFatal \/ OrLastOk \/ OrLastMiss \/ OrLastFatal
  \/ CallOpt \/ OptOk \/ OptMiss \/ OptFatal
  \/ CallRep \/ RepItem \/ RepMiss \/ RepFatal
  \/ CallBin \/ BinHeadErr \/ BinHeadOk \/ BinOpOk \/ BinOpMiss \/ BinOpFatal
  \/ BinTermOk \/ BinTermMiss \/ BinTermFatal
  \/ CallCollect \/ CollectItem \/ CollectEnd \/ CollectErr
  \/ CallFold \/ FoldItem \/ FoldEnd \/ FoldErr
  \/ CallDrive \/ DriveItem \/ DriveEnd \/ DriveErr
  \/ NextRep \/ IRepOk \/ IRepMiss \/ IRepFatal
  \/ NextOpt \/ IOptOk \/ IOptMiss \/ IOptFatal
  \/ NextScript \/ NextRef \/ NextAdapter \/ EachItem \/ TryItem \/ TryErr \/ WhileItem
  \/ ScanItem \/ AdapterEnd \/ AdapterErr \/ NextTake \/ TakeItem

CmdStep == StartParse \/ StartIter \/ StartStep
           \/ FinishOk \/ FinishErr \/ FinishItem \/ FinishEnd \/ FinishIErr

Start(in, cs) ==
  /\ input = in /\ cmds = cs /\ pc = 1 /\ ctl = Idle /\ stk = <<>>
  /\ slots = <<>> /\ log = <<>> /\ obs = <<>>

Next == ParserStep \/ CmdStep
Spec == \E in \in {<<>>}, cs \in {<<>>} : Start(in, cs) /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the machine (checked by PegEnum on exhaustive families)     *)

(* C01: whenever a frame recovers from a failure, control continues at the   *)
(* anchor of that frame.                                                     *)
Recovers ==
  \/ OrFirstMiss \/ OptMiss \/ RepMiss \/ BinOpMiss \/ BinTermMiss
  \/ IRepMiss \/ IOptMiss \/ CollectEnd \/ CollectErr
RecoveryRestores == [][Recovers => ctl'.p = Top.a]_vars
(* anchors are taken where the attempt starts and never past the input       *)
AnchorsSound == \A i \in 1..Len(stk) :
                  "a" \in DOMAIN stk[i] => stk[i].a \in 0..Len(input)

(* C02: a terminating failure travels up unchanged in class through every    *)
(* frame except error mappings (the user's own) and collect.                 *)
FatalCtl == (ctl.m = "ret" /\ ~ctl.ok /\ ctl.e.f) \/ (ctl.m = "iret" /\ ctl.k = "err" /\ ctl.e.f)
FatalNow == (ctl'.m = "ret" /\ ~ctl'.ok /\ ctl'.e.f) \/ (ctl'.m = "iret" /\ ctl'.k = "err" /\ ctl'.e.f)
FatalPropagates ==
  [][(FatalCtl /\ stk # <<>> /\ Top.k \notin {"maperr", "collect", "etype", "ietype"}) => (FatalNow /\ Len(stk') = Len(stk) - 1)]_vars
(* and no failure becomes terminating except at a leaf, an error mapping or  *)
(* a rejecting check                                                         *)
NoEscalation ==
  [][(FatalNow /\ ~FatalCtl) =>
       \/ ctl.m = "call" /\ ctl.n.k = "eat"
       \/ ctl.m = "next" /\ ctl.n.k = "iscript"
       \/ stk # <<>> /\ Top.k \in {"maperr", "andthen", "tryeach", "etype", "ietype"}]_vars

PositionsSound == ("p" \in DOMAIN ctl) => ctl.p \in 0..Len(input)
=============================================================================
