------------------------------- MODULE PegSem -------------------------------
(***************************************************************************)
(* The meaning of a parser, given directly: what a parser returns at a     *)
(* position, as a function of what its parts return there.  This is the    *)
(* oracle against which the machine of Peg is checked; it knows nothing of *)
(* frames or anchors.                                                      *)
(***************************************************************************)
EXTENDS Peg

RO(v, p, l) == [ok |-> TRUE, v |-> v, p |-> p, l |-> l]
RE(e, p, l) == [ok |-> FALSE, e |-> e, p |-> p, l |-> l]
AddLog(l, r) == [r EXCEPT !.l = l \o @]
WithErr(r, e) == [r EXCEPT !.e = e]

(* the one tree over terms ts and operators os: the root is a loosest      *)
(* operator; of several, the first one that groups to the right, else the  *)
(* last one                                                                *)
Loosest(os) == {i \in 1..Len(os) : \A j \in 1..Len(os) : os[i].r <= os[j].r}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RootOf(os) == LET L == Loosest(os)
                  R == {i \in L : os[i].right}
              IN IF R # {} THEN MinOf(R) ELSE MaxOf(L)
RECURSIVE TreeOf(_, _)
TreeOf(ts, os) ==
  IF os = <<>> THEN ts[1]
  ELSE LET i == RootOf(os) IN
       BinV(TreeOf(SubSeq(ts, 1, i), SubSeq(os, 1, i - 1)), os[i],
            TreeOf(SubSeq(ts, i + 1, Len(ts)), SubSeq(os, i + 1, Len(os))))

RECURSIVE Sem(_, _), SemRep(_, _, _, _), SemBin(_, _, _, _, _),
          ISem(_, _, _), SemCollect(_, _, _, _, _), SemFold(_, _, _, _, _), SemDrive(_, _, _, _, _)

Sem(n, p) ==
  CASE n.k \in LeafKinds ->
         LET r == LeafResult(n, p) IN
         IF r.ok THEN RO(r.v, r.p, <<LogEntry(n, p)>>) ELSE RE(r.e, r.p, <<LogEntry(n, p)>>)
    [] n.k \in {"ref", "boxed"} -> Sem(n.a, p)
    [] n.k \in {"unit", "big"} ->
         LET r == Sem(n.a, p) IN IF r.ok THEN RO(AsType(n.k, r.v), r.p, r.l) ELSE r
    [] n.k = "etype" -> LET r == Sem(n.a, p) IN IF r.ok THEN r ELSE WithErr(r, ErrType(n.cls, r.e))
    [] n.k = "map" ->
         LET r == Sem(n.a, p) IN
         IF r.ok THEN RO(MapV(r.v), r.p, Append(r.l, Mapping("map", r.v.s))) ELSE r
    [] n.k = "maperr" ->
         LET r == Sem(n.a, p) IN
         IF r.ok THEN r ELSE RE(ErrClass(n.cls, r.e), r.p, Append(r.l, Mapping("err", r.e.s)))
    [] n.k = "andthen" ->
         LET r == Sem(n.a, p) IN
         IF ~r.ok THEN RE(Conv(r.e), r.p, r.l)
         ELSE LET l == Append(r.l, Mapping("chk", r.v.s)) IN
              IF In(r.v.h, n.acc) THEN RO(Keep(r.v), r.p, l) ELSE RE(Reject(r.v, n.f), r.p, l)
    [] n.k \in {"join", "unifyerr"} ->
         LET r == Sem(n.a, p)
             ef(e) == IF n.k = "join" THEN EFirst(e) ELSE E("0(" \o e.s \o ")", e.f)
             el(e) == IF n.k = "join" THEN ELast(e) ELSE E("1(" \o e.s \o ")", e.f)
         IN IF ~r.ok THEN WithErr(r, ef(r.e))
            ELSE LET q == AddLog(r.l, Sem(n.b, r.p)) IN
                 IF ~q.ok THEN WithErr(q, el(q.e)) ELSE RO(Pair(r.v, q.v), q.p, q.l)
    [] n.k \in {"or", "unify"} ->
         LET r == Sem(n.a, p)
             vf(v) == IF n.k = "or" THEN First(v) ELSE V("0(" \o v.s \o ")", v.h)
             vl(v) == IF n.k = "or" THEN Last_(v) ELSE V("1(" \o v.s \o ")", v.h + 1)
         IN IF r.ok THEN RO(vf(r.v), r.p, r.l)
            ELSE IF r.e.f THEN WithErr(r, EFirst(r.e))
            ELSE LET q == AddLog(r.l, Sem(n.b, p)) IN
                 IF q.ok THEN RO(vl(q.v), q.p, q.l)
                 ELSE IF q.e.f THEN WithErr(q, ELast(q.e))
                 ELSE WithErr(q, EBoth(r.e, q.e))
    [] n.k = "opt" ->
         LET r == Sem(n.a, p) IN
         IF r.ok THEN RO(V("S(" \o r.v.s \o ")", r.v.h), r.p, r.l)
         ELSE IF r.e.f THEN r
         ELSE RO(V("N(" \o r.e.s \o ")", 6), p, r.l)
    [] n.k = "rep" -> SemRep(n.a, p, <<>>, <<>>)
    [] n.k = "bin" ->
         LET r == Sem(n.a, p) IN
         IF ~r.ok THEN WithErr(r, ELast(r.e)) ELSE SemBin(n, r.p, <<r.v>>, <<>>, r.l)
    [] n.k = "collect" -> SemCollect(n.a, InitSt(n.a), p, <<>>, <<>>)
    [] n.k = "fold" -> SemFold(n.a, InitSt(n.a), p, V("z", 1), <<>>)
    [] n.k = "drive" -> SemDrive([n |-> n.n, a |-> n.a], InitSt(n.a), p, <<>>, <<>>)

SemRep(n, p, vs, l) ==
  LET r == AddLog(l, Sem(n, p)) IN
  IF r.ok THEN SemRep(n, r.p, Append(vs, r.v), r.l)
  ELSE IF r.e.f THEN r ELSE RO(ListV(vs, ";" \o r.e.s), p, r.l)

(* p: end of the chain so far *)
SemBin(n, p, ts, os, l) ==
  LET o == AddLog(l, Sem(n.b, p))
      stop(e, lg) == RO(BinV_(n.show, TreeOf(ts, os), e), p, lg)
  IN IF ~o.ok THEN IF o.e.f THEN WithErr(o, EFirst(o.e)) ELSE stop(EFirst(o.e), o.l)
     ELSE LET t == AddLog(o.l, Sem(n.a, o.p)) IN
          IF ~t.ok THEN IF t.e.f THEN WithErr(t, ELast(t.e)) ELSE stop(ELast(t.e), t.l)
          ELSE SemBin(n, t.p, Append(ts, t.v), Append(os, OpOf(n, o.v)), t.l)

(* Iterations: one step from state st at position p                         *)
NI(k, p, st, l) == [k |-> k, p |-> p, st |-> st, l |-> l]
WithV(r, v) == r @@ [v |-> v]
WithE(r, e) == r @@ [e |-> e]

ISem(n, st, p) ==
  CASE n.k = "irep" ->
         LET r == Sem(n.a, p) IN
         IF r.ok THEN WithV(NI("item", r.p, st, r.l), r.v)
         ELSE IF r.e.f THEN WithE(NI("err", r.p, st, r.l), r.e) ELSE NI("end", p, st, r.l)
    [] n.k = "iopt" ->
         IF st.used THEN NI("end", p, st, <<>>)
         ELSE LET r == Sem(n.a, p)
                  u == [used |-> TRUE]
              IN IF r.ok THEN WithV(NI("item", r.p, u, r.l), r.v)
                 ELSE IF r.e.f THEN WithE(NI("err", r.p, u, r.l), r.e) ELSE NI("end", p, u, r.l)
    [] n.k = "iscript" -> ScriptStep(n, st, p) @@ [l |-> <<ScriptName(st, p)>>]
    [] n.k = "iref" -> ISem(n.a, st, p)
    [] n.k \in {"each", "tryeach", "mwhile", "scan", "iunit", "ibig", "ietype"} ->
         LET r == ISem(n.a, st.in, p)
             nst == [st EXCEPT !.in = r.st]
         IN IF r.k = "end" THEN NI("end", r.p, nst, r.l)
            ELSE IF r.k = "err"
                 THEN WithE(NI("err", r.p, nst, r.l), IF n.k = "tryeach" THEN Conv(r.e) ELSE IF n.k = "ietype" THEN ErrType(n.cls, r.e) ELSE r.e)
            ELSE CASE n.k = "each" -> WithV(NI("item", r.p, nst, Append(r.l, Mapping("map", r.v.s))), MapV(r.v))
                   [] n.k = "ietype" -> WithV(NI("item", r.p, nst, r.l), r.v)
                   [] n.k \in {"iunit", "ibig"} -> WithV(NI("item", r.p, nst, r.l), AsType(n.k, r.v))
                   [] n.k = "scan" ->
                        LET acc == ScanAcc(st.acc, r.v) IN
                        WithV(NI("item", r.p, [nst EXCEPT !.acc = acc],
                                 Append(r.l, Mapping("scan", ToString(st.acc) \o " " \o r.v.s))), ScanV(acc, r.v))
                   [] OTHER ->
                        LET l == Append(r.l, Mapping("chk", r.v.s)) IN
                        IF In(r.v.h, n.acc) THEN WithV(NI("item", r.p, nst, l), Keep(r.v))
                        ELSE IF n.k = "tryeach" /\ n.f THEN WithE(NI("err", r.p, nst, l), Reject(r.v, TRUE))
                        ELSE NI("end", r.p, nst, l)
    [] n.k = "take" ->
         IF st.left = 0 THEN NI("end", p, st, <<>>)
         ELSE LET r == ISem(n.a, st.in, p)
                  nst == [left |-> IF r.k = "item" THEN st.left - 1 ELSE st.left, in |-> r.st]
              IN [r EXCEPT !.st = nst]

SemCollect(n, st, p, vs, l) ==
  LET r == ISem(n, st, p)
      lg == l \o r.l
  IN CASE r.k = "item" -> SemCollect(n, r.st, r.p, Append(vs, r.v), lg)
       [] r.k = "end"  -> RO(ListV(vs, ""), p, lg)
       [] r.k = "err"  -> RO(ListV(vs, ";" \o r.e.s), p, lg)
SemFold(n, st, p, acc, l) ==
  LET r == ISem(n, st, p)
      lg == l \o r.l
  IN CASE r.k = "item" -> SemFold(n, r.st, r.p, FoldV(acc, r.v), Append(lg, Mapping("fold", r.v.s)))
       [] r.k = "end"  -> RO(acc, r.p, lg)
       [] r.k = "err"  -> RE(r.e, r.p, lg)
SemDrive(d, st, p, vs, l) ==
  IF Len(vs) = d.n THEN RO(ListV(vs, ""), p, l)
  ELSE LET r == ISem(d.a, st, p)
           lg == l \o r.l
       IN CASE r.k = "item" -> SemDrive(d, r.st, r.p, Append(vs, V("I(" \o r.v.s \o ")@" \o ToString(r.p), r.v.h)), lg)
            [] r.k = "end"  -> SemDrive(d, r.st, r.p, Append(vs, V("E@" \o ToString(r.p), 0)), lg)
            [] r.k = "err"  -> RE(r.e, r.p, lg)

(* what a user sees of one parse *)
SemObs(n, p) == LET r == Sem(n, p) IN
  IF r.ok THEN ObsOk(r.v, r.p) ELSE ObsErr(r.e, p)

(* what a user sees of stepping one iteration k times on its own            *)
RECURSIVE StepsAlone(_, _, _, _)
StepsAlone(n, st, p, k) ==
  IF k = 0 THEN <<>>
  ELSE LET r == ISem(n, st, p) IN
       CASE r.k = "item" -> <<ObsOk(r.v, r.p)>> \o StepsAlone(n, r.st, r.p, k - 1)
         [] r.k = "end"  -> <<ObsEnd(r.p)>> \o StepsAlone(n, r.st, r.p, k - 1)
         [] r.k = "err"  -> <<ObsErr(r.e, p)>> \o StepsAlone(n, r.st, p, k - 1)
=============================================================================
