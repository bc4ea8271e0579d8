-------------------------------- MODULE Utf8 --------------------------------
(* The UTF-8 validating source. Well-formedness is that of the Unicode Standard, table 3-7; what loads do
   is given by Allowed.                                                                                *)
EXTENDS Integers, Sequences

(* ---- table 3-7 as an automaton: 0 between characters, -1 ill-formed, k+ states inside a character ---- *)
In(b, lo, hi) == lo <= b /\ b <= hi
DFA(q, b) ==
  CASE q = 0 -> IF b <= 127 THEN 0
                ELSE IF In(b, 194, 223) THEN 1               \* one more
                ELSE IF b = 224 THEN 3                       \* A0..BF, then one
                ELSE IF b = 237 THEN 4                       \* 80..9F, then one
                ELSE IF In(b, 225, 239) THEN 2               \* two more
                ELSE IF b = 240 THEN 6                       \* 90..BF, then two
                ELSE IF b = 244 THEN 7                       \* 80..8F, then two
                ELSE IF In(b, 241, 243) THEN 5               \* three more
                ELSE 0 - 1
    [] q = 1 -> IF In(b, 128, 191) THEN 0 ELSE 0 - 1
    [] q = 2 -> IF In(b, 128, 191) THEN 1 ELSE 0 - 1
    [] q = 3 -> IF In(b, 160, 191) THEN 1 ELSE 0 - 1
    [] q = 4 -> IF In(b, 128, 159) THEN 1 ELSE 0 - 1
    [] q = 5 -> IF In(b, 128, 191) THEN 2 ELSE 0 - 1
    [] q = 6 -> IF In(b, 144, 191) THEN 2 ELSE 0 - 1
    [] q = 7 -> IF In(b, 128, 143) THEN 2 ELSE 0 - 1
    [] OTHER -> 0 - 1

(* w: length of the longest prefix made of complete characters; ok: what follows is the beginning of a character (or nothing) *)
RECURSIVE ScanFrom(_, _, _, _)
ScanFrom(bytes, i, q, w) ==
  IF i > Len(bytes) THEN [w |-> w, ok |-> TRUE, q |-> q]
  ELSE LET r == DFA(q, bytes[i])
       IN IF r = 0 - 1 THEN [w |-> w, ok |-> FALSE, q |-> r]
          ELSE ScanFrom(bytes, i + 1, r, IF r = 0 THEN i ELSE w)
Scan(bytes) == ScanFrom(bytes, 1, 0, 0)

IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Complete(bytes) == LET x == Scan(bytes) IN x.ok /\ x.w = Len(bytes)

(* State: src, the bytes the source has written so far; d, how many of them have been delivered; over,
   nothing more is promised (an invalid sequence has been reported).
   A load: `out` what the source did (adv with bytes, fin, ctl: reported an error instead of writing,
   cancel: after writing, abandon: the load was given up); `res` how the load ended; total: bytes delivered
   after it.                                                                                            *)
(* what has been delivered is complete characters, so scanning resumes there *)
Before(s, e) == IF e.out = "adv" THEN s.src \o e.bytes ELSE s.src
Allowed(s, e) ==
  LET all == Before(s, e)
      x == ScanFrom(all, s.d + 1, 0, s.d)
  IN /\ e.total >= s.d /\ e.total <= x.w
     /\ Complete(SubSeq(all, s.d + 1, e.total))
     /\ CASE e.out = "adv" -> IF x.ok THEN e.res = "ok" /\ e.total = x.w
                              ELSE e.res \in {"ok", "invalid"}
          [] e.out = "fin" -> IF x.ok /\ x.w = Len(all) THEN e.res = "done" /\ e.total = Len(all)
                              ELSE e.res = "invalid"
          [] e.out = "ctl" -> e.res = "inner" /\ e.errno = 77 /\ e.total = s.d
          [] e.out = "cancel" -> e.res = "inner" /\ e.errno = 78 /\ e.total = s.d
          [] e.out = "abandon" -> e.res = "none" /\ e.total = s.d
          [] OTHER -> FALSE
After(s, e) == [src |-> Before(s, e), d |-> e.total, over |-> s.over \/ e.res = "invalid"]
Start == [src |-> <<>>, d |-> 0, over |-> FALSE]
=============================================================================
