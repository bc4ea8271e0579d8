------------------------------- MODULE LineCol -------------------------------
(* Line and column positions. A text is a sequence over "r" (CR), "n" (LF) and "x" (any other character);
   "x4096" and the like stand for runs of that many other characters, "n70000", "r70000", "c70000" for runs
   of that many LF, CR, and CR LF.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ends(conv, t, i) == CASE conv = "lf" -> t[i] = "n" [] conv = "cr" -> t[i] = "r"
                      [] conv = "crlf" -> t[i] = "n" /\ i > 1 /\ t[i - 1] = "r"
(* A meter begins a new line at its first character, wherever it starts. *)
(* terminators that end before the last character *)
Breaks(conv, t) == {i \in 1..(Len(t) - 1) : Ends(conv, t, i)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Runs == (2..40) \cup {60, 100, 127, 128, 255, 256, 300, 1000, 4000, 4095, 4096, 5000, 32767, 65535, 65536, 70000}
WeightOf == [c \in {"r", "n", "x"} \cup {"x" \o ToString(k) : k \in Runs} |->
              IF c \in {"r", "n", "x"} THEN 1 ELSE CHOOSE k \in Runs : c = "x" \o ToString(k)]
Weight(c) == WeightOf[c]
RECURSIVE Chars(_, _, _)
Chars(t, i, j) == IF i > j THEN 0 ELSE Weight(t[i]) + Chars(t, i + 1, j)
Position(conv, start, t) ==
  IF t = <<>> THEN start
  ELSE [count |-> start.count + Chars(t, 1, Len(t)), line |-> start.line + 1 + Cardinality(Breaks(conv, t)),
        column |-> Chars(t, MaxOf(Breaks(conv, t) \cup {0}) + 1, Len(t))]
Zero == [count |-> 0, line |-> 0, column |-> 0]
(* The same character by character: where a text of many lines ends. st: place, whether a line is to begin, whether
   a CR was just seen.                                                                                              *)
FeedOne(conv, st, c) ==
  LET l0 == IF st.nl THEN [st.loc EXCEPT !.line = @ + 1, !.column = 0] ELSE st.loc
      w == Weight(c)
  IN [loc |-> [l0 EXCEPT !.count = @ + w, !.column = @ + w],
      nl |-> (CASE conv = "lf" -> c = "n" [] conv = "cr" -> c = "r" [] OTHER -> st.cr /\ c = "n"),
      cr |-> (conv = "crlf" /\ c = "r")]
RECURSIVE FeedAll(_, _, _)
FeedAll(conv, st, t) == IF t = <<>> THEN st ELSE FeedAll(conv, FeedOne(conv, st, t[1]), Tail(t))
(* many times the same: from the third time on, each time adds the same *)
Many(conv, st, unit, k) ==
  LET s1 == FeedAll(conv, st, unit)
      s2 == FeedAll(conv, s1, unit)
      s3 == FeedAll(conv, s2, unit)
      d(f) == (k - 3) * (s3.loc[f] - s2.loc[f])
  IN CASE k = 0 -> st [] k = 1 -> s1 [] k = 2 -> s2
       [] OTHER -> [s3 EXCEPT !.loc = [f \in {"count", "line", "column"} |-> s3.loc[f] + d(f)]]
LineRuns == {2, 3, 4, 255, 256, 257, 1000, 4095, 4096, 32768, 65535, 65536, 65537, 70000}
RunOf == [c \in {u \o ToString(k) : u \in {"r", "n", "c"}, k \in LineRuns} |->
           CHOOSE p \in {<<"r">>, <<"n">>, <<"r", "n">>} \X LineRuns :
             c = (IF p[1] = <<"r">> THEN "r" ELSE IF p[1] = <<"n">> THEN "n" ELSE "c") \o ToString(p[2])]
RECURSIVE FeedRuns(_, _, _)
FeedRuns(conv, st, t) ==
  IF t = <<>> THEN st
  ELSE FeedRuns(conv, IF t[1] \in DOMAIN RunOf THEN Many(conv, st, RunOf[t[1]][1], RunOf[t[1]][2]) ELSE FeedOne(conv, st, t[1]), Tail(t))
Begin(start) == [loc |-> start, nl |-> TRUE, cr |-> FALSE]
(* the position in a text with runs of lines *)
Place(conv, start, t) ==
  IF \A i \in 1..Len(t) : t[i] \in DOMAIN WeightOf THEN Position(conv, start, t) ELSE FeedRuns(conv, Begin(start), t).loc
=============================================================================
