------------------------------- MODULE Uniform -------------------------------
(* Long inputs that are all alike: n items 0, then t items 1. What parsers of items 0 make of them depends on
   numbers only, so it can be said for inputs far longer than the machine of Peg can be run on. UniformMC
   checks that these numbers are those of PegSem.

   An outcome: ok, c (items collected), p (where it ends), calls (of the item parser), mid (calls and items
   while iterating, see below).                                                                         *)
EXTENDS Integers, Sequences, TLC

MinN(a, b) == IF a < b THEN a ELSE b
Item0 == [k |-> "the", c |-> 0]

(* iterations: how many items, how often the item parser is called until the end is told *)
RECURSIVE Count(_, _), Calls_(_, _)
Count(i, n) ==
  CASE i.k = "irep" -> n
    [] i.k = "iopt" -> MinN(1, n)
    [] i.k = "take" -> MinN(i.n, Count(i.a, n))
    [] OTHER -> Count(i.a, n)
Calls_(i, n) ==
  CASE i.k = "irep" -> n + 1
    [] i.k = "iopt" -> 1
    [] i.k = "take" -> IF i.n <= Count(i.a, n) THEN MinN(i.n, Calls_(i.a, n)) ELSE Calls_(i.a, n)
    [] OTHER -> Calls_(i.a, n)

Ok(c, p, calls) == [ok |-> TRUE, c |-> c, p |-> p, calls |-> calls]
No(calls) == [ok |-> FALSE, c |-> 0, p |-> 0, calls |-> calls]
(* at: how many items are behind already *)
Outcome(x, n, t) ==
  CASE x.k = "rep" -> Ok(n, n, n + 1)
    [] x.k \in {"collect", "fold"} -> Ok(Count(x.a, n), Count(x.a, n), Calls_(x.a, n))
    [] x.k = "opt" -> Ok(MinN(1, n), MinN(1, n), 1)
    (* one pattern of w items 0 *)
    [] x.k = "atom" -> IF x.w <= n THEN Ok(x.w, x.w, 1) ELSE No(1)
    (* everything, then something that is not there; taken back; then everything again *)
    [] x.k = "try" -> Ok(n, n, n + 1 + 1 + n + 1)
    (* terms and operators in turn: the last operator has no term when n is even *)
    [] x.k = "bin" ->
         IF n = 0 THEN No(1)
         ELSE LET terms == (n + 1) \div 2 IN Ok(terms, 2 * terms - 1, IF n % 2 = 1 THEN n + 1 ELSE n + 1)
=============================================================================
