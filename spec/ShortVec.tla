------------------------------ MODULE ShortVec ------------------------------
(* A stack with an inline space of n items, and what it may do with its items and with memory.
   C21 is about the contents, C22 about item ownership and allocator requests. *)
EXTENDS Integers, Sequences, FiniteSets

(* isz: size of an item (0: zero-sized items, which all look alike and are written 0); al: its alignment;
   drops: whether dropping an item can be seen *)
Start(n, isz, al, drops) ==
  [n |-> n, isz |-> isz, al |-> al, drops |-> drops, items |-> <<>>, here |-> FALSE, reserved |-> 0, most |-> 0, grown |-> 0, live |-> {}]

Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Log2(_)
Log2(k) == IF k <= 1 THEN 0 ELSE 1 + Log2(k \div 2)
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(p, q) == \/ p = q
                 \/ /\ Len(p) = Len(q)
                    /\ \A x \in {p[i] : i \in DOMAIN p} : Count(p, x) = Count(q, x)
Least(a, b) == IF a < b THEN a ELSE b
Front(q) == SubSeq(q, 1, Len(q) - 1)
Id(s, x) == IF s.isz = 0 THEN 0 ELSE x
Tops(q, k) == [i \in 1..k |-> q[Len(q) + 1 - i]]      \* the last k, the last of all first

(* the items after an operation, and those the vector itself must have dropped *)
Items(s, e) ==
  CASE e.e \in {"new", "drop", "take"} -> <<>>
    [] e.e = "push" -> Append(s.items, Id(s, e.id))
    [] e.e = "pop" -> IF s.items = <<>> THEN <<>> ELSE Front(s.items)
    [] e.e = "pushes" -> s.items \o [i \in 1..e.n |-> Id(s, ((e.first + i - 2) % 100) + 1)]
    [] e.e = "pops" -> SubSeq(s.items, 1, Len(s.items) - Least(e.n, Len(s.items)))
    [] e.e = "set" -> [s.items EXCEPT ![e.i] = Id(s, e.id)]
    [] OTHER -> s.items
Dropped(s, e) == IF e.e \in {"drop", "take"} THEN s.items ELSE <<>>
Here(e) == e.e # "drop"
(* how much room the operation asks for *)
Wants(s, e) == CASE e.e \in {"new", "reserve", "exact"} -> e.n
                 [] e.e = "push" -> Len(s.items) + 1
                 [] e.e = "pushes" -> Len(s.items) + e.when      \* the first push that made a request
                 [] OTHER -> 0
(* room that was promised before the operation *)
Room(s, e) == IF e.e = "new" THEN s.n ELSE Max(s.n, s.reserved)

(* allocator requests, in order: alloc(b, size, al), free(b, size, al), realloc(b, size, al, to, tosize) *)
AllocOk(s, live, a) ==
  CASE a.k = "alloc" -> a.size > 0
    [] a.k = "free" -> a.size > 0 /\ <<a.b, a.size, a.al>> \in live
    [] a.k = "realloc" -> a.size > 0 /\ a.tosize > 0 /\ <<a.b, a.size, a.al>> \in live
    [] OTHER -> FALSE
AllocNext(live, a) ==
  CASE a.k = "alloc" -> live \union {<<a.b, a.size, a.al>>}
    [] a.k = "free" -> live \ {<<a.b, a.size, a.al>>}
    [] OTHER -> (live \ {<<a.b, a.size, a.al>>}) \union {<<a.to, a.tosize, a.al>>}
RECURSIVE Live(_, _, _)      \* {<<0>>}: some request was not valid
Live(s, live, q) == IF q = <<>> THEN live
                    ELSE IF AllocOk(s, live, Head(q)) THEN Live(s, AllocNext(live, Head(q)), Tail(q)) ELSE {<<0>>}
Times(e) == Cardinality({i \in DOMAIN e.mem : e.mem[i].k \in {"alloc", "realloc"}})
Obtains(e) == Times(e) > 0

After(s, e) ==
  LET items == Items(s, e) IN
  [s EXCEPT !.items = items,
            !.here = Here(e),
            !.reserved = IF e.e \in {"new", "take"} THEN Max(s.n, Wants(s, e))
                         ELSE IF e.e \in {"reserve", "exact"} THEN Max(s.reserved, e.n) ELSE s.reserved,
            !.most = IF e.e \in {"new", "take"} THEN 0 ELSE Max(s.most, Len(items)),
            !.grown = IF e.e \in {"new", "take"} THEN 0
                      ELSE IF e.e \in {"push", "pushes"} THEN s.grown + Times(e) ELSE s.grown,
            !.live = Live(s, s.live, e.mem)]

(* contents: views, what as_slice, as_slice_mut and as_ptr show (equal ones once), is_empty, what pop gave *)
ContentOk(s, e) ==
  LET items == Items(s, e) IN
  /\ e.e # "panic"
  /\ e.e = "pop" => e.got = IF s.items = <<>> THEN <<>> ELSE <<s.items[Len(s.items)]>>
  /\ e.e = "pops" => e.got = Tops(s.items, Least(e.n, Len(s.items)))
  /\ e.e = "huge" => e.refused \/ s.isz = 0          \* room that cannot exist is refused, and nothing happens
  /\ e.e = "set" => e.got = <<s.items[e.i]>>
  /\ Here(e) => /\ e.views = <<items>>
                /\ e.empty = (items = <<>>)

(* ownership and memory *)
OwnOk(s, e) ==
  LET live == Live(s, s.live, e.mem)  items == Items(s, e)  nx == After(s, e) IN
  /\ s.drops => SameBag(e.dropped, Dropped(s, e))
  /\ e.harm = <<>>                                    \* nothing was written outside the vector or its blocks, or to freed memory
  /\ <<0>> \notin live
  /\ s.isz = 0 => e.mem = <<>>
  /\ Obtains(e) => Wants(s, e) > Room(s, e)           \* nothing obtained for up to the inline or the reserved space
  /\ ~Here(e) => live = {}
  /\ e.e \in {"new", "take"} => Cardinality(live) <= 1
  /\ Here(e) => /\ e.aligned
                /\ s.isz > 0 /\ items # <<>> =>
                     IF e.at = 0 THEN Len(items) <= s.n     \* inline
                     ELSE \E b \in live : b[1] = e.at /\ b[2] >= Len(items) * s.isz
  /\ nx.grown <= 4 + 3 * Log2(nx.most)
Bad(s, e) == (IF ContentOk(s, e) THEN {} ELSE {"C21"}) \union
             (IF e.e = "panic" \/ OwnOk(s, e) THEN {} ELSE {"C22"})
=============================================================================
