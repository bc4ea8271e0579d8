----------------------------- MODULE ShortVecMC -----------------------------
(* The vector as built: a capacity, a length, and cells that are inline while the capacity is N and in one
   heap block above it; moving to the heap copies, growing reallocates. Checked to follow ShortVec; histories
   are printed to be run on the code. *)
EXTENDS ShortVec, TLC, Json
CONSTANTS MaxN, MaxCap, Steps, Sizes, GRAN    \* GRAN: 2 as built (doubling); 1 would grow by one

VARIABLES s, cap, len, stack, heap, blk, nextid, nextblk, hist, bad
vars == <<s, cap, len, stack, heap, blk, nextid, nextblk, hist, bad>>
Junk == 99
N == s.n
Z == s.isz = 0
IsHeap == cap > N
Cells == IF IsHeap THEN heap ELSE stack
Blank(k) == [j \in 1..k |-> Junk]
Obs(e, it) == e @@ [views |-> <<it>>, empty |-> (it = <<>>), harm |-> <<>>, aligned |-> TRUE]
Init == /\ \E n \in 0..MaxN, z \in Sizes : s = Start(n, z, 1, TRUE)
        /\ cap = 0 /\ len = 0 /\ stack = <<>> /\ heap = <<>> /\ blk = 0
        /\ nextid = 1 /\ nextblk = 1 /\ hist = <<>> /\ bad = {}
(* e: event without observations, computed from the primed implementation variables *)
Do(e, cmd) ==
  LET it == SubSeq(IF cap' > N THEN heap' ELSE stack', 1, len')
      ev == IF Here(e) THEN Obs(e, it) @@ [at |-> IF cap' > N /\ ~Z THEN blk' ELSE 0]
                       ELSE e @@ [harm |-> <<>>]
  IN bad' = Bad(s, ev) /\ s' = After(s, ev) /\ hist' = Append(hist, cmd)
Held == SubSeq(Cells, 1, len)
NoMem == <<>>
Fresh(c, k) ==   \* a new vector with capacity c, releasing k
  IF c > N THEN /\ cap' = c /\ heap' = Blank(c) /\ stack' = <<>>
                /\ blk' = nextblk /\ nextblk' = nextblk + 1
           ELSE /\ cap' = N /\ stack' = Blank(N) /\ heap' = <<>> /\ blk' = 0 /\ UNCHANGED nextblk
Alloc(b, c) == IF Z THEN <<>> ELSE <<[k |-> "alloc", b |-> b, size |-> c * s.isz, al |-> 1]>>
Free == IF Z \/ ~IsHeap THEN <<>> ELSE <<[k |-> "free", b |-> blk, size |-> cap * s.isz, al |-> 1]>>
New(c) == /\ hist = <<>> /\ Fresh(c, 0) /\ len' = 0 /\ UNCHANGED nextid
          /\ Do([e |-> "new", n |-> c, dropped |-> <<>>, mem |-> IF c > N THEN Alloc(nextblk, c) ELSE <<>>], [op |-> "new", n |-> c])
(* reserve_exact: capacity, cells, block and requests after asking for c *)
Grown(c) ==
  IF cap >= c THEN [cap |-> cap, heap |-> heap, blk |-> blk, mem |-> <<>>, next |-> nextblk]
  ELSE [cap |-> c, heap |-> SubSeq(Cells, 1, len) \o Blank(c - len), blk |-> nextblk, next |-> nextblk + 1,
        mem |-> IF Z THEN <<>>
                ELSE IF IsHeap THEN <<[k |-> "realloc", b |-> blk, size |-> cap * s.isz, al |-> 1, to |-> nextblk, tosize |-> c * s.isz]>>
                ELSE Alloc(nextblk, c)]
Reserved(c) == IF cap >= c THEN Grown(0) ELSE Grown(Max(IF GRAN = 2 THEN cap * 2 ELSE cap + 1, c))
Set(g) == cap' = g.cap /\ blk' = g.blk /\ nextblk' = g.next
Reserve(c) == LET g == Reserved(c) IN Set(g) /\ heap' = g.heap /\ UNCHANGED <<stack, len, nextid>>
          /\ Do([e |-> "reserve", n |-> c, dropped |-> <<>>, mem |-> g.mem], [op |-> "reserve", n |-> c])
Exact(c) == LET g == Grown(c) IN Set(g) /\ heap' = g.heap /\ UNCHANGED <<stack, len, nextid>>
          /\ Do([e |-> "exact", n |-> c, dropped |-> <<>>, mem |-> g.mem], [op |-> "exact", n |-> c])
Push == LET g == Reserved(len + 1)  x == Id(s, nextid) IN
        /\ Set(g)
        /\ IF g.cap > N THEN heap' = [g.heap EXCEPT ![len + 1] = x] /\ UNCHANGED stack
                        ELSE stack' = [stack EXCEPT ![len + 1] = x] /\ heap' = g.heap
        /\ len' = len + 1 /\ nextid' = nextid + 1
        /\ Do([e |-> "push", id |-> nextid, dropped |-> <<>>, mem |-> g.mem], [op |-> "push"])
Pop == /\ UNCHANGED <<cap, heap, stack, blk, nextblk, nextid>>
       /\ len' = IF len = 0 THEN 0 ELSE len - 1
       /\ Do([e |-> "pop", got |-> IF len = 0 THEN <<>> ELSE <<Cells[len]>>, dropped |-> <<>>, mem |-> <<>>], [op |-> "pop"])
Put(i) == /\ UNCHANGED <<cap, len, blk, nextblk>> /\ nextid' = nextid + 1
          /\ IF IsHeap THEN heap' = [heap EXCEPT ![i] = Id(s, nextid)] /\ UNCHANGED stack
                       ELSE stack' = [stack EXCEPT ![i] = Id(s, nextid)] /\ UNCHANGED heap
          /\ Do([e |-> "set", i |-> i, id |-> nextid, got |-> <<Cells[i]>>, dropped |-> <<>>, mem |-> <<>>], [op |-> "set", i |-> i])
Move == UNCHANGED <<cap, len, stack, heap, blk, nextblk, nextid>> /\ Do([e |-> "move", dropped |-> <<>>, mem |-> <<>>], [op |-> "move"])
Huge == UNCHANGED <<cap, len, stack, heap, blk, nextblk, nextid>>
        /\ Do([e |-> "huge", refused |-> ~Z, dropped |-> <<>>, mem |-> <<>>], [op |-> "huge", way |-> (len + Len(hist) + cap) % 6])
Take == /\ Fresh(0, 0) /\ len' = 0 /\ UNCHANGED nextid
        /\ Do([e |-> "take", dropped |-> Held, mem |-> Free], [op |-> "take"])
Drop == /\ cap' = 0 /\ len' = 0 /\ stack' = <<>> /\ heap' = <<>> /\ UNCHANGED <<blk, nextblk, nextid>>
        /\ Do([e |-> "drop", dropped |-> Held, mem |-> Free], [op |-> "drop"])
Last == hist[Len(hist)].op
Next == \/ \E c \in 0..MaxCap : New(c)
        \/ /\ hist # <<>> /\ Last # "drop"
           /\ IF Len(hist) = Steps - 1 THEN Drop
              ELSE \/ Push \/ Pop \/ Move \/ Take \/ Huge
                   \/ \E c \in 0..MaxCap : Reserve(c) \/ Exact(c)
                   \/ \E i \in 1..len : Put(i)
Spec == Init /\ [][Next]_vars
Follows == bad = {}
Agrees == hist # <<>> /\ Last # "drop" => Held = s.items /\ cap >= N /\ len <= cap
Emit == (Len(hist) > 0 /\ Last = "drop") => PrintT("CASE " \o ToJson([n |-> N, zst |-> Z, cmds |-> hist]))
=============================================================================
