------------------------------ MODULE TableLock ------------------------------
(* Goroutines add columns to a table and look them up. With the lock an       *)
(* addition is one step; without, it reads the length, appends, and enters    *)
(* the position, each on its own. A lookup finds what has been entered.       *)
EXTENDS Tables, TLC
CONSTANTS Locked, Adders, Lookers, Looks
VARIABLES cols, map, pc, mine, ops, clock, left
vars == << cols, map, pc, mine, ops, clock, left >>
Procs == Adders \cup Lookers

Init == /\ cols = << >> /\ map = [a \in Adders |-> 0] /\ pc = [p \in Procs |-> "idle"]
        /\ mine = [p \in Procs |-> [inv |-> 0, got |-> 0, c |-> p, len |-> 0]]
        /\ ops = << >> /\ clock = 1 /\ left = [p \in Procs |-> IF p \in Adders THEN 1 ELSE Looks]

Tick == clock' = clock + 1
Call(p) == /\ pc[p] = "idle" /\ left[p] > 0 /\ Tick
           /\ left' = [left EXCEPT ![p] = @ - 1]
           /\ pc' = [pc EXCEPT ![p] = "called"]
           /\ \E c \in (IF p \in Adders THEN {p} ELSE Adders) : mine' = [mine EXCEPT ![p] = [inv |-> clock, got |-> 0, c |-> c, len |-> 0]]
           /\ UNCHANGED << cols, map, ops >>
(* positions of a list that may lose entries *)
Put(l, i, x) == IF i = Len(l) + 1 THEN Append(l, x) ELSE [l EXCEPT ![i] = x]
Add(p) == /\ p \in Adders /\ UNCHANGED << ops, left, clock >>
          /\ IF Locked
             THEN /\ pc[p] = "called" /\ cols' = Append(cols, p) /\ map' = [map EXCEPT ![p] = Len(cols) + 1]
                  /\ pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED mine
             ELSE \/ /\ pc[p] = "called" /\ mine' = [mine EXCEPT ![p].len = Len(cols)] /\ pc' = [pc EXCEPT ![p] = "read"] /\ UNCHANGED << cols, map >>
                  \/ /\ pc[p] = "read" /\ cols' = Put(cols, mine[p].len + 1, p) /\ pc' = [pc EXCEPT ![p] = "put"] /\ UNCHANGED << mine, map >>
                  \/ /\ pc[p] = "put" /\ map' = [map EXCEPT ![p] = Len(cols)] /\ pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED << cols, mine >>
Look(p) == /\ p \in Lookers /\ pc[p] = "called" /\ mine' = [mine EXCEPT ![p].got = map[mine[p].c]]
           /\ pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED << cols, map, ops, clock, left >>
Ret(p) == /\ pc[p] = "done" /\ Tick /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ ops' = Append(ops, [p |-> p, c |-> mine[p].c, got |-> mine[p].got, inv |-> mine[p].inv, ret |-> clock])
          /\ UNCHANGED << cols, map, mine, left >>
Next == \E p \in Procs : Call(p) \/ Add(p) \/ Look(p) \/ Ret(p)
Spec == Init /\ [][Next]_vars

Quiet == \A p \in Procs : pc[p] = "idle" /\ left[p] = 0
Where(c) == LET P == { i \in 1..Len(cols) : cols[i] = c } IN IF P = {} THEN 0 ELSE CHOOSE i \in P : TRUE
History == [ i \in 1..Len(ops) |-> LET o == ops[i] IN
   [k |-> IF o.p \in Adders THEN "add" ELSE IF o.got = 0 THEN "miss" ELSE "hit", pos |-> Where(o.c), inv |-> o.inv, ret |-> o.ret] ]
NothingLost == Quiet => Len(cols) = Cardinality(Adders) /\ \A a \in Adders : Where(a) > 0 /\ map[a] = Where(a)
Explained == Quiet => Linearizable(History)
(* and the rule is not too strong: a history can be explained as soon as the  *)
(* rule allows it (by an order of the operations in which they are right)     *)
Orders == { f \in [1..Len(ops) -> 1..Len(ops)] : \A i, j \in 1..Len(ops) : i # j => f[i] # f[j] }
RightOrder(f, H) ==
  /\ \A i, j \in 1..Len(H) : H[i].ret < H[j].inv => f[i] < f[j]
  /\ \A i, j \in 1..Len(H) : (H[i].k = "add" /\ H[j].k = "hit" /\ H[i].pos = H[j].pos) => f[i] < f[j]
  /\ \A i, j \in 1..Len(H) : (H[i].k = "add" /\ H[j].k = "miss" /\ H[i].pos = H[j].pos) => f[j] < f[i]
  /\ \A i, j \in 1..Len(H) : (H[i].k = "add" /\ H[j].k = "add" /\ H[i].pos < H[j].pos) => f[i] < f[j]
(* every history over these intervals with other answers *)
Flips == [ 1..Len(ops) -> BOOLEAN ]
Flip(H, g) == [ i \in 1..Len(H) |-> IF g[i] /\ H[i].k = "hit" THEN [H[i] EXCEPT !.k = "miss"] ELSE IF g[i] /\ H[i].k = "miss" THEN [H[i] EXCEPT !.k = "hit"] ELSE H[i] ]
Exact == Quiet => \A g \in Flips : LET H == Flip(History, g) IN Linearizable(H) <=> \E f \in Orders : RightOrder(f, H)
=============================================================================
