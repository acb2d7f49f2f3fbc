------------------------------ MODULE Readers -------------------------------
(* Operations on shared schemas: comparing, printing, normalizing, checking,  *)
(* parsing. A schema is a sequence of parts. An operation visits its parts    *)
(* one by one and collects what it makes of them; it keeps what it collects   *)
(* to itself and does not touch what it visits. So whatever runs before it or *)
(* at the same time, its result is the one that it has alone.                 *)
(* Ways to be careless (constants): an operation puts the parts in order in   *)
(* place; it collects in a place that all share; it remembers the result of   *)
(* an object by the place of the object and not by what it says.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Size, Turns, SortsInPlace, SharesScratch, KeepsFirst
VARIABLES schema, pc, task, todo, got, scratch, kept, left, ok
vars == << schema, pc, task, todo, got, scratch, kept, left, ok >>

Objects == {1, 2}
(* the parts, by their rank: each schema in an order of its own               *)
Given == << [ i \in 1..Size |-> Size + 1 - i ], [ i \in 1..Size |-> 10 * i ] >>
Kinds == {"print", "norm", "diff"}
Tasks == { t \in [op : Kinds, a : Objects, b : Objects] : t.op # "diff" => t.b = 1 }

Sorted(s) == SortSeq(s, LAMBDA x, y : x < y)
(* What an operation makes of its arguments                                   *)
Result(t, g) == CASE t.op = "print" -> g[t.a]
                  [] t.op = "norm"  -> Sorted(g[t.a])
                  [] t.op = "diff"  -> g[t.a] \o g[t.b]
Visits(t) == CASE t.op = "diff" -> << t.a, t.b >> [] OTHER -> << t.a >>

Init == /\ schema = Given /\ pc = [p \in Procs |-> "idle"] /\ task = [p \in Procs |-> [op |-> "print", a |-> 1, b |-> 1]]
        /\ todo = [p \in Procs |-> << >>] /\ got = [p \in Procs |-> << >>] /\ scratch = << >>
        /\ kept = [o \in Objects |-> << >>] /\ left = [p \in Procs |-> Turns] /\ ok = TRUE

Begin(p) == /\ pc[p] = "idle" /\ left[p] > 0
            /\ \E t \in Tasks : task' = [task EXCEPT ![p] = t]
            /\ pc' = [pc EXCEPT ![p] = "open"] /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ UNCHANGED << schema, todo, got, scratch, kept, ok >>
Open(p) == /\ pc[p] = "open"
           /\ LET v == Visits(task[p])
                  parts(i) == [ k \in 1..Size |-> << v[i], k >> ]
              IN todo' = [todo EXCEPT ![p] = IF Len(v) = 1 THEN parts(1) ELSE parts(1) \o parts(2)]
           /\ schema' = IF SortsInPlace /\ task[p].op = "norm" THEN [schema EXCEPT ![task[p].a] = Sorted(@)] ELSE schema
           /\ got' = [got EXCEPT ![p] = << >>]
           /\ scratch' = << >>
           /\ pc' = [pc EXCEPT ![p] = "visit"] /\ UNCHANGED << task, kept, left, ok >>
Visit(p) == /\ pc[p] = "visit" /\ todo[p] # << >>
            /\ LET x == schema[Head(todo[p])[1]][Head(todo[p])[2]] IN
               IF SharesScratch THEN scratch' = Append(scratch, x) /\ got' = got ELSE got' = [got EXCEPT ![p] = Append(@, x)] /\ scratch' = scratch
            /\ todo' = [todo EXCEPT ![p] = Tail(@)]
            /\ UNCHANGED << schema, pc, task, kept, left, ok >>
End(p) == /\ pc[p] = "visit" /\ todo[p] = << >>
          /\ LET raw == IF SharesScratch THEN scratch ELSE got[p]
                 new == IF task[p].op = "norm" THEN Sorted(raw) ELSE raw
                 old == kept[task[p].a]
                 res == IF KeepsFirst /\ old # << >> THEN old ELSE new
             IN /\ ok' = (ok /\ res = Result(task[p], Given))
                /\ kept' = IF KeepsFirst /\ old = << >> THEN [kept EXCEPT ![task[p].a] = new] ELSE kept
          /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ UNCHANGED << schema, task, todo, got, scratch, left >>
Next == \E p \in Procs : Begin(p) \/ Open(p) \/ Visit(p) \/ End(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Open(p) \/ Visit(p) \/ End(p))

SameAsAlone == ok
Untouched == schema = Given
Ends == \A p \in Procs : pc[p] # "idle" ~> pc[p] = "idle"
=============================================================================
