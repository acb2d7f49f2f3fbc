----------------------------- MODULE MySQLModel -----------------------------
(* Every conversation of a client that reads the schema of a server with few  *)
(* tables, over connections that fail at any point of any answer. A careless  *)
(* client takes the end of an interrupted listing for the end of the tables.  *)
EXTENDS MySQLSource

CONSTANTS Names, Careful, MaxTries
ThreeNames == << "a", "b", "c" >>

CreateText(n) == "create " \o n
VARIABLES s, have, next, tries
vars == << s, have, next, tries >>
(* have: the names the client works with; next: the one it asks for           *)
Init == s = Begin /\ have = << >> /\ next = 0 /\ tries = 0
Rows(n) == [ i \in 1..n |-> [name |-> Names[i], text |-> ""] ]
Ev(k, t, rows, full, bad) == [e |-> k, t |-> t, rows |-> rows, full |-> full, bad |-> bad, ok |-> FALSE, out |-> ""]

List == /\ s.done = "" /\ next = 0 /\ tries < MaxTries
        /\ tries' = tries + 1
        /\ \E n \in 0..Len(Names), full \in BOOLEAN, bad \in BOOLEAN :
             /\ full => n = Len(Names)
             /\ s' = Step(s, Ev("tables", "", Rows(n), full, bad))
             /\ IF (full /\ ~bad) \/ ~Careful
                THEN next' = 1 /\ have' = [ i \in 1..n |-> Names[i] ]
                ELSE next' = 0 /\ have' = << >>
Ask == /\ s.done = "" /\ next \in 1..Len(have) /\ tries < MaxTries + Len(Names)
       /\ tries' = tries + 1
       /\ \E n \in 0..1, full \in BOOLEAN, bad \in BOOLEAN :
            /\ full /\ ~bad => n = 1
            /\ s' = Step(s, Ev("create", have[next], IF n = 1 THEN << [name |-> have[next], text |-> CreateText(have[next])] >> ELSE << >>, full, bad))
            /\ next' = IF n = 1 /\ ~bad THEN next + 1 ELSE next
       /\ have' = have
RECURSIVE Join(_)
Join(ns) == IF ns = << >> THEN "" ELSE CreateText(Head(ns)) \o ";\n\n" \o Join(Tail(ns))
End(ok, out) == [e |-> "return", t |-> "", rows |-> << >>, full |-> TRUE, bad |-> FALSE, ok |-> ok, out |-> out]
Finish == /\ s.done = ""
          /\ \/ /\ next = Len(have) + 1
                /\ s' = IF Careful THEN Step(s, End(TRUE, Join(have))) ELSE [s EXCEPT !.done = "ok"]
             \/ s.fault /\ s' = Step(s, End(FALSE, ""))
          /\ UNCHANGED << have, next, tries >>
Next == List \/ Ask \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllOrNothing == s.done = "ok" => have = Names
NeverStuck == s.done # "stuck"
=============================================================================
