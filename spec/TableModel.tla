----------------------------- MODULE TableModel -----------------------------
(* Every history of edits of two tables with shared columns, two of which     *)
(* have the same name. Harnesses replay the histories on real tables.         *)
EXTENDS Tables, TLC, Json
CONSTANTS Depth, Show
Objects == 1..3
Names == << "a", "b", "a" >>
Edits(n) == { [e |-> "col", t |-> t, c |-> c] : t \in 1..2, c \in Objects }
       \cup { [e |-> "set", c |-> c, v |-> "v" \o ToString(n)] : c \in Objects }
       \cup { [e |-> "setin", t |-> t, p |-> p, v |-> "v" \o ToString(n)] : t \in 1..2, p \in 1..2 }
       \cup { [e |-> k, t |-> t, v |-> k \o ToString(n)] : k \in {"idx", "opt"}, t \in 1..2 }
VARIABLES st, path
Init == st = Start(1..2, Objects) /\ path = << >>
Next == Len(path) < Depth /\ \E e \in Edits(Len(path) + 1) : Possible(st, e) /\ st' = Edit(st, e) /\ path' = Append(path, e)
Spec == Init /\ [][Next]_<< st, path >>

(* What the property says about every history *)
Count(P(_)) == Cardinality({ i \in 1..Len(path) : P(path[i]) })
Complete == \A t \in 1..2 :
  /\ Len(st.tab[t].cols) = Count(LAMBDA e : e.e = "col" /\ e.t = t)
  /\ Len(st.tab[t].idx) = Count(LAMBDA e : e.e = "idx" /\ e.t = t)
  /\ Len(st.tab[t].opts) = Count(LAMBDA e : e.e = "opt" /\ e.t = t)
(* an object is in one place only *)
OneOwner == \A c \in Objects : Cardinality({ << t, i >> \in (1..2) \X (1..Depth) : i <= Len(st.tab[t].cols) /\ st.tab[t].cols[i].obj = c }) <= 1
(* an addition to one table does not show in the other *)
Apart == [][ \A t \in 1..2 : LET e == path'[Len(path')] IN
               (e.e \in {"col", "idx", "opt"} /\ e.t # t) => ColumnsOf(st, t, Names) = ColumnsOf(st', t, Names) ]_<< st, path >>
Report == ~Show \/ Len(path) = 0 \/ PrintT("@@" \o ToJson([path |-> path]))
=============================================================================
