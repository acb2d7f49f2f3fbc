----------------------------- MODULE MySQLSource ----------------------------
(* Reading the schema of a server, as the server sees it. An event is an      *)
(* answer (to SHOW TABLES, to SHOW CREATE TABLE t, to anything else), with    *)
(* the rows the client can have received, whether the answer was complete     *)
(* (full), and whether it reported an error or was not what MySQL answers     *)
(* (bad); or the end of the whole operation, with what has been written.      *)
(*                                                                            *)
(* s: [listed, names, got, fault, done]                                       *)
(*   names  the tables of the last complete listing (listed)                  *)
(*   got    pairs << table, text >> that have been received                   *)
(*   fault  something has gone wrong                                          *)
(*   dest   the destination has failed                                        *)
(* What goes wrong on the way leaves nothing in the destination. That a table *)
(* which is not listed cannot be shown is the fault of who asks.              *)
EXTENDS Text, FiniteSets

Begin == [listed |-> FALSE, names |-> << >>, got |-> {}, fault |-> FALSE, dest |-> FALSE, done |-> ""]
Stuck == [done |-> "stuck"]

Fine(e) == e.full /\ ~e.bad
Tables(s, e) ==
  [s EXCEPT !.fault = @ \/ ~Fine(e),
            !.listed = @ \/ Fine(e),
            !.names = IF Fine(e) THEN [ i \in 1..Len(e.rows) |-> e.rows[i].name ] ELSE @]
Create(s, e) ==
  [s EXCEPT !.fault = @ \/ (~Fine(e) /\ (s.listed => \E i \in 1..Len(s.names) : s.names[i] = e.t)),
            !.got = IF ~e.bad /\ Len(e.rows) = 1 THEN @ \cup {<< e.t, e.rows[1].text >>} ELSE @]

Space(c) == c \in {" ", "\n", "\t", "\r"}
RECURSIVE SkipSpace(_, _)
SkipSpace(out, i) == IF i <= Len(out) /\ Space(CharAt(out, i)) THEN SkipSpace(out, i + 1) ELSE i
(* out from position i on is the texts, each terminated, and white space      *)
RECURSIVE Texts(_, _, _, _)
Texts(out, i, names, got) ==
  IF names = << >> THEN SkipSpace(out, i) > Len(out)
  ELSE \E g \in got :
         /\ g[1] = Head(names)
         /\ \E k \in i..SkipSpace(out, i) :
              LET n == Len(g[2]) IN
              /\ k + n <= Len(out)
              /\ SubSeq(out, k, k + n - 1) = g[2]
              /\ LET semi == SkipSpace(out, k + n) IN
                 semi <= Len(out) /\ CharAt(out, semi) = ";" /\ Texts(out, semi + 1, Tail(names), got)

Complete(s, out) == s.listed /\ Texts(out, 1, s.names, s.got)
Return(s, e) ==
  IF e.ok THEN IF Complete(s, e.out) THEN [s EXCEPT !.done = "ok"] ELSE Stuck
  ELSE IF s.dest \/ (s.fault /\ e.out = "") THEN [s EXCEPT !.done = "error"] ELSE Stuck

Step(s, e) ==
  CASE s.done # "" -> Stuck
    [] e.e = "tables" -> Tables(s, e)
    [] e.e = "create" -> Create(s, e)
    [] e.e = "return" -> Return(s, e)
    [] e.e = "dest" -> [s EXCEPT !.dest = TRUE]
    [] OTHER -> [s EXCEPT !.fault = @ \/ e.bad]

RECURSIVE Follow(_, _, _)
Follow(s, evs, i) ==
  IF i > Len(evs) THEN (IF s.done = "" THEN i ELSE 0)
  ELSE LET t == Step(s, evs[i]) IN IF t.done = "stuck" THEN i ELSE Follow(t, evs, i + 1)
=============================================================================
