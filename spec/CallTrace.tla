------------------------------- MODULE CallTrace -------------------------------
(* What can be observed of calls of the parser. Pipeline says how they go.    *)
EXTENDS Naturals, Sequences

(* A call begins, returns, and its scanner ends. Everything else is not       *)
(* allowed: a panic, an endless wait, a scanner that stays.                   *)
Allowed == << "begin", "return", "gone" >>
(* the first event that is not allowed, 0 if there is none *)
Follow(ev) ==
  LET bad == { i \in 1..Len(ev) : i > 3 \/ ev[i].e # Allowed[IF i > 3 THEN 3 ELSE i] } IN
  IF bad # {} THEN CHOOSE i \in bad : \A j \in bad : i <= j ELSE IF Len(ev) < 3 THEN Len(ev) + 1 ELSE 0

(* Calls of one parser at the same time: alone is what each gives when it     *)
(* runs alone, seen[i] all that it gave along with the others                 *)
Independent(alone, seen) == \A i \in 1..Len(alone) : \A k \in 1..Len(seen[i]) : seen[i][k] = alone[i]
=============================================================================
