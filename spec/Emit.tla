-------------------------------- MODULE Emit --------------------------------
(* One operation (a diff, formatting, linting) in a faulty environment: it    *)
(* reads its sources, computes, and writes chunks to its destination.         *)
(*                                                                            *)
(* s: [kind, need, total, bad, took, broken, done]                            *)
(*   kind "all" writes nothing before everything else has succeeded (diff),   *)
(*        "stream" may write while it computes (format, lint)                 *)
(*   need    sources that have not been read to their end                     *)
(*   total   length of the complete output                                    *)
(*   bad     something before the first write has failed, or is bound to      *)
(*   took    bytes the destination has taken                                  *)
(*   broken  the destination has reported an error                            *)
(* An event is what an observer in the environment sees: reaching the end of  *)
(* a source or its failure, a write with the bytes taken, and the return.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Begin(kind, need, total, bad) ==
  [kind |-> kind, need |-> need, total |-> total, bad |-> bad, took |-> 0, broken |-> FALSE, done |-> "", ends |-> {}]

Stuck == [done |-> "stuck"]

Read(s, e) ==
  IF e.ok THEN IF e.f THEN [s EXCEPT !.ends = @ \cup {e.n}] ELSE s
  ELSE [s EXCEPT !.bad = TRUE]

AllRead(s) == Cardinality(s.ends) = s.need

(* Nothing is written before all sources have been read to the end. A         *)
(* destination that has failed may be tried again, but it stays failed.       *)
MayWrite(s) == AllRead(s) /\ (s.kind = "all" => ~s.bad)
Write(s, e) ==
  IF e.n > 0 /\ ~MayWrite(s) THEN Stuck
  ELSE IF e.ok THEN IF s.broken THEN Stuck ELSE [s EXCEPT !.took = @ + e.t]
  ELSE [s EXCEPT !.took = @ + e.t, !.broken = TRUE]

Complete(s) == AllRead(s) /\ ~s.bad /\ ~s.broken /\ s.took = s.total
Return(s, e) ==
  IF e.ok THEN IF Complete(s) THEN [s EXCEPT !.done = "ok"] ELSE Stuck
  ELSE [s EXCEPT !.done = "error"]

Step(s, e) ==
  CASE s.done # "" -> Stuck
    [] e.e = "read" -> Read(s, e)
    [] e.e = "write" -> Write(s, e)
    [] e.e = "return" -> Return(s, e)

(* Events up to the first that is not allowed; 0 if all of them are           *)
RECURSIVE Follow(_, _, _)
Follow(s, evs, i) ==
  IF i > Len(evs) THEN (IF s.done = "" THEN i ELSE 0)
  ELSE LET t == Step(s, evs[i]) IN IF t.done = "stuck" THEN i ELSE Follow(t, evs, i + 1)

=============================================================================
