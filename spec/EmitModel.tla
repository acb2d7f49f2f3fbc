------------------------------ MODULE EmitModel -----------------------------
(* The design: every schedule of reads, faults and writes for small outputs.  *)
EXTENDS Emit

CONSTANTS MaxTotal, Careful

VARIABLE s
Ev(k, n, t, ok, f) == [e |-> k, n |-> n, t |-> t, ok |-> ok, f |-> f]
Init == \E kind \in {"all", "stream"}, need \in 0..2, total \in 0..MaxTotal, bad \in BOOLEAN : s = Begin(kind, need, total, bad)

(* An implementation reads its sources in order, gives up on the first        *)
(* failure (unless it is careless), and writes what is left in any chunks.    *)
DoRead == /\ ~AllRead(s) /\ ~s.bad /\ s.done = ""
          /\ \E ok \in BOOLEAN : s' = Step(s, Ev("read", Cardinality(s.ends) + 1, 0, ok, ok))
DoFail == /\ s.kind = "stream" /\ s.done = "" /\ AllRead(s) /\ ~s.bad \* a definition that can not be printed
          /\ s.took < s.total
          /\ s' = [s EXCEPT !.bad = TRUE]
DoWrite == /\ s.done = "" /\ AllRead(s) /\ ~s.bad /\ ~s.broken /\ s.took < s.total
           /\ \E n \in 1..(s.total - s.took) : \E t \in 0..n : \E ok \in BOOLEAN :
                /\ ok => t = n
                /\ s' = Step(s, Ev("write", n, t, ok, FALSE))
DoReturn == /\ s.done = ""
            /\ \/ Complete(s) /\ s' = Step(s, Ev("return", 0, 0, TRUE, FALSE))
               \/ (s.bad \/ s.broken) /\ s' = Step(s, Ev("return", 0, 0, FALSE, FALSE))
               \/ ~Careful /\ s' = [s EXCEPT !.done = "ok"]
Next == DoRead \/ DoFail \/ DoWrite \/ DoReturn
Spec == Init /\ [][Next]_s /\ WF_s(Next)

NoFalseSuccess == s.done = "ok" => s.took = s.total /\ ~s.broken /\ ~s.bad
NothingOnFailure == s.done = "error" /\ s.kind = "all" /\ ~s.broken => s.took = 0
NeverStuck == s.done # "stuck"
Returns == <>(s.done # "")
=============================================================================
