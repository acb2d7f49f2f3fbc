------------------------------ MODULE CopyModel -----------------------------
(* Every schedule of copying a small source through a buffer of two bytes,    *)
(* with reads that split it anywhere and a fault at any point.                *)
EXTENDS Source

CONSTANTS Data, Careful

VARIABLES c, at, buf
vars == << c, at, buf >>
Init == c = CopyStart /\ at = 0 /\ buf = ""
Ev(k, v, t, ok, f) == [e |-> k, v |-> v, t |-> t, ok |-> ok, f |-> f]

Chunk(n) == SubSeq(Data, at + 1, at + n)
Read == /\ c.done = "" /\ buf = "" /\ ~c.eof /\ ~c.broken
        /\ \E n \in 0..2, f \in BOOLEAN, ok \in BOOLEAN :
             /\ at + n <= Len(Data)
             /\ f => ok /\ at + n = Len(Data)
             /\ c' = CopyStep(c, Ev("read", Chunk(n), 0, ok, f))
             /\ at' = at + n /\ buf' = Chunk(n)
Write == /\ c.done = "" /\ buf # "" /\ (c.broken => ~c.eof)
         /\ \E ok \in BOOLEAN, t \in 0..Len(buf) :
              /\ ok => t = Len(buf)
              /\ c' = CopyStep(c, Ev("write", buf, t, ok, FALSE))
              /\ buf' = "" /\ at' = at
Return == /\ c.done = ""
          /\ \/ c.eof /\ buf = "" /\ ~c.broken /\ c' = CopyStep(c, Ev("return", "", 0, TRUE, FALSE))
             \/ c.broken /\ c' = CopyStep(c, Ev("return", "", 0, FALSE, FALSE))
             \/ ~Careful /\ c' = [c EXCEPT !.done = "ok"]
          /\ UNCHANGED << at, buf >>
Next == Read \/ Write \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ SF_vars(Read /\ at' # at)

Verbatim == c.done # "stuck" => IsPrefixOf(c.out, Data) /\ (c.done = "ok" => c.out = Data)
NeverStuck == c.done # "stuck"
=============================================================================
