--------------------------- MODULE ReaderHistories ---------------------------
(* Every history of operations on two schemas, up to a length                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES path
Op(o, a, b) == [op |-> o, a |-> a, b |-> b]
Operations ==
  { Op("diff", 1, 2), Op("diff", 2, 1), Op("diff", 1, 1), Op("difftxn", 1, 2), Op("difftext", 1, 2), Op("discard", 1, 2),
    Op("print", 1, 1), Op("print", 2, 1), Op("each", 1, 1), Op("indent", 1, 2), Op("cut", 1, 1), Op("cut", 2, 3),
    Op("norm", 1, 1), Op("norm", 2, 1), Op("lint", 1, 1), Op("lint", 1, 2), Op("lint", 2, 3), Op("cutlint", 1, 1), Op("parse", 1, 1), Op("find", 1, 1) }
Init == path = << >>
Next == /\ Len(path) < Depth
        /\ \E e \in Operations : path' = Append(path, e)
        /\ PrintT("@@" \o ToJson([path |-> path']))
Spec == Init /\ [][Next]_path
=============================================================================
