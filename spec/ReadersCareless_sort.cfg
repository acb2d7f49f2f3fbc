SPECIFICATION Spec
CONSTANTS Procs = {p1, p2}
Size = 2
Turns = 1
SortsInPlace = TRUE
SharesScratch = FALSE
KeepsFirst = FALSE
INVARIANTS SameAsAlone
CHECK_DEADLOCK FALSE
