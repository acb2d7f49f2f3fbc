SPECIFICATION Spec
CONSTANTS Procs = {p1, p2}
Size = 2
Turns = 1
SortsInPlace = FALSE
SharesScratch = TRUE
KeepsFirst = FALSE
INVARIANTS SameAsAlone Untouched
CHECK_DEADLOCK FALSE
