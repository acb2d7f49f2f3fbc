SPECIFICATION Spec
CONSTANTS Procs = {p1}
Size = 2
Turns = 2
SortsInPlace = FALSE
SharesScratch = FALSE
KeepsFirst = TRUE
INVARIANTS SameAsAlone Untouched
CHECK_DEADLOCK FALSE
