SPECIFICATION Spec
CONSTANTS Procs = {p1, p2}
Size = 2
Turns = 2
SortsInPlace = FALSE
SharesScratch = FALSE
KeepsFirst = FALSE
INVARIANTS SameAsAlone Untouched
PROPERTY Ends
CHECK_DEADLOCK FALSE
