SPECIFICATION Spec
CONSTANTS Depth = 4
Show = TRUE
INVARIANTS Complete OneOwner Report
PROPERTY Apart
CHECK_DEADLOCK FALSE
