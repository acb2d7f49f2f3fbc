SPECIFICATION Spec
CONSTANTS Depth = 3
Show = TRUE
INVARIANTS Complete OneOwner Report
PROPERTY Apart
CHECK_DEADLOCK FALSE
