SPECIFICATION Spec
CONSTANTS Universe = "flags"
Careless = ""
Report = TRUE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
