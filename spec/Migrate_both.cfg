SPECIFICATION Spec
CONSTANTS Universe = "both"
Careless = ""
Report = TRUE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
