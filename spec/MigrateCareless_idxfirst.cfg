SPECIFICATION Spec
CONSTANTS Universe = "both"
Careless = "indexes first"
Report = FALSE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
