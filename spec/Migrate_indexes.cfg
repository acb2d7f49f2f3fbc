SPECIFICATION Spec
CONSTANTS Universe = "indexes"
Careless = ""
Report = TRUE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
