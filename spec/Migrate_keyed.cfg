SPECIFICATION Spec
CONSTANTS Universe = "keyed"
Careless = ""
Report = TRUE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
