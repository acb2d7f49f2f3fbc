SPECIFICATION Spec
CONSTANTS Universe = "keyed"
Careless = "types first"
Report = FALSE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
