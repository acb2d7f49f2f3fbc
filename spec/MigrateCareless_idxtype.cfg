SPECIFICATION Spec
CONSTANTS Universe = "keyed"
Careless = "indexes before types"
Report = FALSE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
