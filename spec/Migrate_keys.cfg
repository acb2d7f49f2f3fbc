SPECIFICATION Spec
CONSTANTS Universe = "keys"
Careless = ""
Report = TRUE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
