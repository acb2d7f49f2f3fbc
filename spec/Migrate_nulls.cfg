SPECIFICATION Spec
CONSTANTS Universe = "nulls"
Careless = ""
Report = TRUE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
