SPECIFICATION Spec
CONSTANTS Universe = "tables"
Careless = ""
Report = TRUE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
