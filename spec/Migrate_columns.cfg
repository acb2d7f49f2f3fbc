SPECIFICATION Spec
CONSTANTS Universe = "columns"
Careless = ""
Report = TRUE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
