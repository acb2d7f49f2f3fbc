SPECIFICATION Spec
CONSTANTS Universe = "columns"
Careless = "drops all"
Report = FALSE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
