SPECIFICATION Spec
CONSTANTS Universe = "columns"
Careless = "any position"
Report = FALSE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
