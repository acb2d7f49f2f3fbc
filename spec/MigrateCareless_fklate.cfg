SPECIFICATION Spec
CONSTANTS Universe = "keys"
Careless = "fks late"
Report = FALSE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
