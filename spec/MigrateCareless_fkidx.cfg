SPECIFICATION Spec
CONSTANTS Universe = "keys"
Careless = "fks with indexes"
Report = FALSE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
