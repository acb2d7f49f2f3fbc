SPECIFICATION Spec
CONSTANTS Universe = "keys"
Careless = "pk with fks"
Report = FALSE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
