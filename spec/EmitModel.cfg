SPECIFICATION Spec
INVARIANTS NoFalseSuccess NothingOnFailure NeverStuck
PROPERTY Returns
CHECK_DEADLOCK FALSE
CONSTANTS MaxTotal = 6
Careful = TRUE
