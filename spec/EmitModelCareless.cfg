SPECIFICATION Spec
INVARIANTS NoFalseSuccess NothingOnFailure NeverStuck
CHECK_DEADLOCK FALSE
CONSTANTS MaxTotal = 6
Careful = FALSE
