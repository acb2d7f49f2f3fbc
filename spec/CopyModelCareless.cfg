INIT Init
NEXT Next
INVARIANTS Verbatim NeverStuck
CHECK_DEADLOCK FALSE
CONSTANTS Data = "abacab"
Careful = FALSE
