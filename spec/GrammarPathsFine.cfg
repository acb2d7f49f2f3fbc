INIT Init
NEXT Next
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANT Fine = TRUE
