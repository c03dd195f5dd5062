INIT Init
NEXT Next
CONSTANTS
 PerThread = TRUE
 Switches = 2
INVARIANTS Schedules Answers
CHECK_DEADLOCK FALSE
