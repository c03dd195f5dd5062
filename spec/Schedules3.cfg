INIT Init
NEXT Next
CONSTANTS
 PerThread = TRUE
 Switches = 3
INVARIANTS Schedules Answers
CHECK_DEADLOCK FALSE
