INIT Init
NEXT Next
CONSTANTS
 PerThread = TRUE
 Switches = 1
INVARIANTS Schedules Answers
CHECK_DEADLOCK FALSE
