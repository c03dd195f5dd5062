SPECIFICATION Spec
CONSTANTS
 PerThread = FALSE
 Switches = 99
INVARIANTS Answers
CHECK_DEADLOCK FALSE
