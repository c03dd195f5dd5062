SPECIFICATION Spec
CONSTANTS
 PerThread = TRUE
 Switches = 99
INVARIANTS Answers Published Marked Clean
PROPERTY Ends
CHECK_DEADLOCK FALSE
