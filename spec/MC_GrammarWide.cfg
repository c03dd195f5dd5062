SPECIFICATION Spec
CONSTANT Depth = 3
CONSTANT Wide = TRUE
INVARIANTS Tokens Reading Enclosed
CHECK_DEADLOCK FALSE
