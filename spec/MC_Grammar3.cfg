SPECIFICATION Spec
CONSTANT Depth = 3
CONSTANT Wide = FALSE
INVARIANTS Tokens Reading Enclosed
CHECK_DEADLOCK FALSE
