SPECIFICATION Spec
CONSTANT Depth = 4
CONSTANT Wide = FALSE
INVARIANTS Tokens Reading Enclosed
CHECK_DEADLOCK FALSE
