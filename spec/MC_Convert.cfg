CONSTANT Depth = 3
SPECIFICATION Spec
INVARIANTS Identity Inverse Composition Equivalence
CHECK_DEADLOCK FALSE
