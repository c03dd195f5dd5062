CONSTANT Depth = 4
SPECIFICATION Spec
INVARIANTS Identity Inverse Composition Equivalence
CHECK_DEADLOCK FALSE
