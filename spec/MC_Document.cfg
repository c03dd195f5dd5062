SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Strictness Exactly Placement Behaviours
PROPERTY Refusals
CHECK_DEADLOCK FALSE
