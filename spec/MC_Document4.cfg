SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Strictness Exactly Placement Behaviours
PROPERTY Refusals
CHECK_DEADLOCK FALSE
