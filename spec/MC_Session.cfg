SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Registrations Resolving
PROPERTY Steps
CHECK_DEADLOCK FALSE
