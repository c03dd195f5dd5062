SPECIFICATION Spec
INVARIANTS Faithful Form
CHECK_DEADLOCK FALSE
