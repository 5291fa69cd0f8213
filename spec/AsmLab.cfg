SPECIFICATION Spec
INVARIANTS Agree Scoped
CHECK_DEADLOCK FALSE
