SPECIFICATION Spec
INVARIANTS Local Blank
CHECK_DEADLOCK FALSE
